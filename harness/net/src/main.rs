mod mesh;
mod peers;
mod util;
mod wire;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "mesh" => mesh::main(),
        "node" => mesh::node(),
        "peers" => peers::main(),
        "wire" => wire::main(),
        x => {
            eprintln!("unknown driver {:?}", x);
            std::process::exit(2);
        }
    }
}
