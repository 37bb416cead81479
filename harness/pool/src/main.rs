mod api;
mod consensus;
mod mempool;
mod messages;
mod util;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "api" => api::main(),
        "messages" => messages::main(),
        "mempool" => mempool::main(),
        "consensus" => consensus::main(),
        x => {
            eprintln!("unknown driver {:?}", x);
            std::process::exit(2);
        }
    }
}
