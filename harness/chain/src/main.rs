mod codec;
mod ledger;
mod merkle;
mod mpt;
mod names;
mod staged;
mod storage;
mod util;

fn main() {
    // deliberate aborts leave no core files
    unsafe {
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "codec" => codec::main(),
        "ledger" => ledger::main(arg(2)),
        "merkle" => merkle::main(),
        "names" => names::main(),
        "staged" => staged::main_staged(),
        "native" => staged::main_native(),
        "storage" => storage::main(arg(2)),
        "storage-child" => storage::main_child(arg(2), arg(3), arg(4)),
        x => {
            eprintln!("unknown driver {:?}", x);
            std::process::exit(2);
        }
    }
}
