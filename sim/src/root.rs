// Modules of the simulator and its command line, shared by the program (main.rs) and the shared object (py.rs).
mod alloc;
mod answers;
mod compose;
mod engines;
mod fs;
mod model;
mod ops;
mod props;
mod pyhost;
mod pywrap;
mod rng;
mod rt;
mod runner;
mod search;
mod tags;
mod refmodel;
mod zipw;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub fn run(a: Vec<String>) -> i32 {
    runner::install_panic_hook();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(0) {
        "check" => search::check(arg(1), &a[2..]),
        "worker" => search::worker(arg(1), arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5).parse().unwrap()),
        "replay" => search::replay(arg(1)),
        "eval" => search::eval_command(arg(1) == "log"),
        "one" => search::one(arg(1), arg(2).parse().unwrap_or(1)),
        "selftest" => search::selftest(arg(1).parse().unwrap_or(20)),
        "dump" => search::dump(arg(1).parse().unwrap(), arg(2)),
        _ => { eprintln!("usage: simh check ID | replay FILE | one ID SEED | selftest"); 2 }
    }
}
