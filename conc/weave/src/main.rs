//! Symbolic exploration of schedules: rust_light is compiled with `std`, `rayon` and `crossbeam` replaced by
//! stand-ins whose scheduler asks the symbolic engine who runs next.
#[macro_use]
#[path = "../../../symx/src/chk.rs"]
mod chk;
#[path = "../../../symx/src/cli.rs"]
mod cli;
#[path = "../../../symx/src/engine.rs"]
mod engine;
#[path = "../../../symx/src/env.rs"]
mod env;
#[allow(dead_code)]
#[path = "../../../symx/src/s/net.rs"]
mod net;
#[path = "../../../symx/src/refmodel.rs"]
mod refmodel;
mod s;
#[path = "../../../symx/src/solver.rs"]
mod solver;
#[path = "../../../symx/src/sym.rs"]
mod sym;

pub use cli::seed;
use env::panic_text;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(cli::real_main).unwrap();
    let code = match h.join() {
        Ok(code) => code,
        Err(e) => {
            println!("ENGINE-ERROR {}", panic_text(&*e));
            2
        }
    };
    // threads of runs that got stuck are still parked
    std::process::exit(code)
}
