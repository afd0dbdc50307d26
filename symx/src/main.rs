//! Symbolic execution of rust_light: see engine.rs.
#[macro_use]
mod chk;
mod cli;
mod engine;
mod env;
mod ext;
mod refmodel;
mod s;
mod solver;
mod sym;

pub use cli::seed;
use env::panic_text;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let threads: usize = cli::arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(2);
    let _ = rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(64 << 20).build_global();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(cli::real_main).unwrap();
    match h.join() {
        Ok(code) => std::process::exit(code),
        Err(e) => {
            println!("ENGINE-ERROR {}", panic_text(&*e));
            std::process::exit(2)
        }
    }
}
