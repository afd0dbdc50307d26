//! Replays a counterexample of a harness against the natively compiled library:
//! `kanih HARNESS v1 v2 ...` exits 1 if the harness is violated, 0 if not, 2 if the values miss its assumptions.
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let Some((_, refuse, body)) = kanih::ALL.iter().find(|h| h.0 == a[0]) else {
        println!("no such harness");
        std::process::exit(2);
    };
    kanih::VALUES.with(|v| *v.borrow_mut() = a[1..].iter().map(|x| x.parse::<usize>().unwrap()).collect());
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| body());
    let text = match &r {
        Ok(()) => "returned".to_string(),
        Err(p) => p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
    };
    if text == kanih::OUTSIDE {
        std::process::exit(2);
    }
    let bad = r.is_ok() == *refuse;
    println!("{} {text}", if bad { "VIOLATED" } else { "HELD" });
    std::process::exit(bad as i32);
}
