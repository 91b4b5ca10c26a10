//! Runs one harness natively on the recorded input of a counterexample,
//! against the real crate with its real dependencies.
//! exit 0: harness passes, 1: it panics, 3: input outside the assumptions.
use amqp_verify::sym;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: sym::peak::Peak = sym::peak::Peak;

fn main() {
    let name = std::env::args().nth(1).expect("harness name");
    let file = std::env::args().nth(2).expect("replay file");
    let text = std::fs::read_to_string(file).expect("readable replay file");
    let values = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .map(|l| l.trim().parse::<u64>().expect("number"))
        .collect();
    let f = amqp_verify::all()
        .into_iter()
        .find(|(n, _)| *n == name)
        .expect("unknown harness")
        .1;
    sym::load(values);
    match catch_unwind(AssertUnwindSafe(|| f())) {
        Ok(()) => println!("harness {} passes on this input", name),
        Err(e) if e.is::<sym::AssumptionViolated>() => {
            println!("input outside the assumptions of {}", name);
            std::process::exit(3)
        }
        Err(e) => {
            if let Some(m) = e.downcast_ref::<String>() {
                println!("assertion failed: {}", m)
            }
            std::process::exit(1)
        }
    }
}
