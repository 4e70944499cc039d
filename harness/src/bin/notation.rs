//! Prints what every generated use of the expr! macro evaluates to.
#![allow(dead_code)]
#[path = "../eval.rs"]
mod eval;
#[path = "../poly.rs"]
mod poly;
#[path = "../tree.rs"]
mod tree;

use calcu_rs::{expr as e, Expr};

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../out/notation.rs"));

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for (i, f) in CASES {
        match std::panic::catch_unwind(|| tree::read(&f())) {
            Ok(t) => println!("{i}\t{t}"),
            Err(_) => println!("{i}\tpanic"),
        }
    }
}
