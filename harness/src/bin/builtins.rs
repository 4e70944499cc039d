//! Calls the built-in functions of the rule language; one case per line of the
//! input, one result per line of the output.  Needs the hook in src/rubi.rs.
#![allow(dead_code)]
#[path = "../eval.rs"]
mod eval;
#[path = "../poly.rs"]
mod poly;
#[path = "../tree.rs"]
mod tree;

use calcu_rs::rubi::mc::{call, Val};
use std::io::{BufRead, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut p = l.split(" | ");
        let name = p.next().unwrap().trim();
        let args: Vec<Val> = p
            .map(|a| match a.trim() {
                "True" => Val::Bool(true),
                "False" => Val::Bool(false),
                "None" => Val::None,
                a => Val::Expr(tree::build(&tree::parse(a))),
            })
            .collect();
        let r = std::panic::catch_unwind(|| match call(name, args).expect("no such function") {
            Val::None => "None".to_string(),
            Val::Bool(true) => "True".to_string(),
            Val::Bool(false) => "False".to_string(),
            Val::Expr(e) => tree::read(&e).to_string(),
        });
        writeln!(out.lock(), "{}", r.unwrap_or_else(|_| "panic".to_string())).unwrap();
        out.lock().flush().unwrap();
    }
}
