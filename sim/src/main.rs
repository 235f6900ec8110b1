#![recursion_limit = "512"]
//! Deterministic simulation of the roster server. See /verif/DESIGN.md.
#![allow(invalid_runtime_symbol_definitions, non_upper_case_globals, dead_code, static_mut_refs, clippy::missing_safety_doc, clippy::too_many_arguments)]
mod alloc;
mod check;
mod client;
mod fiber;
mod gen;
mod hooks;
mod net;
mod oracle;
mod plan;
mod resp;
mod rng;
mod run;
mod sys;
mod uring;
mod world;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("template") => {
            // rsim template CPUS LIMIT BOOTSEED, always the same length
            run::template(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap())
        }
        Some("check") => std::process::exit(check::check(&a[2])),
        Some("replay") => std::process::exit(check::replay(&a[2], a.iter().any(|x| x == "--trace"))),
        Some("one") => std::process::exit(check::one(&a[2..])),
        _ => {
            eprintln!("usage: rsim check PROPERTY | replay FILE [--trace] | one PROFILE SEED [CPUS LIMIT BOOT] [--trace]");
            std::process::exit(2)
        }
    }
}
