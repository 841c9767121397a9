//! Whole machine proofs: what a program's identity depends on, and which proofs verify.
#![allow(dead_code)]
#[path = "../../drv-runner/src/decode.rs"]
mod decode;
#[path = "../../drv-runner/src/exec.rs"]
mod exec;
#[path = "../../drv-circuits/src/gens.rs"]
mod gens;
mod ident;
mod proof;
#[path = "/repo/cli/src/runner.rs"]
mod runner;
#[path = "/repo/cli/src/trace_utils.rs"]
mod trace_utils;
use drv_util as util;

fn main() { drv_util::run(real_main) }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    match a[1].as_str() {
        "proof" => proof::main(&a[2], n(3), n(4), n(5), n(6), seed),
        "ident" => ident::main(&a[2], n(3), n(4), n(5), n(6), seed),
        x => panic!("unknown subcommand {x}"),
    }
}
