//! Records what the block proposer does, as line-delimited JSON for TLC.
mod addr;
mod block;
mod programs;
mod proofs;
mod state;
mod terms;
mod tx;

fn main() { drv_util::run(real_main) }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let n = |i: usize| a[i].parse::<usize>().unwrap();
    match a[1].as_str() {
        "addr" => addr::main(&a[2], n(3), seed, n(4)),
        "state" => state::main(&a[2], n(3), seed, n(4), n(5)),
        "tx" => tx::main(&a[2], n(3), seed, n(4), n(5)),
        "block" => block::main(&a[2], n(3), seed, n(4), n(5)),
        "proofs" => proofs::main(&a[2], n(3), seed, n(4), n(5), &a[6]),
        x => panic!("unknown subcommand {x}"),
    }
}
