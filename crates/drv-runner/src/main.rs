//! Records what the real VM does, as line-delimited JSON for TLC.
mod decode;
mod exec;
mod loader;
use drv_util as util;

fn main() { drv_util::run(real_main) }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a[1].as_str() {
        "decode-sweep" => decode::sweep(&a[2], &a[3], a[4].parse().unwrap(), seed),
        "decode-sample" => decode::sample(&a[2], a[3].parse().unwrap(), seed),
        "vm" => exec::main(&a[2], &a[3], a[4].parse().unwrap(), seed, a[5].parse().unwrap()),
        "loader" => loader::main(&a[2], a[3].parse().unwrap(), seed, a[4].parse().unwrap()),
        x => panic!("unknown subcommand {x}"),
    }
}
