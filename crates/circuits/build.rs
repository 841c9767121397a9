//! Take the module list of the real crate, with every module read from /repo.
use std::fmt::Write;
fn main() {
    let root = "/repo/circuits/src";
    let src = std::fs::read_to_string(format!("{root}/lib.rs")).unwrap();
    println!("cargo:rerun-if-changed={root}");
    let mut out = String::new();
    for line in src.lines() {
        let t = line.trim();
        if t.starts_with("#![") { continue; }
        let name = t.strip_prefix("pub mod ").or_else(|| t.strip_prefix("pub(crate) mod ")).or_else(|| t.strip_prefix("mod ")).and_then(|r| r.strip_suffix(';'));
        match name {
            Some(n) => {
                let file = format!("{root}/{n}.rs");
                let path = if std::path::Path::new(&file).exists() { file } else { format!("{root}/{n}/mod.rs") };
                writeln!(out, "#[path = {path:?}]\npub mod {n};").unwrap();
            }
            None => writeln!(out, "{line}").unwrap(),
        }
    }
    std::fs::write(format!("{}/lib.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
