#!/bin/bash
# Builds main.rs against the crates in /repo (third-party crates from the local cargo
# cache, the unreachable git dependencies replaced by the stand-ins in kit.tgz) and runs it.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
tar xzf "$D/kit.tgz" -C "$T"
mkdir -p "$T/crates/demo/src"
cp "$D/main.rs" "$T/crates/demo/src/main.rs"
python3 "$T/unpack.py" "$T/vendor"
unset RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
if [ -d "$T/guest" ]; then
  (cd "$T/guest" && RUST_TARGET_PATH=/repo/.cargo cargo build -q --locked --offline --release --target riscv32im-mozak-mozakvm-elf \
    -Zbuild-std=alloc,core,compiler_builtins,std,panic_abort,proc_macro -Zbuild-std-features=compiler-builtins-mem -p guest) > "$T/log" 2>&1 || { tail -40 "$T/log"; exit 3; }
  export GUEST_ELF="$T/guest/target/riscv32im-mozak-mozakvm-elf/release/guest"
fi
cd "$T/crates"
cargo build --offline -q -p demo > "$T/log" 2>&1 || { tail -40 "$T/log"; exit 3; }
timeout 120 ./target/debug/demo
