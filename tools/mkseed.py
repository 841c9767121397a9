#!/usr/bin/env python3
"""mkseed.py ID PROPERTY [dep ...] -- complete /verif/seeded/ID (patch.diff and main.rs
already there) with demo.sh and kit.tgz.  deps: sdk runner node recproofs"""
import io, os, subprocess, sys, tarfile
V = "/verif"
sid, deps = sys.argv[1], sys.argv[2:] or ["runner", "sdk"]
d = f"{V}/seeded/{sid}"
out = tarfile.open(f"{d}/kit.tgz", "w:gz")
def add(name, data, mode=0o644):
    t = tarfile.TarInfo(name); t.size = len(data); t.mode = mode; t.mtime = 0
    out.addfile(t, io.BytesIO(data))
need = set(deps)
guest = "guest" in need
need -= {"guest"}
if guest: need |= {"cli"}
if "cli" in need: need |= {"runner"}
if need & {"node"}: need |= {"recproofs"}
if need & {"runner", "recproofs", "node"}: need |= {"sdk"}
for root, dirs, files in os.walk(f"{V}/shims"):
    dirs[:] = [x for x in dirs if x != "target"]
    for f in sorted(files):
        p = os.path.join(root, f)
        if f.endswith((".rs", ".toml")): add("shims/" + os.path.relpath(p, f"{V}/shims"), open(p, "rb").read())
for c in sorted(need):
    for root, dirs, files in os.walk(f"{V}/crates/{c}"):
        for f in files:
            p = os.path.join(root, f)
            add("crates/" + os.path.relpath(p, f"{V}/crates"), open(p, "rb").read())
if guest:
    for root, dirs, files in os.walk(f"{V}/guest"):
        dirs[:] = [x for x in dirs if x != "target"]
        for f in files:
            p = os.path.join(root, f)
            add("guest/" + os.path.relpath(p, f"{V}/guest"), open(p, "rb").read())
ws = open(f"{V}/crates/Cargo.toml").read().split("\n")
ws = [l for l in ws if not l.startswith("members")]
ws.insert(1, "members = [" + ", ".join(f'"{c}"' for c in sorted(need) + ["demo"]) + "]")
txt = "\n".join(ws).split("[profile.dev.package.mozak-runner]")[0]
add("crates/Cargo.toml", txt.encode())
for f in ("Cargo.lock", "rust-toolchain.toml", ".cargo/config.toml"):
    add("crates/" + f, open(f"{V}/crates/{f}", "rb").read())
extra = {"sdk": 'mozak-sdk = { path = "../sdk" }', "runner": 'mozak-runner = { path = "../runner" }',
         "cli": 'mozak-cli = { path = "../cli" }', "node": 'mozak-node = { path = "../node" }', "recproofs": 'mozak-recproofs = { path = "../recproofs" }'}
add("crates/demo/Cargo.toml", ("""[package]
edition = "2021"
name = "demo"
version = "0.1.0"

[dependencies]
im = "15.1"
itertools = "0.13"
serde_json = "1.0"
serde = "1.0"
rkyv = { version = "=0.8.0-alpha.1", default-features = false, features = ["pointer_width_32", "alloc", "bytecheck"] }
plonky2 = { path = "../../shims/plonky2" }
""" + "\n".join(extra[x] for x in sorted(need)) + "\n").encode())
names = sorted(os.listdir(f"{V}/vendor"))
add("crates.txt", "\n".join(names).encode())
add("unpack.py", open(f"{V}/tools/kit/unpack.py", "rb").read())
out.close()
subprocess.run(["cp", f"{V}/tools/kit/demo.sh", f"{d}/demo.sh"], check=True)
