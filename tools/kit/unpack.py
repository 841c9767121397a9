#!/usr/bin/env python3
"""Unpack the registry crates named in crates.txt from the local cargo caches into
OUT as a cargo directory source."""
import glob, hashlib, json, os, shutil, sys, tarfile
out = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
pats = [os.path.join(h, "registry/cache/*/") for h in (home, "/root/.cargo", "/usr/local/cargo")]
for name in open(os.path.join(here, "crates.txt")).read().split():
    path = next(f for p in pats for f in glob.glob(p + name + ".crate"))
    tarfile.open(path).extractall(out)
    dst = os.path.join(out, name)
    if name.startswith(("windows", "wasi-")):
        for d in ("src", "lib"):
            shutil.rmtree(os.path.join(dst, d), ignore_errors=True)
        os.makedirs(os.path.join(dst, "src"), exist_ok=True)
        open(os.path.join(dst, "src/lib.rs"), "w").close()
    h = hashlib.sha256(open(path, "rb").read()).hexdigest()
    json.dump({"files": {}, "package": h}, open(os.path.join(dst, ".cargo-checksum.json"), "w"))
