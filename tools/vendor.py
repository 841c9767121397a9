#!/usr/bin/env python3
"""One-time helper: unpack the .crate files this project needs from the two
registry caches of the sandbox into /verif/vendor (a cargo directory source)."""
import hashlib, json, os, shutil, subprocess, sys, tarfile
A = os.path.expanduser('~/.cargo/registry/cache/index.crates.io-6f17d22bba15001f')
B = os.path.expanduser('~/.cargo/registry/cache/index.crates.io-1949cf8c6b5b557f')
OUT = '/verif/vendor'
SKIP_A = ()
FROM_B = sys.argv[1:]
def unpack(path):
    name = os.path.basename(path)[:-6]
    dst = os.path.join(OUT, name)
    if os.path.exists(dst): return
    tarfile.open(path).extractall(OUT)
    for junk in ('tests', 'benches', 'examples', 'test', 'bench', 'ci', '.github', 'docs', 'images', 'proptest-regressions'):
        j = os.path.join(dst, junk)
        if os.path.isdir(j) and name.split('-')[0] not in ('x',): shutil.rmtree(j)
    stub = name.startswith('windows') or name.startswith('wasi-')
    if stub:
        for d in ('src', 'lib'):
            shutil.rmtree(os.path.join(dst, d), ignore_errors=True)
        os.makedirs(os.path.join(dst, 'src'), exist_ok=True)
        open(os.path.join(dst, 'src/lib.rs'), 'w').close()
    gi = os.path.join(dst, '.gitignore')
    if os.path.exists(gi): os.remove(gi)
    h = hashlib.sha256(open(path, 'rb').read()).hexdigest()
    json.dump({'files': {}, 'package': h}, open(os.path.join(dst, '.cargo-checksum.json'), 'w'))
for f in []:
    if f.endswith('.crate'): unpack(os.path.join(A, f))
for n in FROM_B:
    unpack(next(os.path.join(c, n + '.crate') for c in (A, B) if os.path.exists(os.path.join(c, n + '.crate'))))
