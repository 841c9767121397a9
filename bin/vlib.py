"""Shared machinery of the checks: build the drivers from /repo's tree, run
them, let TLC judge the recorded traces, write evidence, report violations."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATES = os.path.join(V, "crates")
SPEC = os.path.join(V, "spec")
WORK = os.path.join(V, "work")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def repo_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".json", ".ld")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTC", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["RUST_BACKTRACE"] = "0"
    return e


def build(*pkgs):
    """Build driver packages from the current tree of /repo.  Cargo decides what is
    stale by modification time, so a content hash guards against restored
    timestamps."""
    target = os.path.join(CRATES, "target")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo-digest")
    d = repo_digest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != d:
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(("mozak-", "drv-")):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--locked"] + [x for p in pkgs for x in ("-p", p)]
    r = sh(cmd, cwd=CRATES, env=env(), timeout=850)
    if r.returncode != 0:
        errs = [l for l in r.stdout.splitlines() if l.startswith("error") or " --> " in l]
        raise ToolError("build failed:\n" + "\n".join(errs[:40]) + "\n" + r.stdout[-1500:])
    with open(stamp, "w") as f:
        f.write(d)


def build_guest():
    """The scripted guest, built from the current tree; returns its ELF."""
    g = os.path.join(V, "guest")
    target = os.path.join(g, "target")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo-digest")
    d = repo_digest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != d:
        for p in ("riscv32im-mozak-mozakvm-elf/release/.fingerprint",):
            fp = os.path.join(target, p)
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith(("mozak-", "guest-")):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    e = env()
    e["RUST_TARGET_PATH"] = os.path.join(REPO, ".cargo")
    cmd = ["cargo", "build", "--locked", "--offline", "--release", "--target", "riscv32im-mozak-mozakvm-elf",
           "-Zbuild-std=alloc,core,compiler_builtins,std,panic_abort,proc_macro", "-Zbuild-std-features=compiler-builtins-mem", "-p", "guest"]
    r = sh(cmd, cwd=g, env=e, timeout=850)
    if r.returncode != 0:
        raise ToolError("guest build failed:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(d)
    return os.path.join(target, "riscv32im-mozak-mozakvm-elf", "release", "guest")


def drv_shards(pkg, shards, argv, timeout=700):
    """argv(s): arguments of the process for shard s"""
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(drv, pkg, *argv(s), timeout=timeout) for s in range(shards)]:
            f.result()


def drv(pkg, *args, timeout=400, extra_env=None, pid=None):
    """Run a driver.  The drivers catch panics of the code under test, so an abnormal
    end (abort, stack overflow, a panic that escapes, no end at all) is the doing of
    that code: it is reported as a violation of the property being checked."""
    e = env()
    e["VERIF_SEED"] = str(SEED)
    if extra_env:
        e.update(extra_env)
    p = os.path.join(CRATES, "target", "debug", pkg)
    os.makedirs(WORK, exist_ok=True)
    log = os.path.join(WORK, f"{pkg}-{os.getpid()}-{time.time_ns()}.stderr")
    with open(log, "w") as fh:
        try:
            r = subprocess.run([p, *map(str, args)], text=True, stdout=subprocess.PIPE, stderr=fh, env=e, timeout=timeout)
            how = f"ended abnormally (status {r.returncode})"
        except subprocess.TimeoutExpired:
            r, how = None, f"did not end within {timeout} s"
    if r is not None and r.returncode == 0:
        os.remove(log)
        return r.stdout
    with open(log) as fh:
        tail = fh.read()[-1500:]
    if r is not None and r.returncode == 3:
        raise ToolError(f"driver {pkg} {args} failed: {tail}")
    raise Violation(f"the code under test, driven by {pkg} {' '.join(map(str, args))}, {how}: {tail[-400:]}", log)


class Tlc:
    """Result of one TLC run."""
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is ([\d,]+)", out)
        self.depth = int(m.group(1).replace(",", "")) if m else self.distinct
        self.ok = "Model checking completed. No error has been found." in out
        self.reject = None
        if not self.ok:
            if "OutOfMemory" in out or "Out of memory" in out:
                raise ToolError("TLC ran out of memory")
            m = re.search(r"Invariant (\S+) is violated", out)
            if m:
                self.reject = f"invariant {m.group(1)} violated"
            elif re.search(r"Postcondition \S+ .*is false|Postcondition .* is false|Error: Postcondition", out):
                self.reject = "no specified transition explains the next recorded event"
            elif "Action property" in out and "is violated" in out:
                self.reject = "action property violated: " + re.search(r"Action property (.*?) is violated", out).group(1)
            elif "Assumption" in out and "is false" in out:
                self.reject = "assumption is false"
            elif "The behavior up to this point is" in out:
                self.reject = "recorded value outside the specification's domain"


def tlc(module, cfg=None, extra_env=None, workers=1, tag="", timeout=800, xmx="3g", args=()):
    e = env()
    if extra_env:
        e.update({k: str(v) for k, v in extra_env.items()})
    meta = os.path.join(WORK, "meta", f"{module}-{tag}-{os.getpid()}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", "-XX:ParallelGCThreads=2" if workers == 1 else "-XX:ParallelGCThreads=8",
           "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(r.stdout, r.returncode)


class Check:
    """One property's check: collects coverage, reports, writes evidence."""
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.dir = os.path.join(WORK, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.cov, self.assume = [], {}, []
        self.known_hit, self.known_seen, self.per_file = [], set(), {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, n):
        return os.path.join(self.dir, n)

    def design(self, module, cfg=None, workers=8, timeout=800, xmx="8g", extra_env=None, args=()):
        """Exhaustive TLC run over the specification itself."""
        r = tlc(module, cfg, workers=workers, tag=self.pid, timeout=timeout, xmx=xmx, extra_env=extra_env, args=args)
        if not r.ok:
            raise ToolError(f"specification {cfg or module} does not satisfy its own properties: {r.out[-3000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("design_models", []).append({"module": module, "cfg": cfg or module, "distinct_states": r.distinct, "depth": r.depth})
        return r

    def terms_of(self, f, flags=None):
        """The digests of trace `f` are explained in `f`.terms."""
        self.per_file[f] = {"TERMS": f + ".terms", **(flags or {})}

    def traces_ok(self, module, files, cfg=None, extra_env=None, first_line=0, per=8, timeout=800, xmx="3g"):
        """Validate recorded traces (one file per TLC process).  `first_line`: index
        of the trace line consumed by the first transition."""
        def one(f):
            en = {"TRACE": f}
            en.update(extra_env or {})
            en.update(self.per_file.get(f, {}))
            return f, tlc(module, cfg, extra_env=en, tag=self.pid + os.path.basename(f), timeout=timeout, xmx=xmx)
        with ThreadPoolExecutor(per) as ex:
            res = list(ex.map(one, files))
        for f, r in res:
            self.known_seen.update(x for l in re.findall(r'"KNOWN \{(.*?)\}', r.out) for x in re.findall(r'[a-z-]+', l))
            self.states += r.distinct
            self.transitions += r.generated
            if r.ok:
                continue
            if r.reject is None:
                raise ToolError(f"TLC failed on {module} {f}: {r.out[-2500:]}")
            self.reject(module, cfg, f, r, first_line, extra_env)

    def reject(self, module, cfg, f, r, first_line, extra_env):
        extra_env = {**(extra_env or {}), **self.per_file.get(f, {})}
        lines = open(f).read().splitlines()
        k = first_line + r.distinct - 1          # 0-based index of the line that was not accepted
        if r.reject.startswith(("invariant", "action")):
            k -= 1
        k = max(0, min(k, len(lines) - 1))
        start = k
        while start > first_line and '"ev":"boot"' not in lines[start] and '"ev":"begin"' not in lines[start] and k - start < 400:
            start -= 1
        keep = os.path.join(self.dir, "replay-" + os.path.basename(f))
        rep = {"property": self.pid, "module": module, "cfg": cfg or module, "trace": f, "line": k + 1, "why": r.reject,
               "env": extra_env or {}, "seed": SEED, "tier": self.tier,
               "event": json.loads(lines[k]), "context": [json.loads(x) for x in lines[start:k]][-60:],
               "how": f"cd {SPEC} && TRACE={f} " + " ".join(f"{a}={b}" for a, b in (extra_env or {}).items())
                      + f" tlc -config {(cfg or module)}.cfg {module}.tla"}
        with open(keep + ".json", "w") as fh:
            json.dump(rep, fh, indent=1)
        raise Violation(f"{r.reject} (line {k + 1} of {f}): {lines[k][:300]}", keep + ".json")

    def violation(self, what, obj):
        p = self.path("replay.json")
        with open(p, "w") as fh:
            json.dump({"property": self.pid, "why": what, "seed": SEED, "tier": self.tier, "case": obj}, fh, indent=1)
        raise Violation(what, p)

    def sample_lines(self, f, pred=None, n=2):
        with open(f) as fh:
            for line in fh:
                if len(line) < 1500 and (pred is None or pred(line)):
                    self.samples.append(json.loads(line))
                    n -= 1
                    if n <= 0:
                        return

    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6]}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)


def known_findings(pid):
    p = os.path.join(V, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == pid]


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check.py <property> [quick|thorough]")
        sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    try:
        checks[pid](c)
    except Violation as v:
        c.samples.append({"violation": v.what[:600]})
        c.evidence(1)
        print(v.what)
        print(f"VIOLATION property={pid} replay={v.replay}")
        sys.exit(1)
    except (ToolError, subprocess.TimeoutExpired, OSError) as e:
        print(f"ERROR {pid}: {e}")
        sys.exit(2)
    for k in c.known_hit:
        print(f"KNOWN-FINDING: property={pid} {k}")
    c.evidence(0)
    print(f"ok {pid} {tier}: {c.states} states, {c.transitions} transitions, {c.traces} traces validated, {time.time() - c.t0:.1f}s")
    sys.exit(0)
