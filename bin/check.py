#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough] -- see DESIGN.md"""
import json, os, re, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import SEED, Check, build, build_guest, drv, drv_shards, known_findings, main

CHECKS = {}


def prop(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


# ------------------------------------------------------------ instruction set
@prop("D01")
def decode(c: Check):
    build("drv-runner")
    table = c.path("table.json")
    c.design("DecodeTable", extra_env={"OUT": table})
    out = c.path("sweep.json")
    # all 2^32 words, the program counter varying from word to word
    for k in range(3 if c.thorough else 1):
        drv("drv-runner", "decode-sweep", table, out, 1, timeout=800, extra_env={"VERIF_SEED": str(SEED + 1000 * k)})
        r = json.load(open(out))
        c.cov.update(words_compared=r["words"], words_that_are_instructions=r["instructions"], exhaustive=True)
        if r["bad"]:
            c.violation("a word decodes differently from the specification's table", r["bad"])
    n = 12000 if c.thorough else 4000
    files = []
    for s in range(8):
        f = c.path(f"sample.{s}")
        drv("drv-runner", "decode-sample", f, n, extra_env={"VERIF_SEED": str(SEED * 8 + s)})
        files.append(f)
    c.traces_ok("DecodeTrace", files)
    c.traces += 8 * n
    c.sample_lines(files[0], n=3)


def vm(c, focus, cases, design="VMDesign", shards=8):
    build("drv-runner")
    c.design(design.removesuffix("Deep"), design)
    st = json.loads(drv("drv-runner", "vm", focus, c.path("trace"), cases, shards))
    c.cov["recorded"] = st
    c.traces_ok("VMTrace", [c.path(f"trace.{s}") for s in range(shards)], extra_env={"FOCUS": focus}, first_line=1)
    c.traces += cases
    c.sample_lines(c.path("trace.0"), lambda l: '"ev":"step"' in l, 2)
    c.assume.append("Poseidon2 is modelled as an uninterpreted function tabulated from the permutation; field arithmetic comes from /verif/shims/plonky2")


def deep(c):
    return "VMDesign"


@prop("V01")
def alu(c):
    vm(c, "alu", 6000 if c.thorough else 1100)


@prop("V02")
def flow(c):
    vm(c, "flow", 8000 if c.thorough else 1200)


@prop("M01")
def mem(c):
    vm(c, "mem", 8000 if c.thorough else 1200)


@prop("M02")
def protect(c):
    vm(c, "protect", 10000 if c.thorough else 2000)


@prop("E01")
def tape(c):
    vm(c, "tape", 6000 if c.thorough else 900)


@prop("E02")
def hashes(c):
    vm(c, "hash", 4000 if c.thorough else 600)


@prop("E03")
def ecall(c):
    vm(c, "ecall", 6000 if c.thorough else 900)


@prop("R01")
def record(c):
    vm(c, "record", 6000 if c.thorough else 1200)


# ------------------------------------------------------- from file to program
@prop("L01")
def load(c: Check):
    build("drv-runner")
    c.design("LoaderDesign")
    n = 40000 if c.thorough else 4800
    drv("drv-runner", "loader", c.path("load"), n, 8)
    files = [c.path(f"load.{s}") for s in range(8)]
    c.traces_ok("LoaderTrace", files)
    c.traces += n
    c.sample_lines(files[0], lambda l: '"ev":"words"' in l, 2)
    c.assume.append("the header and program-header parsing of the `elf` crate is /verif/shims/elf; loadable segments do not overlap and end within the address space")


# ----------------------------------------------------------------- native SDK
def sdk(c, kind, n, design, shards=8):
    build("drv-sdk")
    c.design(design.removesuffix("Deep"), design)
    drv("drv-sdk", kind, c.path(kind), n, shards)
    files = [c.path(f"{kind}.{s}") for s in range(shards)]
    c.traces_ok("SdkTrace", files)
    c.traces += n
    c.sample_lines(files[0], lambda l: '"ev":"begin"' not in l, 3)


@prop("S01")
def scripts(c):
    sdk(c, "scripts", 4000 if c.thorough else 500, "SdkDesignDeep" if c.thorough else "SdkDesign")


@prop("S02")
def events(c):
    sdk(c, "events", 12000 if c.thorough else 1600, "SdkDesign")


@prop("S03")
def merkle(c):
    sdk(c, "merkle", 20000 if c.thorough else 3000, "TreeDesign")


# ------------------------------------------------- programs on the command line
@prop("C01")
def handed(c: Check):
    build("drv-guest")
    c.design("SdkDesign", "SdkDesignDeep" if c.thorough else "SdkDesign")
    n = 6000 if c.thorough else 800
    drv_shards("drv-guest", 8, lambda s: ("stories", "-", c.path("stories"), n, s, 8))
    files = [c.path(f"stories.{s}") for s in range(8)]
    c.traces_ok("SdkTrace", files)
    c.traces += n
    c.sample_lines(files[0], lambda l: '"ev":"begin"' not in l, 3)


def guest(c, focus, made_up, stories):
    build("drv-guest")
    elf = build_guest()
    c.design("GuestDesign", "GuestDesignDeep" if c.thorough else "GuestDesign")
    drv_shards("drv-guest", 8, lambda s: ("madeup", elf, c.path("madeup"), made_up, s, 8, focus))
    drv_shards("drv-guest", 8, lambda s: ("stories", elf, c.path("stories"), stories, s, 8))
    files = [c.path(f"{k}.{s}") for s in range(8) for k in ("madeup", "stories-guest")]
    c.traces_ok("GuestTrace", files)
    runs = [l for f in files for l in open(f) if '"ev":"stop"' in l]
    c.traces += len(runs)
    c.cov["guest_runs"] = {h: sum(f'"how":"{h}"' in l for l in runs) for h in ("halt", "abort")}
    c.sample_lines(files[0], lambda l: '"ev":"op"' in l, 3)
    c.assume.append("the guest program is one fixed interpreter of random scripts, compiled for the virtual machine from /repo's SDK")


@prop("G01")
def guest_calls(c):
    guest(c, "calls", 6000 if c.thorough else 1600, 600 if c.thorough else 40)


@prop("G02")
def guest_events(c):
    guest(c, "events", 6000 if c.thorough else 1600, 600 if c.thorough else 40)


@prop("S04")
def guest_inputs(c):
    guest(c, "inputs", 6000 if c.thorough else 1000, 600 if c.thorough else 40)


@prop("H01")
def guest_heap(c):
    build("drv-guest")
    elf = build_guest()
    c.design("HeapDesign", "HeapDesign")
    sessions = 1600 if c.thorough else 320
    drv_shards("drv-guest", 8, lambda s: ("heap", elf, c.path("heap"), sessions, s, 8))
    files = [c.path(f"heap.{s}") for s in range(8)]
    c.traces_ok("HeapTrace", files)
    c.traces += sessions
    lines = [json.loads(l) for f in files for l in open(f)]
    asks = [l for l in lines if l["ev"] == "ask"]
    c.cov["requests"] = {k: sum(l["op"]["k"] == k for l in asks) for k in ("give", "clear", "resize", "free")}
    c.cov["refused"] = sum(l["op"]["k"] != "free" and l["at"] == [0, 0] for l in asks)
    c.sample_lines(files[0], lambda l: '"ev":"ask"' in l, 3)
    c.assume.append("what a guest writes near its stack is not checked: the allocator knows no bound of the stack")


# ------------------------------------------------------ the constraint system
def air(c, focuses, cases, tries):
    build("drv-circuits")
    known = known_findings(c.pid)
    files = []
    for f in focuses:
        st = json.loads(drv("drv-circuits", "air", f, c.path(f), cases, tries, SEED, 8, timeout=800,
                            extra_env={"AIR_KNOWN": ",".join(k["gap"] for k in known)}))
        c.cov.setdefault("recorded", {})[f] = st["stat"]
        if tries:
            c.cov.setdefault("rules_that_alone_refused_an_attack", {})[f] = st["sole"]
        files += [c.path(f"{f}.{s}") for s in range(8)]
        c.traces += sum(st["stat"].get(k, 0) for k in ("honest-accepted", "honest-refused", "attack-accepted"))
    c.traces_ok("AirTrace", files, first_line=1)
    for k in known:
        if k["gap"] in c.known_seen:
            c.known_hit.append(f'{k["gap"]}: {k["what"]}')
    c.sample_lines(files[0], lambda l: '"ev":"row"' in l, 2)
    c.sample_lines(files[0], lambda l: '"ev":"verdict"' in l, 1)
    c.assume.append("a set of tables is accepted exactly if every row constraint, every cross-table lookup and every public sub-table holds; FRI and the challenges are not modelled")
    c.assume.append("the adversary searches, it does not prove: a forgery it does not think of is not found")


@prop("A01")
def air_complete(c):
    air(c, ["alu", "flow", "mem", "tape", "gap"], 3000 if c.thorough else 320, 0)


@prop("A02")
def air_alu(c):
    air(c, ["alu"], 600 if c.thorough else 96, 700 if c.thorough else 100)


@prop("A03")
def air_flow(c):
    air(c, ["flow"], 1200 if c.thorough else 160, 700 if c.thorough else 100)


@prop("A04")
def air_mem(c):
    air(c, ["mem"], 800 if c.thorough else 112, 700 if c.thorough else 100)


@prop("A05")
def air_tape(c):
    air(c, ["tape"], 400 if c.thorough else 64, 600 if c.thorough else 100)


# ----------------------------------------------------------- machine proofs
@prop("A06")
def machine_proofs(c: Check):
    build("drv-proof")
    c.design("MachineProofDesign")
    n, per = (160, 200) if c.thorough else (48, 44)
    drv_shards("drv-proof", 8, lambda s: ("proof", c.path("proof"), n, 8, s, per))
    files = [c.path(f"proof.{s}") for s in range(8)]
    c.traces_ok("MachineProofTrace", files, first_line=1)
    c.cov["judged"] = dict(Counter(re.match(r'.*?"ev":"([a-z]+)"', l).group(1) for f in files for l in open(f) if '"ev":"' in l))
    c.traces += sum(c.cov["judged"].get(k, 0) for k in ("honest", "alter", "forge", "draws"))
    c.sample_lines(files[0], lambda l: '"ev":"alter"' in l or '"ev":"forge"' in l, 4)
    c.assume.append("FRI and PLONK proofs are replaced by stand-ins that open commitments exactly (/verif/shims/plonky2); Poseidon is modelled as collision-free")


@prop("I01")
def identity(c: Check):
    build("drv-proof")
    c.design("IdentityDesign")
    n = 4000 if c.thorough else 640
    drv_shards("drv-proof", 8, lambda s: ("ident", c.path("ident"), n, 8, s, 12))
    files = [c.path(f"ident.{s}") for s in range(8)]
    c.traces_ok("IdentityTrace", files)
    c.traces += n
    c.cov["programs_identified"] = sum(1 for f in files for l in open(f) if '"program"' in l)
    c.sample_lines(files[0], lambda l: '"ev":"program"' in l, 2)
    c.assume.append("Poseidon is modelled as collision-free; programs of up to 40 bytes in each image")


# ------------------------------------------------------------------- the node
def known_hits(c):
    for k in known_findings(c.pid):
        if k["gap"] in c.known_seen:
            c.known_hit.append(f'{k["gap"]}: {k["what"]}')


def node(c, kind, n, module, *more):
    build("drv-node")
    drv_shards("drv-node", 8, lambda s: (kind, c.path(kind), n, 8, s, *more))
    flags = {"KNOWN_" + k["gap"].upper().replace("-", "_"): "1" for k in known_findings(c.pid)}
    for f in [c.path(f"{kind}.{s}") for s in range(8)]:
        c.terms_of(f, flags)
    c.traces_ok(module, [c.path(f"{kind}.{s}") for s in range(8)])
    c.traces += n
    known_hits(c)
    c.sample_lines(c.path(f"{kind}.0"), n=4)
    c.assume.append("Poseidon2 is modelled as collision-free; a circuit's proof is replaced by an evaluation of the circuit (/verif/shims/plonky2)")


@prop("N01")
def node_addresses(c: Check):
    build("drv-node")
    c.design("TreeDesign")
    c.design("NodeAddrDesign")
    n = 160000 if c.thorough else 24000
    drv("drv-node", "addr", c.path("addr"), n, 8)
    c.traces_ok("NodeAddrTrace", [c.path(f"addr.{s}") for s in range(8)])
    c.traces += n
    c.sample_lines(c.path("addr.0"), n=4)


@prop("N02")
def node_state(c: Check):
    c.design("NodeStateDesign")
    node(c, "state", 24000 if c.thorough else 3200, "NodeStateTrace")


@prop("N03")
def node_transactions(c: Check):
    c.design("NodeTxDesign")
    node(c, "tx", 16000 if c.thorough else 3200, "NodeTxTrace")


@prop("N04")
def node_blocks(c: Check):
    c.design("NodeBlockDesign")
    node(c, "block", 16000 if c.thorough else 3200, "NodeBlockTrace")


# ------------------------------------------------------ the circuits of the node
def proofs(c, n, kinds):
    c.design("RecursionDesign")
    node(c, "proofs", n, "ProofTrace", kinds)
    facts = [json.loads(l) for s in range(8) for l in open(c.path(f"proofs.{s}")) if '"fact"' in l[:4000]]
    c.cov["claims_judged"] = len(facts)
    c.cov["of_a_dishonest_prover"] = sum(1 for f in facts if f.get("how"))
    c.assume.append("the dishonest prover searches; a forgery it does not think of is not found. Fiat-Shamir and FRI are not modelled")


@prop("P01")
def match_proofs(c: Check):
    c.design("ProofsDesign", "ProofsDesign_acc" if c.thorough else "ProofsDesign_quick", timeout=3000)
    c.design("ProofsDesign", "ProofsDesign_match")
    proofs(c, 24000 if c.thorough else 3200, "acc,ma")


@prop("P02")
def transaction_proofs(c: Check):
    c.design("ProofsDesign", "ProofsDesign_merge")
    proofs(c, 16000 if c.thorough else 3200, "ev,mg,pr,tx")


@prop("P03")
def block_proofs(c: Check):
    proofs(c, 16000 if c.thorough else 3200, "st,block")


if __name__ == "__main__":
    main(CHECKS)
