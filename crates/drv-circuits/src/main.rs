//! Asks the real arithmetisation which executions it accepts.
#![allow(dead_code)]
#[path = "../../drv-runner/src/decode.rs"]
mod decode;
#[path = "../../drv-runner/src/exec.rs"]
mod exec;
mod attack;
mod designs;
mod gens;
mod walk;
use drv_util as util;
use exec::*;
use mozak_circuits::air::{self, *};
use mozak_runner::instruction::Op;
use mozak_runner::state::State;
use mozak_runner::vm::{step, ExecutionRecord};
use util::{guard, w, word, Rng, CORNERS};

fn main() { drv_util::run(real_main) }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a[1].as_str() {
        "try" => try_honest(a[2].parse().unwrap(), seed),
        "air" => air(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap()),
        "explain" => explain(a[2].parse().unwrap(), a[3].parse().unwrap(), seed),
        x => panic!("unknown subcommand {x}"),
    }
}
pub fn run_case(c: &Case) -> Option<(mozak_runner::elf::Program, ExecutionRecord<F>)> {
    let program = program_of(c);
    let mut s: State<F> = State::new(program.clone(), raw_tapes(c));
    for (i, v) in &c.regs { s = s.set_register_value(*i, *v); }
    // executions that do not halt have no proof
    let mut probe = s.clone();
    for _ in 0..c.limit {
        if probe.has_halted() { break }
        match guard(|| probe.clone().execute_instruction(&program)) { Ok(Ok((_, _, n))) => probe = n, _ => return None }
    }
    if !probe.has_halted() { return None }
    guard(|| step(&program, s)).ok()?.ok().map(|r| (program, r))
}
fn gen(kind: u64, k: usize, r: &mut Rng) -> Case {
    match kind {
        0 => { let n = CORNERS.len(); let j = k % (n * n); pair_case(CORNERS[j / n], CORNERS[j % n], r) }
        1 => pair_case(word(r), word(r), r),
        2 => ins_case(r),
        3 => raw_case(r, true),
        4 => mem_case(r),
        5 => selfmod_case(r),
        6 => ecall_case(r, 0),
        _ => ecall_case(r, 1),
    }
}
fn try_honest(n: usize, seed: u64) {
    let sys = Sys::default();
    for kind in 0..8 {
        let (mut ok, mut bad, mut none) = (0, 0, 0);
        let t0 = std::time::Instant::now();
        let mut names = std::collections::BTreeMap::<String, usize>::new();
        for k in 0..n {
            let mut r = Rng::new(seed * 1000 + k as u64 * 8 + kind);
            let c = gen(kind, k, &mut r);
            let Some((p, rec)) = run_case(&c) else { none += 1; continue };
            match guard(|| traces_of(&p, &rec)) {
                Err(e) => { bad += 1; *names.entry(format!("panic {e}")).or_default() += 1; }
                Ok(t) => {
                    let v = sys.violations(&t, F::from_canonical_u32(c.pc), &Dirty::all(), 100);
                    if v.is_empty() { ok += 1 } else { bad += 1; for x in v { *names.entry(sys.name(x)).or_default() += 1; } }
                    let cl = claim(&sys, &t);
                    for b in cl.bad { *names.entry(b).or_default() += 1; }
                }
            }
        }
        println!("kind {kind}: ok {ok} bad {bad} none {none} {:?} {names:?}", t0.elapsed());
    }
}
fn explain(kind: u64, n: usize, seed: u64) {
    use mozak_circuits::stark::mozak_stark::TableKind;
    let sys = Sys::default();
    let mut seen = std::collections::BTreeSet::new();
    for k in 0..n {
        let mut r = Rng::new(seed * 1000 + k as u64 * 8 + kind);
        let c = gen(kind, k, &mut r);
        let Some((p, rec)) = run_case(&c) else { continue };
        match guard(|| traces_of(&p, &rec)) {
            Err(e) => println!("{k}: panic {e} {}", drv_util::last_panic()),
            Ok(t) => {
                for kd in kinds() { for r in 0..height(&t, kd) {
                    let v = sys.row_violations(kd, &t, r, F::from_canonical_u32(c.pc));
                    if v.is_empty() { continue }
                    let clk = if let TableKind::Cpu = kd { get(&t, kd, r, 0).to_canonical_u64() } else { 0 };
                    let ins = rec.executed.iter().find(|x| x.state.clk == clk).map(|x| format!("{:?} op1={:x} op2={:x} raw={:x} newpc={:x}", x.instruction, x.aux.op1, x.aux.op2, x.aux.op2_raw, x.aux.new_pc));
                    let key = format!("{kd:?}{v:?}{:?}", ins.as_ref().map(|s| s[0..30].to_string()));
                    if seen.insert(key) { println!("{k}: {kd:?}#{v:?} row {r} {ins:?}"); }
                } }
                for i in 0..sys.ctl_kinds.len() { if !sys.ctl_ok(i, &t) && seen.insert(format!("{i}")) { println!("{k}: {}", sys.name(Viol::Ctl(i))) } }
            }
        }
    }
}

// ------------------------------------------------------------ claims for the specification
use serde_json::{json, Value};
use std::collections::BTreeMap;
fn fw(v: F) -> Option<Value> { u32::try_from(v.to_canonical_u64()).ok().map(w) }
fn fb(v: F) -> Option<u8> { u8::try_from(v.to_canonical_u64()).ok() }
fn pairs(m: &[(F, F)]) -> Option<Value> { m.iter().map(|(a, b)| Some(json!([fw(*a)?, fb(*b)?]))).collect::<Option<Vec<_>>>().map(Value::from) }
const TAPES: [&str; 7] = ["private", "public", "call", "event", "events_commitment", "cast_list_commitment", "self_prog_id"];
fn row_json(s: &Step) -> Option<Value> {
    let dev = s.dev.iter().map(|(i, d)| Some(json!({"tape": TAPES[*i], "data": d.iter().map(|x| fb(*x)).collect::<Option<Vec<_>>>()?}))).collect::<Option<Vec<_>>>()?;
    Some(json!({"ev": "row", "pc": fw(s.pc)?, "new_pc": fw(s.new_pc)?, "op1": fw(s.op1)?, "op2": fw(s.op2)?, "dst": if s.rd == F::ZERO { fw(s.dst).unwrap_or_else(|| w(0)) } else { fw(s.dst)? }, "rd": s.rd.to_canonical_u64() % 64,
        "halt": s.halt == F::ONE, "reads": pairs(&s.reads)?, "writes": pairs(&s.writes)?, "dev": dev}))
}
fn boot_json(c: &Case, regs: &[u32; 32], tapes: &BTreeMap<&'static str, Vec<u8>>) -> Value {
    let code: Vec<Value> = match &c.text {
        exec::Text::Words(m) => m.iter().map(|(a, x)| json!([w(*a), {"word": w(*x)}])).collect(),
        exec::Text::Ins(m) => m.iter().map(|(a, x)| json!([w(*a), decode::ins_json(x)])).collect(),
    };
    json!({"ev": "boot", "code": code, "pc": w(c.pc), "regs": regs.iter().map(|x| w(*x)).collect::<Vec<_>>(),
        "rw": c.rw.iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>(), "ro": c.ro.iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>(), "tapes": tapes})
}
/// What an accepted set of tables claims: the inputs are whatever it says was read.
fn claim_lines(c: &Case, cl: &Claim, honest: bool, how: &str) -> Vec<Value> {
    let mut tapes: BTreeMap<&'static str, Vec<u8>> = TAPES.iter().map(|t| (*t, vec![])).collect();
    let mut regs = [0u32; 32];
    let mut bad: Vec<String> = cl.bad.clone();
    if honest {
        for i in 0..4 { tapes.insert(TAPES[i], c.tapes[i].clone()); }
        for i in 0..3 { tapes.insert(TAPES[4 + i], c.fixed[i].to_vec()); }
        for (i, v) in &c.regs { if *i != 0 { regs[*i as usize] = *v } }
    } else {
        for s in &cl.steps { for (i, d) in &s.dev {
            let Some(d) = d.iter().map(|x| fb(*x)).collect::<Option<Vec<u8>>>() else { bad.push("tape byte".into()); continue };
            if *i < 4 { tapes.get_mut(TAPES[*i]).unwrap().extend(d) } else if d.len() > tapes[TAPES[*i]].len() { tapes.insert(TAPES[*i], d); }
        } }
        for (i, p) in cl.publics.iter().enumerate() {
            // what is published for a tape that is not read means nothing
            if !cl.steps.iter().any(|s| s.dev.iter().any(|d| d.0 == 4 + i)) { continue }
            if let Some(b) = p.iter().map(|x| fb(*x)).collect::<Option<Vec<u8>>>() { tapes.insert(TAPES[4 + i], b); } else { bad.push("public value".into()) }
        }
        for t in &TAPES[4..] { tapes.get_mut(t).unwrap().resize(32, 0) }
        // a register that is never read may start as anything
        for (i, v) in cl.regs.iter().enumerate() { if let Ok(x) = u32::try_from(v.to_canonical_u64()) { regs[i] = x } }
    }
    let mut out = vec![boot_json(c, &regs, &tapes)];
    let rows: Vec<Option<Value>> = cl.steps.iter().map(row_json).collect();
    if !honest && rows.iter().any(Option::is_none) && cl.regs.iter().any(|v| fw(*v).is_none()) {
        // an initial register that is no machine word, and is read
        return vec![json!({"ev": "wide"}), json!({"ev": "verdict", "accepted": true, "honest": false, "how": how})];
    }
    if honest {
        for i in 0..2 { if cl.publics[i].iter().map(|x| x.to_canonical_u64()).ne(c.fixed[i].iter().map(|x| u64::from(*x))) && cl.steps.iter().any(|s| s.dev.iter().any(|d| d.0 == 4 + i)) { bad.push("published commitment".into()) } }
    }
    for (s, j) in cl.steps.iter().zip(rows) { out.push(j.unwrap_or_else(|| json!({"ev": "bad", "why": "a value that is no machine word", "clk": s.clk}))); }
    for b in bad { out.push(json!({"ev": "bad", "why": b})); }
    out.push(json!({"ev": "verdict", "accepted": true, "honest": honest, "how": how}));
    out
}
/// An honest execution that has no accepted tables: the specification runs it on its own.
fn refused_lines(c: &Case, rec: &ExecutionRecord<F>, how: &str) -> Vec<Value> {
    let mut tapes: BTreeMap<&'static str, Vec<u8>> = BTreeMap::new();
    for i in 0..4 { tapes.insert(TAPES[i], c.tapes[i].clone()); }
    for i in 0..3 { tapes.insert(TAPES[4 + i], c.fixed[i].to_vec()); }
    let mut regs = [0u32; 32];
    for (i, v) in &c.regs { if *i != 0 { regs[*i as usize] = *v } }
    let mut out = vec![boot_json(c, &regs, &tapes)];
    out.extend(rec.executed.iter().map(|_| json!({"ev": "run"})));
    out.push(json!({"ev": "verdict", "accepted": false, "honest": true, "how": how}));
    out
}
fn air_case(focus: &str, k: usize, r: &mut Rng) -> Case {
    let focus = if focus == "mix" { ["alu", "flow", "mem", "tape"][k % 4] } else { focus };
    loop {
        let mut c = match focus {
            "alu" => match k % 3 {
                0 => { let n = CORNERS.len(); let j = (k / 3 * 7) % (n * n); pair_case(CORNERS[j / n], CORNERS[j % n], r) }
                1 => pair_case(word(r), word(r), r),
                _ => { let (a, b) = (r.range(-40, 40) as u32, r.range(-4, 4) as u32); pair_case(a, b, r) }
            },
            "flow" => gens::flow_case(r),
            "mem" => match k % 4 { 0 => mem_case(r), 1 => selfmod_case(r), _ => gens::mem_case(r) },
            "tape" => gens::tape_case(r, false, false, false),
            _ => match k % 5 { 0 => gens::odd_case(r), 1 => gens::tape_case(r, true, false, false), 2 => gens::tape_case(r, false, true, false), 3 => gens::tape_case(r, false, false, true), _ => gens::tape_case(r, true, true, true) },
        };
        // both images defining one byte is not a program the loader makes
        if c.ro.keys().any(|a| c.rw.contains_key(a)) { let ro: Vec<u32> = c.ro.keys().copied().collect(); for a in ro { c.rw.remove(&a); } }
        if let exec::Text::Ins(m) = &c.text { if m.keys().any(|a| *a > 0xffff_fff0) { continue } }
        return c;
    }
}
/// FOCUS OUT CASES TRIES SEED SHARDS
fn air(focus: &str, out: &str, cases: usize, tries: usize, seed: u64, shards: usize) {
    use attack::*;
    let all: Vec<(Stats, BTreeMap<String, u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..shards).map(|s| sc.spawn(move || {
            let mut lines: Vec<Value> = vec![];
            let mut hashes = BTreeMap::new();
            let mut stat: BTreeMap<String, u64> = BTreeMap::new();
            let sys0 = Sys::default();
            let only: Option<usize> = std::env::var("ONLY").ok().and_then(|x| x.parse().ok());
            let mut ctx: Option<walk::Ctx> = None;
            let mut stats = Stats::default();
            let mut seen: BTreeMap<String, u32> = BTreeMap::new();
            for k in (0..cases).filter(|k| k % shards == s && only.map_or(true, |o| o == *k)) {
                let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
                let case = air_case(focus, k, &mut r);
                let Some((program, rec)) = run_case(&case) else { *stat.entry("unfinished".into()).or_default() += 1; continue };
                let e = F::from_canonical_u32(case.pc);
                for x in &rec.executed { *stat.entry(format!("op:{:?}", x.instruction.op)).or_default() += 1; }
                let t = match guard(|| traces_of(&program, &rec)) { Ok(t) => t, Err(m) => { lines.extend(refused_lines(&case, &rec, &format!("no tables: {m}"))); *stat.entry("honest-refused".into()).or_default() += 1; continue } };
                let v = sys0.violations(&t, e, &Dirty::all(), 8);
                if !v.is_empty() {
                    let names: Vec<String> = v.iter().map(|x| sys0.name(*x)).collect();
                    lines.extend(refused_lines(&case, &rec, &names.join(" ")));
                    *stat.entry("honest-refused".into()).or_default() += 1;
                    continue;
                }
                let cl = claim(&sys0, &t);
                *stat.entry("honest-accepted".into()).or_default() += 1;
                digests(&cl, &mut hashes);
                lines.extend(claim_lines(&case, &cl, true, "honest"));
                if tries == 0 { continue }
                let ctx = ctx.get_or_insert_with(|| { let ws: Vec<usize> = kinds().into_iter().map(|k| width(&t, k)).collect(); walk::Ctx::new(&ws) });
                let start = start_of(&case, &program);
                let run = Run { case, program, start, rec, traces: t, claim: cl };
                let mut adv = Adversary::new(ctx, &run.traces);
                adv.stats = std::mem::take(&mut stats);
                for j in 0..tries {
                    let t0 = std::time::Instant::now();
                    let found = match j % 8 {
                        0..=2 => adv.forked(&run, &mut r),
                        3 | 4 => { let w = r.below(8) as usize; adv.designed(std::env::var("DESIGN").ok().and_then(|x| x.parse().ok()).unwrap_or(w), &run, &mut r) }
                        7 => { let mut f = adv.perturbed(&run, &mut r); if j % 16 == 7 { f.extend(adv.forged(&run, &mut r)) } f }
                        _ => adv.perturbed(&run, &mut r),
                    };
                    if std::env::var("SLOW").is_ok() && t0.elapsed().as_secs_f64() > 1.0 { eprintln!("slow {:?} case {k} try {j} {}", t0.elapsed(), adv.last) }
                    for f in found {
                        let key: String = f.how.chars().filter(|c| !c.is_ascii_digit()).collect();
                        let n = seen.entry(key).or_default();
                        *n += 1;
                        if *n > 3 { continue }
                        digests(&f.claim, &mut hashes);
                        lines.extend(claim_lines(&run.case, &f.claim, false, &f.how));
                    }
                }
                stats = std::mem::take(&mut adv.stats);
            }
            let mut o = util::Out::new(&format!("{out}.{s}"));
            let known: Vec<String> = std::env::var("AIR_KNOWN").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(Into::into).collect();
            o.line(&json!({"ev": "hashes", "known": known, "table": hashes.iter().map(|(i, d)| json!({"inp": i, "out": d})).collect::<Vec<_>>()}));
            for l in &lines { o.line(l); *stat.entry(format!("ev:{}", l["ev"].as_str().unwrap())).or_default() += 1; }
            o.done();
            (stats, stat)
        })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panic!("a shard died: {}", drv_util::last_panic()))).collect()
    });
    let mut stat: BTreeMap<String, u64> = BTreeMap::new();
    let mut sole: BTreeMap<Viol, u64> = BTreeMap::new();
    for (a, b) in all {
        for (k, v) in b { *stat.entry(k).or_default() += v; }
        for (k, v) in a.tried { *stat.entry(format!("try:{k}")).or_default() += v; }
        for (k, v) in a.sole { *sole.entry(k).or_default() += v; }
        *stat.entry("attack-accepted".into()).or_default() += a.accepted;
    }
    let sys = Sys::default();
    let names: BTreeMap<String, u64> = sole.into_iter().map(|(k, v)| (sys.name(k), v)).collect();
    stat.insert("rules-attacked-alone".into(), names.len() as u64);
    println!("{}", json!({"stat": stat, "sole": names}));
}
