//! Attacks put together on purpose: each one exploits a way two tables could disagree.
use std::collections::{BTreeMap, BTreeSet};

use mozak_circuits::air::*;
use mozak_circuits::stark::mozak_stark::TableKind::{self, *};
use mozak_runner::vm::ExecutionRecord;

use crate::attack::*;
use crate::util::{guard, word, Rng};

struct T<'b> { t: Traces, col: &'b dyn Fn(TableKind, &str) -> usize }
impl T<'_> {
    fn g(&self, k: TableKind, r: usize, c: &str) -> F { get(&self.t, k, r, (self.col)(k, c)) }
    fn s(&mut self, k: TableKind, r: usize, c: &str, v: F) { let c = (self.col)(k, c); set(&mut self.t, k, r, c, v) }
    fn rows(&self, k: TableKind) -> Vec<Vec<F>> { (0..height(&self.t, k)).map(|r| row_vec(&self.t, k, r)).collect() }
    fn find(&self, k: TableKind, c: &str, v: u64) -> Vec<usize> { let c = (self.col)(k, c); (0..height(&self.t, k)).filter(|r| get(&self.t, k, *r, c).to_canonical_u64() == v).collect() }
}
fn f(v: u32) -> F { F::from_canonical_u32(v) }
type Pins = BTreeMap<(usize, usize), BTreeSet<usize>>;
/// How far an attack got: the tables, what to keep when mending, what to rebuild.
struct Plan { t: Traces, pins: Pins, deep: bool, after: Option<After>, mend: bool, how: String }
/// An access that is moved within its table after the table has been rebuilt.
enum After { Reinit(TableKind, F, u64, F), None }

pub const NAMES: [&str; 8] = ["wide-init", "repack", "two-inits", "zero-again", "digest-elsewhere", "no-digest", "stray-row", "two-values"];

impl Adversary<'_> {
    pub fn designed(&mut self, which: usize, run: &Run, r: &mut Rng) -> Vec<Found> {
        let w: Vec<usize> = kinds().into_iter().map(|k| width(&run.traces, k)).collect();
        let ctx = self.ctx;
        let names = std::cell::RefCell::new(std::mem::take(&mut self.names));
        let col = |k: TableKind, n: &str| -> usize { *names.borrow_mut().entry((k as usize, n.to_string())).or_insert_with(|| col_of(k, n, &ctx.sys, w[k as usize]).unwrap_or_else(|| panic!("{k:?} has no {n}"))) };
        let e = F::from_canonical_u32(run.case.pc);
        let plan = match which {
            0 => wide_init(run, r, &col), 1 => self.repack(run, r, &col), 2 => two_inits(run, r, &col), 3 => zero_again(run, r, &col),
            4 => digest_elsewhere(run, r, &col), 5 => no_digest(run, r, &col), 6 => stray_row(run, r, &col), _ => two_values(run, r, &col),
        };
        let mut out = vec![];
        if let Some(mut p) = plan {
            let what = NAMES[which];
            let mut d = Dirty::all();
            // first the tables that merely follow, then the rows that do not hold
            let ok = guard(|| rebuild(&mut p.t, p.deep, &mut d)).is_ok();
            let mut fits = ok;
            if let (true, Some(After::Reinit(k, addr, clk, v))) = (ok, &p.after) { fits = reinit(&mut p.t, *k, *addr, *clk, *v, &col); if fits { let _ = guard(|| rebuild(&mut p.t, false, &mut d)); } }
            if fits { out.extend(self.verdict(&p.t, run, e, &Dirty::all(), what, &p.how)); }
            if p.mend && out.is_empty() {
                self.mend(&mut p.t, e, &mut d, &p.pins, r);
                let deep = p.deep && p.after.is_none();
                if guard(|| rebuild(&mut p.t, deep, &mut d)).is_ok() { out.extend(self.verdict(&p.t, run, e, &Dirty::all(), what, &p.how)); }
            }
            *self.stats.tried.entry(format!("{what}{}", if ok { "" } else { " refused" })).or_default() += 1;
        }
        self.names = names.into_inner();
        out
    }
    /// An instruction with other arguments, hidden in the unused room of a packed column.
    fn repack(&mut self, run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
        let (rec, how, clk) = fork(run, r)?;
        if !how.starts_with("executes") { return None }
        let t = guard(|| traces_of(&run.program, &rec)).ok()?;
        let mut x = T { t, col };
        let row = *x.find(Cpu, "clk", clk).first()?;
        let honest = run.traces.clone();
        let h = T { t: honest, col };
        let old = *h.find(Cpu, "clk", clk).first()?;
        // the columns of the lookup into the program, as sums over cells of the row
        let mut pins = Pins::new();
        for sides in lookups(&self.ctx.sys) {
            if sides.last()?.0 as usize != Program as usize { continue }
            for (k, cols, _) in &sides {
                if *k as usize != Cpu as usize { continue }
                for c in cols {
                    let lc: Vec<(usize, F)> = c.lv_linear_combination.iter().map(|(i, w)| (*i, *w)).collect();
                    let sum = |t: &Traces, row: usize| lc.iter().map(|(i, w)| get(t, Cpu, row, *i) * *w).sum::<F>();
                    let diff = sum(&h.t, old) - sum(&x.t, row);
                    for (i, _) in &lc { pins.entry((Cpu as usize, row)).or_default().insert(*i); }
                    if diff == F::ZERO || lc.len() < 2 { continue }
                    let (i, w) = *r.pick(&lc);
                    let v = get(&x.t, Cpu, row, i) + diff * plonky2::field::types::Field::inverse(&w);
                    set(&mut x.t, Cpu, row, i, v);
                }
            }
        }
        Some(Plan { t: x.t, pins, deep: true, after: None, mend: true, how })
    }
}
/// A register that starts with a number no register can hold.
fn wide_init(run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
    let mut x = T { t: run.traces.clone(), col };
    let mut firsts = vec![];
    for reg in 1..32u8 {
        let Some(i) = run.rec.executed.iter().position(|y| y.instruction.args.rs1 == reg || y.instruction.args.rs2 == reg) else { continue };
        if run.rec.executed[..i].iter().all(|y| y.instruction.args.rd != reg) { firsts.push(reg) }
    }
    if firsts.is_empty() { return None }
    let reg = *r.pick(&firsts);
    let row = *x.find(RegisterInit, "reg_addr", u64::from(reg)).first()?;
    let old = x.g(RegisterInit, row, "value");
    let big = F::from_canonical_u64(1 << 32);
    let v = match r.below(4) { 0 => old + big, 1 => old - big, 2 => -f(1 + r.below(40) as u32), _ => F::from_noncanonical_u64(r.next()) };
    x.s(RegisterInit, row, "value", v);
    let mut pins = Pins::new();
    for y in &run.rec.executed {
        let (a, clk) = (y.instruction.args, y.state.clk);
        for (k, one, two) in [(Cpu, "op1_value", "op2_value_raw"), (Add, "op1_value", "op2_value"), (BltTaken, "op1_value", "op2_value")] {
            for row in x.find(k, "clk", clk) {
                for (c, is) in [(one, a.rs1 == reg), (two, a.rs2 == reg)] { if is { x.s(k, row, c, v); pins.entry((k as usize, row)).or_default().insert(col(k, c)); } }
            }
        }
        if a.rd == reg { break }
    }
    Some(Plan { t: x.t, pins, deep: true, after: None, mend: true, how: format!("x{reg} starts as {v}") })
}
/// after the rebuild, the second init of an address is put right before the access at `clk`
fn reinit(t: &mut Traces, k: TableKind, addr: F, clk: u64, v: F, col: &dyn Fn(TableKind, &str) -> usize) -> bool {
    let (ca, cc, cv, ci) = (col(k, "addr"), col(k, "clk"), col(k, "value"), col(k, "is_init"));
    let mut all: Vec<Vec<F>> = (0..height(t, k)).map(|r| row_vec(t, k, r)).collect();
    let inits: Vec<usize> = (0..all.len()).filter(|i| all[*i][ca] == addr && all[*i][ci] == F::ONE).collect();
    let Some(i) = inits.iter().copied().rev().find(|i| all[*i][cv] == v) else { return false };
    if inits.len() < 2 { return false }
    let x = all.remove(i);
    let Some(j) = (0..all.len()).find(|j| all[*j][ca] == addr && all[*j][cc].to_canonical_u64() >= clk && all[*j][ci] != F::ONE) else { return false };
    all.insert(j, x);
    // the clock differences of a memory table are recomputed along the way
    put_rows(t, k, all);
    true
}
fn forked_reads(run: &Run, r: &mut Rng, what: &str) -> Option<(ExecutionRecord<F>, String, u64)> {
    for _ in 0..12 { if let Some(x) = fork(run, r) { if x.1.contains(what) { return Some(x) } } }
    None
}
/// A second initial value for a register, from which a later read is served.
fn two_inits(run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
    let (rec, how, clk) = forked_reads(run, r, " reads x")?;
    let mut x = T { t: guard(|| traces_of(&run.program, &rec)).ok()?, col };
    let words: Vec<&str> = how.split_whitespace().collect();
    let reg: u32 = words[2][1..].parse().ok()?;
    let v = f(words[4].parse().ok()?);
    if reg == 0 { return None }
    // rows 1..=31 are the registers: the table's padding is free
    let n = height(&x.t, RegisterInit);
    let spare: Vec<usize> = (0..n).filter(|i| x.g(RegisterInit, *i, "reg_addr") == F::ZERO).chain((1..n).filter(|i| x.g(RegisterInit, *i, "reg_addr") == x.g(RegisterInit, *i - 1, "reg_addr"))).collect();
    let row = *spare.first()?;
    x.s(RegisterInit, row, "reg_addr", f(reg));
    x.s(RegisterInit, row, "value", v);
    Some(Plan { t: x.t, pins: Pins::new(), deep: true, after: Some(After::Reinit(Register, f(reg), clk, v)), mend: false, how })
}
/// A memory cell initialised a second time, to zero.
fn zero_again(run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
    let loads: Vec<usize> = (0..run.rec.executed.len()).filter(|i| { let y = &run.rec.executed[*i]; y.aux.mem.is_some() && y.aux.dst_val != 0 && !matches!(y.instruction.op, mozak_runner::instruction::Op::SB | mozak_runner::instruction::Op::SH | mozak_runner::instruction::Op::SW) }).collect();
    if loads.is_empty() { return None }
    let i = *r.pick(&loads);
    let y = &run.rec.executed[i];
    let addr = *r.pick(&y.aux.mem_addresses_used);
    if y.state.load_u8(addr) == 0 { return None }
    let mut st = y.state.clone();
    st.memory.data.insert(addr, 0);
    let (aux, next) = guard(|| st.clone().execute_instruction(&run.program)).ok()?.ok().map(|(a, _, s)| (a, s))?;
    let mut out = run.rec.executed[..i].to_vec();
    out.push(mozak_runner::vm::Row { state: y.state.clone(), aux, instruction: y.instruction });
    let mut s = next;
    for _ in 0..run.case.limit { if s.has_halted() { break }
        if matches!(s.get_register_value(10), 1 | 3 | 10) && s.get_register_value(12) > 4096 { return None }
        let before = s.clone();
        let (aux, instruction, n) = guard(|| s.execute_instruction(&run.program)).ok()?.ok()?;
        out.push(mozak_runner::vm::Row { state: before, aux, instruction });
        s = n;
    }
    if !s.has_halted() { return None }
    let mut x = T { t: guard(|| traces_of(&run.program, &ExecutionRecord { executed: out, last_state: s })).ok()?, col };
    let mut zs = x.rows(MemoryZeroInit);
    let (ca, cf) = (col(MemoryZeroInit, "addr"), col(MemoryZeroInit, "filter"));
    let free = zs.iter().position(|z| z[cf] == F::ZERO);
    let mut z = vec![F::ZERO; zs[0].len()];
    z[ca] = f(addr);
    z[cf] = F::ONE;
    match free { Some(j) => zs[j] = z, None => { let n = zs.len(); zs.push(z); zs.resize(2 * n, vec![F::ZERO; 2]); } }
    put_rows(&mut x.t, MemoryZeroInit, zs);
    let clk = y.state.clk;
    Some(Plan { t: x.t, pins: Pins::new(), deep: true, after: r.chance(2, 3).then_some(After::Reinit(Memory, f(addr), clk, F::ZERO)), mend: true, how: format!("byte {addr} is zero again at {clk}") })
}
fn sponge_rows(x: &T<'_>) -> Vec<usize> { (0..height(&x.t, Poseidon2Sponge)).filter(|i| x.g(Poseidon2Sponge, *i, "gen_output") == F::ONE).collect() }
/// A digest written somewhere else than the call asked for.
fn digest_elsewhere(run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
    let mut x = T { t: run.traces.clone(), col };
    let rows = sponge_rows(&x);
    if rows.is_empty() { return None }
    let i = *r.pick(&rows);
    let clk = x.g(Poseidon2Sponge, i, "clk");
    let by = F::from_canonical_u32(1 + r.below(40) as u32);
    let by = if r.chance(1, 2) { -by } else { by };
    let (a, b) = (x.g(Poseidon2Sponge, i, "output_addr") + by, r.below(3));
    if b > 0 { x.s(Poseidon2Sponge, i, "output_addr", a); }
    for j in x.find(Poseidon2OutputBytes, "clk", clk.to_canonical_u64()) { if b < 2 && x.g(Poseidon2OutputBytes, j, "is_executed") == F::ONE { x.s(Poseidon2OutputBytes, j, "output_addr", a); } }
    if b == 2 { for j in x.find(Poseidon2OutputBytes, "clk", clk.to_canonical_u64()) { if x.g(Poseidon2OutputBytes, j, "is_executed") == F::ONE { x.s(Poseidon2OutputBytes, j, "output_addr", a); } } }
    if b == 1 && r.chance(1, 2) {
        // every row of the sponge agrees on the other place
        for j in x.find(Poseidon2Sponge, "clk", clk.to_canonical_u64()) { x.s(Poseidon2Sponge, j, "output_addr", a); }
    }
    Some(Plan { t: x.t, pins: Pins::new(), deep: true, after: None, mend: r.chance(1, 2), how: format!("the digest of {clk} goes to {a}") })
}
/// A hash that ends early, starts late, or writes nothing.
fn no_digest(run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
    let mut x = T { t: run.traces.clone(), col };
    let rows = sponge_rows(&x);
    if rows.is_empty() { return None }
    let i = *r.pick(&rows);
    let clk = x.g(Poseidon2Sponge, i, "clk");
    let mine: Vec<usize> = x.find(Poseidon2Sponge, "clk", clk.to_canonical_u64()).into_iter().filter(|j| x.g(Poseidon2Sponge, *j, "input_len") != F::ZERO).collect();
    let drop = |x: &mut T<'_>| { for j in x.find(Poseidon2OutputBytes, "clk", clk.to_canonical_u64()) { let w = width(&x.t, Poseidon2OutputBytes); for c in 0..w { set(&mut x.t, Poseidon2OutputBytes, j, c, F::ZERO) } } };
    let how = match r.below(4) {
        0 => { x.s(Poseidon2Sponge, i, "gen_output", F::ZERO); drop(&mut x); "no digest" }
        1 => {
            // the rows from some point on are gone
            let from = *r.pick(&mine);
            for j in mine.iter().filter(|j| **j >= from) { let w = width(&x.t, Poseidon2Sponge); for c in 0..w { set(&mut x.t, Poseidon2Sponge, *j, c, F::ZERO) } }
            drop(&mut x);
            "the hash breaks off"
        }
        2 => {
            // the digest is taken one permutation early
            if mine.len() < 2 { return None }
            let j = mine[mine.len() - 2];
            x.s(Poseidon2Sponge, j, "gen_output", F::ONE);
            let w = width(&x.t, Poseidon2Sponge);
            for c in 0..w { set(&mut x.t, Poseidon2Sponge, i, c, F::ZERO) }
            let (a, b) = (col(Poseidon2Sponge, "output"), col(Poseidon2OutputBytes, "output_fields"));
            for k in 0..4 { let v = get(&x.t, Poseidon2Sponge, j, a + k); for q in x.find(Poseidon2OutputBytes, "clk", clk.to_canonical_u64()) { set(&mut x.t, Poseidon2OutputBytes, q, b + k, v);
                for s in 0..8 { let c = col(Poseidon2OutputBytes, "output_bytes") + 8 * k + s; set(&mut x.t, Poseidon2OutputBytes, q, c, F::from_canonical_u64(v.to_canonical_u64() >> (8 * s) & 255)); } } }
            "the digest comes early"
        }
        _ => {
            let j = *r.pick(&mine);
            let c = *r.pick(&["input_addr", "input_len"]);
            let v = x.g(Poseidon2Sponge, j, c) + F::from_canonical_u32(8) * if r.chance(1, 2) { F::ONE } else { -F::ONE };
            x.s(Poseidon2Sponge, j, c, v);
            "the hash skips input"
        }
    };
    Some(Plan { t: x.t, pins: Pins::new(), deep: true, after: None, mend: r.chance(1, 2), how: format!("{how} at {clk}") })
}
/// A copy of a row that acts on memory, with one of its cells changed, in a free place.
fn stray_row(run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
    let mut x = T { t: run.traces.clone(), col };
    let k = *r.pick(&[HalfWordMemory, FullWordMemory, StorageDevicePrivate, StorageDevicePublic, CallTape, EventTape, EventsCommitmentTape, CastListCommitmentTape, SelfProgIdTape,
        Poseidon2Sponge, Poseidon2OutputBytes, Add, BltTaken, Cpu, CpuSkeleton]);
    let all = x.rows(k);
    let n = all.len();
    let live: Vec<usize> = (0..n).filter(|i| all[*i].iter().filter(|v| **v != F::ZERO).count() > 2).collect();
    if live.is_empty() { return None }
    let i = *r.pick(&live);
    let mut row = all[i].clone();
    let mut how = format!("{k:?} {i} again");
    if r.chance(1, 2) {
        let c = r.below(row.len() as u64) as usize;
        let clks: Vec<u64> = run.rec.executed.iter().map(|y| y.state.clk).collect();
        row[c] = match r.below(5) { 0 => F::ZERO, 1 => F::ONE, 2 => row[c] + F::ONE, 3 => F::from_canonical_u64(*r.pick(&clks)), _ => f(word(r)) };
        how += &format!(" with [{c}]={}", row[c]);
    }
    let mut all = all;
    let j = (0..n).filter(|j| !live.contains(j)).collect::<Vec<_>>();
    if j.is_empty() { all.push(row); let pad = all[i].clone(); let _ = pad; let z = vec![F::ZERO; width(&x.t, k)]; all.resize(2 * n, z); }
    else if r.chance(1, 2) { let j = *r.pick(&j); all[j] = row } else { let at = *r.pick(&live); all.pop(); all.insert(at, row) }
    put_rows(&mut x.t, k, all);
    Some(Plan { t: x.t, pins: Pins::new(), deep: true, after: None, mend: r.chance(1, 2), how })
}
/// Two tables that describe one access disagree about its value, and everything after follows one of them.
fn two_values(run: &Run, r: &mut Rng, col: &dyn Fn(TableKind, &str) -> usize) -> Option<Plan> {
    let mut x = T { t: run.traces.clone(), col };
    let k = *r.pick(&[HalfWordMemory, FullWordMemory, StorageDevicePrivate, StorageDevicePublic, CallTape, EventTape, SelfProgIdTape, EventsCommitmentTape, CastListCommitmentTape, Poseidon2OutputBytes]);
    let n = height(&x.t, k);
    let w = width(&x.t, k);
    let live: Vec<usize> = (0..n).filter(|i| row_vec(&x.t, k, *i).iter().filter(|v| **v != F::ZERO).count() > 2).collect();
    if live.is_empty() { return None }
    let i = *r.pick(&live);
    let c = r.below(w as u64) as usize;
    let old = get(&x.t, k, i, c);
    let d = f(1 + r.below(255) as u32);
    set(&mut x.t, k, i, c, old + d);
    let mut pins = Pins::new();
    pins.entry((k as usize, i)).or_default().insert(c);
    // the same amount taken off a second cell, as a weighted sum may allow
    if r.chance(1, 2) {
        let c2 = r.below(w as u64) as usize;
        if c2 != c {
            let s = F::from_canonical_u64(1 << (8 * r.below(4)));
            let v = get(&x.t, k, i, c2) - if r.chance(1, 2) { d * s } else { d * plonky2::field::types::Field::inverse(&s) };
            set(&mut x.t, k, i, c2, v);
            pins.entry((k as usize, i)).or_default().insert(c2);
        }
    }
    Some(Plan { t: x.t, pins, deep: true, after: None, mend: true, how: format!("{k:?} [{i}][{c}] by {d}") })
}
