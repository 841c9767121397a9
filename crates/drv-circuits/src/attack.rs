//! An adversarial prover: alters executions and tables, repairs what it can, and reports
//! every claim the real constraint system accepts.
use std::collections::{BTreeMap, BTreeSet};

use mozak_circuits::air::*;
use mozak_circuits::memory::columns::Memory as MemoryRow;
use mozak_circuits::stark::mozak_stark::TableKind;
use mozak_runner::elf::Program;
use mozak_runner::instruction::{Instruction, Op};
use mozak_runner::state::{Aux, State};
use mozak_runner::vm::{ExecutionRecord, Row};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::Poseidon2Permutation;

use crate::exec::{self, raw_tapes, Case};
use crate::util::{guard, word, Rng};
use crate::walk::Ctx;

pub struct Run { pub case: Case, pub program: Program, pub start: State<F>, pub rec: ExecutionRecord<F>, pub traces: Traces, pub claim: Claim }
pub struct Found { pub claim: Claim, pub how: String }
#[derive(Default)]
pub struct Stats { pub tried: BTreeMap<String, u64>, pub accepted: u64, pub sole: BTreeMap<Viol, u64> }

pub fn start_of(c: &Case, p: &Program) -> State<F> {
    let mut s: State<F> = State::new(p.clone(), raw_tapes(c));
    for (i, v) in &c.regs { s = s.set_register_value(*i, *v); }
    s
}
fn patched(p: &Program, pc: u32, i: Instruction) -> Program {
    let mut q = p.clone();
    q.ro_code.0.insert(pc, Ok(i));
    q
}
const FAMILY: [&[Op]; 4] = [&exec::ALU, &exec::BR, &[Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU], &[Op::SB, Op::SH, Op::SW]];

/// One wrong instruction in the middle of an otherwise honest execution.
pub fn fork(run: &Run, r: &mut Rng) -> Option<(ExecutionRecord<F>, String, u64)> {
    let n = run.rec.executed.len();
    // the interesting classes are drawn evenly, not by how often they occur
    let mut classes: BTreeMap<u8, Vec<usize>> = BTreeMap::new();
    for (i, x) in run.rec.executed.iter().enumerate() {
        let c = match x.instruction.op { Op::ADD => 0, Op::ECALL => if i + 1 == n { 1 } else { 2 }, Op::JALR => 3, o if exec::BR.contains(&o) => 4, o if exec::MEM.contains(&o) => 5, _ => 6 };
        classes.entry(c).or_default().push(i);
    }
    let keys: Vec<u8> = classes.keys().copied().collect();
    let key = *r.pick(&keys);
    let i = *r.pick(&classes[&key]);
    let row = &run.rec.executed[i];
    let after = if i + 1 < n { run.rec.executed[i + 1].state.clone() } else { run.rec.last_state.clone() };
    let (mut st, mut aux, mut ins, mut next) = (row.state.clone(), row.aux.clone(), row.instruction, after);
    let pc = st.get_pc();
    let text: Vec<u32> = run.program.ro_code.0.keys().copied().collect();
    // (an environment call over billions of bytes would only waste time)
    let one = |p: &Program, s: State<F>| if matches!(s.get_register_value(10), 1 | 3 | 10) && s.get_register_value(12) > 4096 { None } else { guard(|| s.execute_instruction(p)).ok().and_then(Result::ok) };
    let is_mem = exec::MEM.contains(&ins.op);
    let how = match (r.below(10), ins.op) {
        (0 | 1, o) if !matches!(o, Op::JALR | Op::ECALL) => {
            let f = FAMILY.iter().find(|f| f.contains(&o))?;
            ins.op = *r.pick(f);
            if ins.op == o { return None }
            let (a, _, s) = one(&patched(&run.program, pc, ins), st.clone())?;
            (aux, next) = (a, s);
            format!("executes {:?} for {o:?}", ins.op)
        }
        (2, _) => {
            match r.below(4) { 0 => ins.args.rd = r.below(32) as u8, 1 => ins.args.rs1 = r.below(32) as u8, 2 => ins.args.rs2 = r.below(32) as u8, _ => ins.args.imm = ins.args.imm.wrapping_add(*r.pick(&[1, 4, 0x100, u32::MAX, 0x8000_0000])) }
            let (a, _, s) = one(&patched(&run.program, pc, ins), st.clone())?;
            (aux, next) = (a, s);
            format!("executes {ins:?}")
        }
        (3 | 4, o) => {
            // an operand, read as something other than what the register holds
            let reg = if o == Op::ECALL { 10 + r.below(4) as u8 } else if r.chance(1, 2) { ins.args.rs1 } else { ins.args.rs2 };
            let old = st.get_register_value(reg);
            let past: Vec<u32> = run.rec.executed[..i].iter().map(|x| x.state.get_register_value(reg)).filter(|v| *v != old).collect();
            let v = if !past.is_empty() && r.chance(1, 2) { *r.pick(&past) }
                else if o == Op::ECALL { if reg == 10 { *r.pick(&[0u32, 2, 3, 4, 5, 6, 7, 8, 9]) } else { old.wrapping_add(*r.pick(&[1, 8, u32::MAX, 4])) } }
                else if r.chance(1, 2) { old.wrapping_add(*r.pick(&[1, u32::MAX])) } else { word(r) };
            st = st.set_register_value(reg, v);
            if st.get_register_value(reg) != v { st.registers[reg as usize] = v }
            let (a, _, mut s) = one(&run.program, st.clone())?;
            if ins.args.rd != reg || matches!(o, Op::ECALL | Op::SB | Op::SH | Op::SW) || exec::BR.contains(&o) { s.registers[reg as usize] = old }
            (aux, next) = (a, s);
            format!("{o:?} reads x{reg} = {v} for {old}")
        }
        (5, _) => {
            let v = match r.below(3) { 0 => pc.wrapping_add(4), 1 => *r.pick(&text), _ => ins.args.imm & !1 };
            if v == aux.new_pc { return None }
            aux.new_pc = v;
            next = next.set_pc(v);
            format!("{:?} goes to {v} ", ins.op)
        }
        (6, o) if is_mem => {
            // the bytes in memory, seen as something else
            let m = aux.mem?;
            let a = m.addr.wrapping_add(r.below(4) as u32);
            let old = st.memory.data.get(&a).copied();
            let past: Vec<u8> = run.rec.executed[..i].iter().map(|x| x.state.load_u8(a)).filter(|v| Some(*v) != old).collect();
            let v = if !past.is_empty() && r.chance(2, 3) { *r.pick(&past) } else { r.next() as u8 };
            if matches!(o, Op::SB | Op::SH | Op::SW) {
                match r.below(3) {
                    0 => { next.memory.data = st.memory.data.clone(); }
                    1 => { next.memory.data.insert(a, v); }
                    _ => { let x = m.raw_value ^ (u32::from(v) << (8 * r.below(4))); aux.mem.as_mut()?.raw_value = x; aux.dst_val = x;
                           for (j, y) in aux.mem_addresses_used.iter().enumerate() { next.memory.data.insert(*y, (x >> (8 * j)) as u8); } }
                }
                format!("{o:?} stores something else")
            } else {
                let mut s2 = st.clone();
                s2.memory.data.insert(a, v);
                let (au, _, mut s) = one(&run.program, s2)?;
                s.memory.data = st.memory.data.clone();
                (aux, next) = (au, s);
                format!("{o:?} loads {v} at {a}")
            }
        }
        (6 | 7, Op::ECALL) if aux.poseidon2.is_some() => {
            let e = aux.poseidon2.as_mut()?;
            let (j, b) = (r.below(32), r.next() as u8);
            let last = e.sponge_data.last_mut()?;
            let mut limbs: Vec<u64> = (0..4).map(|k| last.output[k].to_canonical_u64()).collect();
            limbs[(j / 8) as usize] ^= u64::from(b) << (8 * (j % 8));
            for k in 0..4 { last.output[k] = F::from_noncanonical_u64(limbs[k]); }
            for k in 0..32u32 { next.memory.data.insert(e.output_addr.wrapping_add(k), (last.output[k as usize / 8].to_canonical_u64() >> (8 * (k % 8))) as u8); }
            "a different digest".into()
        }
        (6 | 7, Op::ECALL) if aux.storage_device_entry.is_some() => {
            let e = aux.storage_device_entry.as_mut()?;
            match r.below(3) {
                0 => { e.data.pop()?; }
                1 => e.data.push(r.next() as u8),
                _ => { let j = r.below(e.data.len().max(1) as u64) as usize; *e.data.get_mut(j)? ^= 1 << r.below(8); }
            }
            next.memory.data = st.memory.data.clone();
            aux.mem_addresses_used = (0..e.data.len() as u32).map(|k| e.addr.wrapping_add(k)).collect();
            for (k, b) in e.data.iter().enumerate() { next.memory.data.insert(e.addr.wrapping_add(k as u32), *b); }
            "the tape hands out something else".into()
        }
        _ => {
            let rd = ins.args.rd;
            let v = match r.below(4) { 0 => aux.dst_val.wrapping_add(1), 1 => aux.dst_val ^ (1 << r.below(32)), 2 => 0, _ => word(r) };
            if v == aux.dst_val || matches!(ins.op, Op::ECALL | Op::SB | Op::SH | Op::SW) || exec::BR.contains(&ins.op) { return None }
            aux.dst_val = v;
            next = next.set_register_value(rd, v);
            format!("{:?} {} {} gives {v}", ins.op, aux.op1, aux.op2)
        }
    };
    let clk = st.clk;
    next.clk = clk + 1;
    let mut out = run.rec.executed[..i].to_vec();
    out.push(Row { state: st, aux, instruction: ins });
    let mut s = next;
    for _ in 0..run.case.limit { if s.has_halted() { break }
        let before = s.clone();
        let (aux, instruction, n): (Aux<F>, _, _) = one(&run.program, s)?;
        out.push(Row { state: before, aux, instruction });
        s = n;
    }
    s.has_halted().then_some((ExecutionRecord { executed: out, last_state: s }, how, clk))
}
pub fn col_of(k: TableKind, name: &str, sys: &Sys, width: usize) -> Option<usize> {
    // the printed row lists its columns by name: mark one cell at a time
    (0..width).find(|i| { let mut v = vec![F::ZERO; width]; v[*i] = F::from_canonical_u64(987_654_321); let s = show_row(sys, k, &v); s.contains(&format!("{name}: 987654321")) || s.contains(&format!("{name}: [987654321")) })
}
pub struct Pins { cpu: Vec<usize>, other: BTreeMap<usize, Vec<usize>> }
pub fn pins(ctx: &Ctx, t: &Traces) -> Pins {
    let w = |k| width(t, k);
    let f = |k: TableKind, ns: &[&str]| -> Vec<usize> { ns.iter().filter_map(|n| col_of(k, n, &ctx.sys, w(k))).collect() };
    let mut cpu = f(TableKind::Cpu, &["clk", "new_pc", "op1_value", "op2_value_raw", "dst_value", "mem_addr", "mem_value_raw", "io_addr", "io_size"]);
    let a = col_of(TableKind::Cpu, "pc", &ctx.sys, w(TableKind::Cpu)).unwrap();
    let b = col_of(TableKind::Cpu, "imm_value", &ctx.sys, w(TableKind::Cpu)).unwrap();
    cpu.extend(a..=b);
    let mut other = BTreeMap::new();
    for k in [TableKind::Add, TableKind::BltTaken] { other.insert(k as usize, f(k, &["clk", "pc", "op1_value", "op2_value", "dst_value", "rd_selected", "rs1_selected", "rs2_selected", "imm_value", "is_running"])); }
    Pins { cpu, other }
}
const DERIVED: [TableKind; 5] = [TableKind::Xor, TableKind::Bitshift, TableKind::RangeCheck, TableKind::RangeCheckU8, TableKind::ProgramMult];

pub struct Adversary<'a> { pub ctx: &'a Ctx, pub pins: Pins, pub stats: Stats, pub last: String, pub names: BTreeMap<(usize, String), usize> }
impl<'a> Adversary<'a> {
    pub fn new(ctx: &'a Ctx, t: &Traces) -> Self { Adversary { ctx, pins: pins(ctx, t), stats: Stats::default(), last: String::new(), names: BTreeMap::new() } }
    fn violated_rows(&self, t: &Traces, e: F, dirty: &Dirty) -> Vec<(TableKind, usize)> {
        let mut out = vec![];
        for k in kinds() {
            if DERIVED.iter().any(|d| *d as usize == k as usize) { continue }
            let Some(rows) = dirty.0.get(&(k as usize)) else { continue };
            let n = height(t, k);
            let all: Vec<usize> = match rows { None => (0..n).collect(), Some(v) => v.iter().flat_map(|r| [*r, (*r + n - 1) % n]).collect() };
            for r in all { if !self.ctx.sys.row_violations(k, t, r, e).is_empty() && !out.contains(&(k, r)) { out.push((k, r)) } if out.len() > 3 { return out } }
        }
        out
    }
    /// Ask the constraint system; keep score; return the claim if it is accepted and new.
    pub fn verdict(&mut self, t: &Traces, run: &Run, e: F, dirty: &Dirty, what: &str, how: &str) -> Option<Found> {
        *self.stats.tried.entry(what.into()).or_default() += 1;
        self.last = format!("{what} {how}");
        let v = self.ctx.sys.violations(t, e, dirty, 3);
        if v.len() > 1 { return None }
        let c = claim(&self.ctx.sys, t);
        if same(&c, &run.claim) { return None }
        if let [x] = v[..] { *self.stats.sole.entry(x).or_default() += 1; return None }
        self.stats.accepted += 1;
        Some(Found { claim: c, how: format!("{what}: {how}") })
    }
    pub fn mend(&self, t: &mut Traces, e: F, dirty: &mut Dirty, extra: &BTreeMap<(usize, usize), BTreeSet<usize>>, r: &mut Rng) {
        for (k, row) in self.violated_rows(t, e, dirty) {
            let mut pin: BTreeSet<usize> = extra.get(&(k as usize, row)).cloned().unwrap_or_default();
            if let TableKind::Cpu = k { pin.extend(&self.pins.cpu) }
            if let Some(p) = self.pins.other.get(&(k as usize)) { pin.extend(p) }
            if matches!(k, TableKind::Program | TableKind::ElfMemoryInit) { continue }
            self.ctx.walk(t, k, row, &pin, e, r, 40);
            dirty.row(k, row);
        }
    }
    pub fn forked(&mut self, run: &Run, r: &mut Rng) -> Vec<Found> {
        let mut out = vec![];
        let Some((rec, how, clk)) = fork(run, r) else { return out };
        let Ok(mut t) = guard(|| traces_of(&run.program, &rec)) else { *self.stats.tried.entry("fork-refused".into()).or_default() += 1; return out };
        let e = F::from_canonical_u32(run.case.pc);
        let _ = guard(|| rebuild(&mut t, false, &mut Dirty::default()));
        out.extend(self.verdict(&t, run, e, &Dirty::all(), "fork", &how));
        // an earlier value of a cell: let the read sit before the write
        if r.chance(1, 3) {
            let mut t2 = t.clone();
            if self.reorder(&mut t2, clk, r) {
                let mut d = Dirty::all();
                if guard(|| rebuild(&mut t2, false, &mut d)).is_ok() { out.extend(self.verdict(&t2, run, e, &d, "reorder", &how)) }
            }
        }
        let mut d = Dirty::all();
        // the range checks of the wrong row count as its constraints
        for (k, p) in [(TableKind::Cpu, self.pins.cpu.clone()), (TableKind::Add, self.pins.other[&(TableKind::Add as usize)].clone()), (TableKind::BltTaken, self.pins.other[&(TableKind::BltTaken as usize)].clone())] {
            let c0 = col_of(k, "clk", &self.ctx.sys, width(&t, k)).unwrap();
            for row in 0..height(&t, k) { if get(&t, k, row, c0).to_canonical_u64() == clk { self.ctx.walk(&mut t, k, row, &p.iter().copied().collect(), e, r, 60); } }
        }
        self.mend(&mut t, e, &mut d, &BTreeMap::new(), r);
        if guard(|| rebuild(&mut t, false, &mut d)).is_ok() { out.extend(self.verdict(&t, run, e, &Dirty::all(), "fork+mend", &how)) }
        out
    }
    /// Move the accesses of one clock to another place in the memory or register table.
    fn reorder(&self, t: &mut Traces, clk: u64, r: &mut Rng) -> bool {
        let k = if r.chance(1, 2) { TableKind::Memory } else { TableKind::Register };
        let c = col_of(k, "clk", &self.ctx.sys, width(t, k)).unwrap();
        let n = height(t, k);
        let rows: Vec<usize> = (0..n).filter(|i| get(t, k, *i, c).to_canonical_u64() == clk).collect();
        if rows.is_empty() { return false }
        let i = *r.pick(&rows);
        let j = i as i64 - r.range(1, 4);
        if j < 0 { return false }
        let mut all: Vec<Vec<F>> = (0..n).map(|x| row_vec(t, k, x)).collect();
        let x = all.remove(i);
        all.insert(j as usize, x);
        put_rows(t, k, all);
        true
    }
    /// Change cells of any table, repair around them, recompute what depends on them.
    pub fn perturbed(&mut self, run: &Run, r: &mut Rng) -> Vec<Found> {
        use TableKind::*;
        let e = F::from_canonical_u32(run.case.pc);
        let k = *r.pick(&[Cpu, Cpu, Cpu, Add, BltTaken, CpuSkeleton, Memory, Memory, HalfWordMemory, FullWordMemory, StorageDevicePrivate, StorageDevicePublic,
            CallTape, EventTape, EventsCommitmentTape, CastListCommitmentTape, SelfProgIdTape, RegisterInit, Register, Register, RegisterZeroRead, RegisterZeroWrite,
            Poseidon2, Poseidon2Sponge, Poseidon2OutputBytes, MemoryZeroInit, TapeCommitments, ProgramMult]);
        let mut t = run.traces.clone();
        let n = height(&t, k);
        let mut extra: BTreeMap<(usize, usize), BTreeSet<usize>> = BTreeMap::new();
        let mut how = format!("{k:?}");
        let mut d = Dirty::default();
        let base = r.below(n as u64) as usize;
        let live: Vec<usize> = (0..n).filter(|i| row_vec(&t, k, *i).iter().filter(|x| **x != F::ZERO).count() > 1).collect();
        let base = if !live.is_empty() && r.chance(3, 4) { *r.pick(&live) } else { base };
        match r.below(8) {
            0 => {
                // repeat, drop or move a row
                let mut all: Vec<Vec<F>> = (0..n).map(|x| row_vec(&t, k, x)).collect();
                let j = r.below(n as u64) as usize;
                match r.below(3) { 0 => all[j] = all[base].clone(), 1 => all.swap(base, j), _ => { let x = all.remove(base); all.insert(j, x); } }
                put_rows(&mut t, k, all);
                d.table(k);
                how += &format!(" row {base} at {j}");
            }
            m => {
                for _ in 0..if m < 5 { 1 } else { 2 } {
                    let row = (base + r.below(2) as usize) % n;
                    let c = r.below(width(&t, k) as u64) as usize;
                    let old = get(&t, k, row, c);
                    let v = match r.below(8) {
                        0 => F::ZERO, 1 => F::ONE, 2 => old + F::ONE, 3 => old - F::ONE, 4 => F::ONE - old,
                        5 => get(&t, k, r.below(n as u64) as usize, c), 6 => F::from_canonical_u32(word(r)), _ => F::from_noncanonical_u64(r.next()),
                    };
                    set(&mut t, k, row, c, v);
                    extra.entry((k as usize, row)).or_default().insert(c);
                    d.row(k, row);
                    how += &format!(" [{row}][{c}]={v}");
                }
            }
        }
        let deep = r.chance(1, 2);
        let pinned = self.pins.cpu.clone();
        if r.chance(1, 2) { self.pins.cpu.clear() }
        self.mend(&mut t, e, &mut d, &extra, r);
        self.pins.cpu = pinned;
        if guard(|| rebuild(&mut t, deep, &mut d)).is_err() { *self.stats.tried.entry("refused".into()).or_default() += 1; return vec![] }
        self.verdict(&t, run, e, &d, "perturb", &how).into_iter().collect()
    }
    /// A digest the permutation does not give, written wherever the real one goes, with the
    /// permutation's own table recomputed from one changed cell on.
    pub fn forged(&mut self, run: &Run, r: &mut Rng) -> Vec<Found> {
        let k = TableKind::Poseidon2;
        let e = F::from_canonical_u32(run.case.pc);
        let hashes: Vec<usize> = (0..run.rec.executed.len()).filter(|i| run.rec.executed[*i].aux.poseidon2.is_some()).collect();
        if hashes.is_empty() { return vec![] }
        let w = width(&run.traces, k);
        let is_exe = col_of(k, "is_exe", &self.ctx.sys, w).unwrap();
        let live: Vec<usize> = (0..height(&run.traces, k)).filter(|i| get(&run.traces, k, *i, is_exe) == F::ONE).collect();
        // the last permutation of the last hash whose state nothing later depends on
        let i = *hashes.last().unwrap();
        let sp = run.rec.executed[i].aux.poseidon2.as_ref().unwrap().sponge_data.last().unwrap().clone();
        let row = *live.last().unwrap();
        let mut cells = row_vec(&run.traces, k, row);
        let c = r.below(w as u64) as usize;
        let inputs: BTreeSet<usize> = (0..=12).map(|x| x + is_exe).collect();
        if inputs.contains(&c) { return vec![] }
        cells[c] += F::from_canonical_u64(1 + r.below(1 << 20));
        let mut pin = inputs.clone();
        pin.insert(c);
        self.ctx.forward(&mut cells, k, &pin);
        let at: Vec<usize> = (0..12).map(|j| (0..w).rev().find(|x| row_vec(&run.traces, k, row)[*x] == sp.output[j]).unwrap_or(0)).collect();
        let output: [F; 12] = std::array::from_fn(|j| cells[at[j]]);
        if output == sp.output { return vec![] }
        // replay the execution with that digest
        let mut out = run.rec.executed[..i].to_vec();
        let mut x = run.rec.executed[i].clone();
        let p = x.aux.poseidon2.as_mut().unwrap();
        p.sponge_data.last_mut().unwrap().output = output;
        let mut s = if i + 1 < run.rec.executed.len() { run.rec.executed[i + 1].state.clone() } else { return vec![] };
        for b in 0..32u32 { s.memory.data.insert(p.output_addr.wrapping_add(b), (output[b as usize / 8].to_canonical_u64() >> (8 * (b % 8))) as u8); }
        out.push(x);
        for _ in 0..run.case.limit { if s.has_halted() { break }
            let before = s.clone();
            if matches!(s.get_register_value(10), 1 | 3 | 10) && s.get_register_value(12) > 4096 { return vec![] }
            let Some((aux, instruction, nx)) = guard(|| s.execute_instruction(&run.program)).ok().and_then(Result::ok) else { return vec![] };
            out.push(Row { state: before, aux, instruction });
            s = nx;
        }
        let rec = ExecutionRecord { executed: out, last_state: s };
        let Ok(mut t) = guard(|| traces_of(&run.program, &rec)) else { return vec![] };
        for (j, v) in cells.iter().enumerate() { set(&mut t, k, row, j, *v) }
        self.verdict(&t, run, e, &Dirty::all(), "forge", &format!("cell {c} of the permutation")).into_iter().collect()
    }
}
pub fn same(a: &Claim, b: &Claim) -> bool { format!("{a:?}") == format!("{b:?}") }
/// digests of everything a claim hashes
pub fn digests(c: &Claim, into: &mut BTreeMap<Vec<u8>, Vec<u8>>) {
    use plonky2::plonk::config::{GenericHashOut, Hasher};
    for s in &c.steps {
        if s.writes.len() == 32 && s.dev.is_empty() && !s.reads.is_empty() {
            let mut v = s.reads.clone();
            v.sort_by_key(|x| x.0.to_canonical_u64());
            let inp: Vec<F> = v.iter().map(|x| x.1).collect();
            let key: Vec<u8> = inp.iter().map(|x| x.to_canonical_u64() as u8).collect();
            into.insert(key, plonky2::hash::poseidon2::Poseidon2Hash::hash_no_pad(&inp).to_bytes());
        }
    }
}
#[allow(unused)]
fn _unused(_: MemoryRow<F>) { let _ = Poseidon2Permutation::<F>::new([F::ZERO; 12]); }
