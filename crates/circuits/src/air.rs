//! The arithmetisation seen from outside: does a complete set of tables satisfy
//! every constraint, lookup and public sub-table of the real `MozakStark`, and
//! what execution do those tables claim?
use std::collections::BTreeMap;

use mozak_runner::elf::Program;
use mozak_runner::vm::ExecutionRecord;
pub use plonky2::field::goldilocks_field::GoldilocksField as F;
pub use plonky2::field::polynomial::PolynomialValues;
pub use plonky2::field::types::{Field, PrimeField64};
pub use plonky2::plonk::config::Poseidon2GoldilocksConfig as C;
use plonky2::util::timing::TimingTree;
pub use starky::constraint_consumer::Kind;
use starky::constraint_consumer::ConstraintConsumer;
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::cpu::columns::CpuState;
use crate::cpu_skeleton::columns::CpuSkeleton as CpuSkeletonRow;
use crate::generation::generate_traces;
use crate::memory::columns::Memory as MemoryRow;
use crate::ops::add::columns::Add as AddRow;
use crate::ops::blt_taken::columns::BltTaken as BltTakenRow;
use crate::program::columns::ProgramRom;
use crate::register::general::columns::Register as RegisterRow;
use crate::register::init::columns::RegisterInit as RegisterInitRow;
use crate::stark::mozak_stark::{all_kind, all_starks, MozakStark, TableKind, TableKindArray};
use crate::stark::utils::trace_rows_to_poly_values;
use crate::storage_device::columns::StorageDevice as StorageDeviceRow;

pub const D: usize = 2;
pub type S = MozakStark<F, D>;
pub type Traces = TableKindArray<Vec<PolynomialValues<F>>>;

pub const N_TABLES: usize = std::mem::size_of::<TableKindArray<u8>>();
pub fn kinds() -> Vec<TableKind> { all_kind!(|kind| kind).0.to_vec() }
pub fn traces_of(p: &Program, r: &ExecutionRecord<F>) -> Traces { generate_traces::<F, D>(p, r, &mut TimingTree::default()) }
pub fn rows_of<R: FromIterator<F>>(t: &Traces, k: TableKind) -> Vec<R> {
    let cols = &t[k];
    (0..cols[0].values.len()).map(|i| cols.iter().map(|c| c.values[i]).collect()).collect()
}
pub fn put_rows<R: IntoIterator<Item = F>>(t: &mut Traces, k: TableKind, rows: Vec<R>) { t[k] = trace_rows_to_poly_values(rows); }
pub fn height(t: &Traces, k: TableKind) -> usize { t[k][0].values.len() }
pub fn get(t: &Traces, k: TableKind, row: usize, col: usize) -> F { t[k][col].values[row] }
pub fn set(t: &mut Traces, k: TableKind, row: usize, col: usize, v: F) { t[k][col].values[row] = v; }
pub fn row_vec(t: &Traces, k: TableKind, row: usize) -> Vec<F> { t[k].iter().map(|c| c.values[row]).collect() }

/// What is wrong with a set of tables.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Viol { Row(usize, usize), Ctl(usize), Public(usize) }

fn eval_row<St: Stark<F, D>>(stark: &St, lv: &[F], nv: &[F], pis: &[F]) -> Vec<(Kind, F)> {
    let vars = <St::EvaluationFrame<F, F, 1> as StarkEvaluationFrame<F, F>>::from_values(lv, nv, pis);
    let mut c = ConstraintConsumer::<F>::new_collecting();
    stark.eval_packed_base(&vars, &mut c);
    c.collected()
}
pub struct Sys { pub stark: S, pub ctl_kinds: Vec<Vec<TableKind>> }
impl Default for Sys {
    fn default() -> Self {
        let stark = S::default();
        let ctl_kinds = stark.cross_table_lookups.iter().map(|c| c.looking_tables.iter().map(|t| t.kind).collect()).collect();
        Sys { stark, ctl_kinds }
    }
}
/// Which parts of the tables may differ from a set already known to satisfy everything.
#[derive(Clone, Default)]
pub struct Dirty(pub BTreeMap<usize, Option<Vec<usize>>>);
impl Dirty {
    pub fn all() -> Self { Dirty((0..N_TABLES).map(|k| (k, None)).collect()) }
    pub fn table(&mut self, k: TableKind) { self.0.insert(k as usize, None); }
    pub fn row(&mut self, k: TableKind, r: usize) {
        if let Some(v) = self.0.entry(k as usize).or_insert_with(|| Some(vec![])) { v.push(r) }
    }
    pub fn has(&self, k: TableKind) -> bool { self.0.contains_key(&(k as usize)) }
}
impl Sys {
    /// the constraints of one pair of rows that do not hold (index in order of emission)
    pub fn row_violations(&self, k: TableKind, t: &Traces, r: usize, entry: F) -> Vec<usize> {
        let n = height(t, k);
        let (lv, nv) = (row_vec(t, k, r), row_vec(t, k, (r + 1) % n));
        self.eval(k, &lv, &nv, entry).into_iter().enumerate().filter(|(_, (kind, v))| *v != F::ZERO && match kind {
            Kind::Always => true, Kind::Transition => r + 1 != n, Kind::First => r == 0, Kind::Last => r + 1 == n,
        }).map(|(i, _)| i).collect()
    }
    pub fn eval(&self, k: TableKind, lv: &[F], nv: &[F], entry: F) -> Vec<(Kind, F)> {
        let mut out = vec![];
        let pis = [entry];
        all_starks!(self.stark, |stark, kind| if kind as usize == k as usize {
            out = eval_row(stark, lv, nv, if k as usize == TableKind::CpuSkeleton as usize { &pis } else { &[] });
        });
        out
    }
    pub fn ctl_ok(&self, i: usize, t: &Traces) -> bool {
        let mut sums: BTreeMap<Vec<u64>, F> = BTreeMap::new();
        for table in &self.stark.cross_table_lookups[i].looking_tables {
            let filter = table.filter_column.to_field::<F>();
            let cols: Vec<_> = table.columns.iter().map(|c| c.to_field::<F>()).collect();
            for r in 0..height(t, table.kind) {
                let f = filter.eval_table(&t[table.kind], r);
                if f == F::ZERO { continue }
                let key: Vec<u64> = cols.iter().map(|c| c.eval_table(&t[table.kind], r).to_canonical_u64()).collect();
                *sums.entry(key).or_insert(F::ZERO) += f;
            }
        }
        sums.values().all(|v| *v == F::ZERO)
    }
    /// a prover's own idea of sub-table `i`: with another column, of zeros
    pub fn widen(&mut self, i: usize) { self.stark.public_sub_tables[i].table.columns.push(crate::linear_combination::Column::default()) }
    /// the values a proof would publish for sub-table `i`, if the filter admits a reading
    pub fn public_values(&self, i: usize, t: &Traces) -> Option<Vec<Vec<F>>> {
        let p = &self.stark.public_sub_tables[i];
        let f = p.table.filter_column.to_field::<F>();
        let ok = (0..height(t, p.table.kind)).all(|r| { let v = f.eval_table(&t[p.table.kind], r); v == F::ZERO || v == F::ONE });
        let v = p.get_values(t);
        (ok && v.len() == p.num_rows).then_some(v)
    }
    pub fn violations(&self, t: &Traces, entry: F, dirty: &Dirty, limit: usize) -> Vec<Viol> {
        let mut out = std::collections::BTreeSet::new();
        for k in kinds() {
            let Some(rows) = dirty.0.get(&(k as usize)) else { continue };
            let n = height(t, k);
            let mut at: Vec<usize> = match rows { None => (0..n).collect(), Some(v) => v.iter().flat_map(|r| [*r, (*r + n - 1) % n]).collect() };
            at.sort_unstable();
            at.dedup();
            for r in at {
                for i in self.row_violations(k, t, r, entry) { out.insert(Viol::Row(k as usize, i)); }
                if out.len() >= limit { return out.into_iter().collect() }
            }
        }
        for i in 0..self.ctl_kinds.len() {
            if self.ctl_kinds[i].iter().any(|k| dirty.has(*k)) && !self.ctl_ok(i, t) { out.insert(Viol::Ctl(i)); }
            if out.len() >= limit { return out.into_iter().collect() }
        }
        for i in 0..self.stark.public_sub_tables.len() {
            if dirty.has(self.stark.public_sub_tables[i].table.kind) && self.public_values(i, t).is_none() { out.insert(Viol::Public(i)); }
        }
        out.into_iter().collect()
    }
    pub fn name(&self, v: Viol) -> String {
        match v {
            Viol::Row(k, i) => format!("{:?}#{i}", kinds()[k]),
            Viol::Ctl(i) => format!("ctl#{i}:{:?}", self.ctl_kinds[i].last().unwrap()),
            Viol::Public(i) => format!("public#{i}"),
        }
    }
}

// ------------------------------------------------------------ dependent tables
/// Recompute the tables that merely tabulate what the others look up.
/// `deep` also recomputes the register and memory tables.  Panics where a value
/// cannot be tabulated at all (then no assignment of those tables exists).
pub fn rebuild(t: &mut Traces, deep: bool, dirty: &mut Dirty) {
    use TableKind::*;
    let cpu: Vec<CpuState<F>> = rows_of(t, Cpu);
    let add: Vec<AddRow<F>> = rows_of(t, Add);
    let blt: Vec<BltTakenRow<F>> = rows_of(t, BltTaken);
    if deep {
        let st = |k| rows_of::<StorageDeviceRow<F>>(t, k);
        let (z, zw, g) = crate::register::generation::generate_register_trace(
            &cpu, &add, &blt, &rows_of(t, Poseidon2Sponge), &st(StorageDevicePrivate), &st(StorageDevicePublic), &st(CallTape), &st(EventTape),
            &st(EventsCommitmentTape), &st(CastListCommitmentTape), &st(SelfProgIdTape), &rows_of::<RegisterInitRow<F>>(t, RegisterInit));
        put_rows(t, RegisterZeroRead, z);
        put_rows(t, RegisterZeroWrite, zw);
        put_rows(t, Register, g);
        for k in [RegisterZeroRead, RegisterZeroWrite, Register] { dirty.table(k) }
        rebuild_memory(t, dirty);
    }
    let mem: Vec<MemoryRow<F>> = rows_of(t, Memory);
    let reg: Vec<RegisterRow<F>> = rows_of(t, Register);
    put_rows(t, Xor, crate::xor::generation::generate_xor_trace(&cpu));
    put_rows(t, Bitshift, crate::bitshift::generation::generate_shift_amount_trace(&cpu));
    let rc = crate::rangecheck::generation::generate_rangecheck_trace::<F>(&cpu, &add, &blt, &mem, &reg);
    let u8s = crate::rangecheck_u8::generation::generate_rangecheck_u8_trace(&rc, &mem);
    put_rows(t, RangeCheck, rc);
    put_rows(t, RangeCheckU8, u8s);
    let rom: Vec<ProgramRom<F>> = rows_of(t, Program);
    let pm = crate::cpu::generation::generate_program_mult_trace(&rows_of::<CpuSkeletonRow<F>>(t, CpuSkeleton), &rom);
    put_rows(t, ProgramMult, pm);
    for k in [Xor, Bitshift, RangeCheck, RangeCheckU8, ProgramMult] { dirty.table(k) }
}
/// The memory table every looking table asks for, in the canonical order.
pub fn rebuild_memory(t: &mut Traces, dirty: &mut Dirty) {
    use crate::stark::mozak_stark::{IntoMemoryTable, Lookups, MemoryInitMemoryTable};
    let mut rows: Vec<MemoryRow<F>> = vec![];
    let init = MemoryInitMemoryTable::lookups();
    let mut writable: BTreeMap<u64, F> = BTreeMap::new();
    for table in init.looking_tables.iter().filter(|x| x.kind as usize != TableKind::Memory as usize) {
        let f = table.filter_column.to_field::<F>();
        let cols: Vec<_> = table.columns.iter().map(|c| c.to_field::<F>()).collect();
        for r in 0..height(t, table.kind) {
            if f.eval_table(&t[table.kind], r) != F::ONE { continue }
            let v: Vec<F> = cols.iter().map(|c| c.eval_table(&t[table.kind], r)).collect();
            writable.insert(v[1].to_canonical_u64(), v[0]);
            rows.push(MemoryRow { is_writable: v[0], addr: v[1], clk: v[2], is_init: F::ONE, value: v[3], ..Default::default() });
        }
    }
    for table in IntoMemoryTable::lookups().looking_tables.iter().filter(|x| x.kind as usize != TableKind::Memory as usize) {
        let f = table.filter_column.to_field::<F>();
        let cols: Vec<_> = table.columns.iter().map(|c| c.to_field::<F>()).collect();
        for r in 0..height(t, table.kind) {
            if f.eval_table(&t[table.kind], r) == F::ZERO { continue }
            let v: Vec<F> = cols.iter().map(|c| c.eval_table(&t[table.kind], r)).collect();
            rows.push(MemoryRow { clk: v[0], is_store: v[1], is_load: v[2], addr: v[3], value: v[4], ..Default::default() });
        }
    }
    rows.sort_by_key(|m| (m.addr.to_canonical_u64(), m.clk.to_canonical_u64(), m.is_store.to_canonical_u64()));
    for m in &mut rows { m.is_writable = writable.get(&m.addr.to_canonical_u64()).copied().unwrap_or(F::ONE); }
    let last = *rows.last().unwrap();
    let n = (rows.len() + 1).next_power_of_two().max(8);
    rows.resize(n, MemoryRow { is_store: F::ZERO, is_load: F::ZERO, is_init: F::ZERO, ..last });
    put_rows(t, TableKind::Memory, rows);
    dirty.table(TableKind::Memory);
}

// ------------------------------------------------------------ claims
#[derive(Clone, Debug, Default)]
pub struct Step {
    pub clk: u64, pub pc: F, pub new_pc: F, pub op1: F, pub op2: F, pub rd: F, pub dst: F, pub halt: F,
    pub reads: Vec<(F, F)>, pub writes: Vec<(F, F)>, pub dev: Vec<(usize, Vec<F>)>,
}
#[derive(Clone, Debug, Default)]
pub struct Claim { pub steps: Vec<Step>, pub regs: Vec<F>, pub publics: Vec<Vec<F>>, pub bad: Vec<String> }

pub const DEVICES: [TableKind; 7] = [TableKind::StorageDevicePrivate, TableKind::StorageDevicePublic, TableKind::CallTape, TableKind::EventTape,
    TableKind::EventsCommitmentTape, TableKind::CastListCommitmentTape, TableKind::SelfProgIdTape];

/// The execution a satisfying set of tables says took place.
pub fn claim(sys: &Sys, t: &Traces) -> Claim {
    use TableKind::*;
    let mut c = Claim::default();
    let mut at: BTreeMap<u64, Step> = BTreeMap::new();
    let mut put = |s: Step, bad: &mut Vec<String>| { let k = s.clk; if at.insert(k, s).is_some() { bad.push(format!("two instructions at {k}")) } };
    for r in rows_of::<CpuState<F>>(t, Cpu) {
        let running: F = r.inst.ops.into_iter().sum();
        if running == F::ZERO { continue }
        put(Step { clk: r.clk.to_canonical_u64(), pc: r.inst.pc, new_pc: r.new_pc, op1: r.op1_value, op2: r.op2_value_raw,
            rd: r.inst.rd_selected, dst: r.dst_value, halt: r.ecall_selectors.is_halt, ..Step::default() }, &mut c.bad);
    }
    for r in rows_of::<AddRow<F>>(t, Add) {
        if r.is_running == F::ZERO { continue }
        put(Step { clk: r.clk.to_canonical_u64(), pc: r.inst.pc, new_pc: r.inst.pc + F::from_canonical_u64(4), op1: r.op1_value, op2: r.op2_value,
            rd: r.inst.rd_selected, dst: r.dst_value, ..Step::default() }, &mut c.bad);
    }
    for r in rows_of::<BltTakenRow<F>>(t, BltTaken) {
        if r.is_running == F::ZERO { continue }
        put(Step { clk: r.clk.to_canonical_u64(), pc: r.inst.pc, new_pc: r.inst.imm_value, op1: r.op1_value, op2: r.op2_value, ..Step::default() }, &mut c.bad);
    }
    for m in rows_of::<MemoryRow<F>>(t, Memory) {
        if m.is_store == F::ZERO && m.is_load == F::ZERO { continue }
        match at.get_mut(&m.clk.to_canonical_u64()) {
            Some(s) => { if m.is_store == F::ONE { s.writes.push((m.addr, m.value)) } else { s.reads.push((m.addr, m.value)) } }
            None => c.bad.push(format!("memory access at idle clk {}", m.clk)),
        }
    }
    for (i, k) in DEVICES.into_iter().enumerate() {
        let rows: Vec<StorageDeviceRow<F>> = rows_of(t, k);
        let n = rows.len();
        for j in 0..n {
            if rows[j].ops.is_storage_device != F::ONE { continue }
            let mut data = vec![];
            for d in 1..n { let x = &rows[(j + d) % n]; if x.ops.is_memory_store != F::ONE { break } data.push(x.value) }
            match at.get_mut(&rows[j].clk.to_canonical_u64()) {
                Some(s) => s.dev.push((i, data)),
                None => c.bad.push("device access at an idle clk".into()),
            }
        }
    }
    c.steps = at.into_values().collect();
    // the skeleton is what orders the instructions: it must count 2, 3, 4, ... without a gap
    for (i, s) in c.steps.iter().enumerate() { if s.clk != i as u64 + 2 { c.bad.push(format!("clk {} at position {i}", s.clk)); break } }
    c.regs = vec![F::ZERO; 32];
    let mut seen = std::collections::BTreeSet::new();
    for r in rows_of::<RegisterInitRow<F>>(t, RegisterInit) {
        let a = r.reg_addr.to_canonical_u64();
        if a > 31 || (seen.contains(&a) && c.regs[a as usize] != r.value) { c.bad.push("register image".into()); continue }
        if a > 0 { c.regs[a as usize] = r.value; }
        seen.insert(a);
    }
    for i in 0..sys.stark.public_sub_tables.len() {
        c.publics.push(sys.public_values(i, t).unwrap_or_default().into_iter().map(|r| r[0]).collect());
    }
    c
}
/// A row of a table with its column names (for reports, and to find a column by name).
pub fn show_row(sys: &Sys, k: TableKind, row: &[F]) -> String {
    fn show<St: crate::columns_view::HasNamedColumns>(_: &St, row: &[F]) -> String where St::Columns: FromIterator<F> + std::fmt::Debug {
        format!("{:?}", row.iter().copied().collect::<St::Columns>())
    }
    let mut out = String::new();
    all_starks!(sys.stark, |stark, kind| if kind as usize == k as usize { out = show(stark, row); });
    out
}
pub fn width(t: &Traces, k: TableKind) -> usize { t[k].len() }
/// Every side of every cross-table lookup: table, columns, filter.
pub fn lookups(sys: &Sys) -> Vec<Vec<(TableKind, Vec<crate::linear_combination::ColumnSparse<F>>, crate::linear_combination::ColumnSparse<F>)>> {
    sys.stark.cross_table_lookups.iter().map(|c| c.looking_tables.iter()
        .map(|t| (t.kind, t.columns.iter().map(|c| c.to_field()).collect(), t.filter_column.to_field())).collect()).collect()
}
