use std::collections::{BTreeMap, BTreeSet};

use im::hashmap::HashMap;
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::{Args, Instruction, Op};
use mozak_runner::state::{Aux, RawTapes, State, StorageDeviceOpcode};
use mozak_runner::vm::step;
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hashing::PlonkyPermutation;
use plonky2::hash::poseidon2::{Poseidon2Hash, Poseidon2Permutation};
use plonky2::plonk::config::{GenericHashOut, Hasher};
use serde_json::{json, Value};

use crate::decode::ins_json;
use crate::util::{guard, w, word, Out, Rng, CORNERS};

#[derive(Clone)]
pub enum Text { Words(BTreeMap<u32, u32>), Ins(BTreeMap<u32, Instruction>) }
#[derive(Clone)]
pub struct Case {
    pub text: Text,
    pub pc: u32,
    pub regs: Vec<(u8, u32)>,
    pub rw: BTreeMap<u32, u8>,
    pub ro: BTreeMap<u32, u8>,
    pub tapes: [Vec<u8>; 4],
    pub fixed: [[u8; 32]; 3],
    pub limit: usize,
}
impl Case {
    pub fn new(text: Text, pc: u32) -> Self {
        Case { text, pc, regs: vec![], rw: BTreeMap::new(), ro: BTreeMap::new(), tapes: Default::default(), fixed: [[0; 32]; 3], limit: 80 }
    }
}
pub fn ins(op: Op, rd: u8, rs1: u8, rs2: u8, imm: u32) -> Instruction { Instruction { op, args: Args { rd, rs1, rs2, imm } } }
pub fn straight(base: u32, prog: Vec<Instruction>) -> Text {
    Text::Ins(prog.into_iter().enumerate().map(|(i, x)| (base.wrapping_add(4 * i as u32), x)).collect())
}
pub const TN: [&str; 4] = ["private", "public", "call", "event"];
pub const FN: [&str; 3] = ["events_commitment", "cast_list_commitment", "self_prog_id"];

struct View { regs: [u32; 32], mem: BTreeMap<u32, u8>, ro: BTreeSet<u32>, pos: [usize; 4], pc: u32, clk: u64, halted: bool, fixed: Vec<Vec<u8>>, data: Vec<Vec<u8>> }
fn view(s: &State<F>) -> View {
    View {
        regs: s.registers,
        mem: s.memory.data.iter().map(|(a, b)| (*a, *b)).collect(),
        ro: s.memory.is_read_only.iter().copied().collect(),
        pos: [s.private_tape.read_index, s.public_tape.read_index, s.call_tape.read_index, s.event_tape.read_index],
        pc: s.get_pc(), clk: s.clk, halted: s.has_halted(),
        fixed: vec![s.events_commitment_tape.0.to_vec(), s.cast_list_commitment_tape.0.to_vec(), s.self_prog_id_tape.to_vec()],
        data: vec![s.private_tape.data.to_vec(), s.public_tape.data.to_vec(), s.call_tape.data.to_vec(), s.event_tape.data.to_vec()],
    }
}
fn aux_json(a: &Aux<F>, i: &Instruction, before: &State<F>) -> Value {
    let dev: Vec<Value> = a.storage_device_entry.iter().map(|e| json!({
        "addr": w(e.addr), "data": e.data,
        "tape": match e.op { StorageDeviceOpcode::None => "none", StorageDeviceOpcode::StorePrivate => "private",
            StorageDeviceOpcode::StorePublic => "public", StorageDeviceOpcode::StoreCallTape => "call",
            StorageDeviceOpcode::StoreEventTape => "event", StorageDeviceOpcode::StoreEventsCommitmentTape => "events_commitment",
            StorageDeviceOpcode::StoreCastListCommitmentTape => "cast_list_commitment",
            StorageDeviceOpcode::StoreSelfProgIdTape => "self_prog_id" },
    })).collect();
    let hash: Vec<Value> = a.poseidon2.iter().map(|e| {
        // the sponge's rows: input blocks, capacity chaining, each output the permutation of its preimage
        let mut prev = [F::ZERO; 12];
        let n = e.sponge_data.len();
        let mut ok = n as u64 * 8 == u64::from(e.len);
        for (k, row) in e.sponge_data.iter().enumerate() {
            for j in 0..8 {
                let addr = e.addr.wrapping_add(8 * k as u32 + j as u32);
                ok &= row.preimage[j].to_canonical_u64() == u64::from(before.load_u8(addr));
            }
            ok &= row.preimage[8..] == prev[8..];
            let mut p = Poseidon2Permutation::<F>::new(row.preimage);
            p.permute();
            ok &= p.as_ref() == row.output;
            ok &= row.gen_output == F::from_bool(k + 1 == n);
            prev = row.output;
        }
        json!({"addr": w(e.addr), "out": w(e.output_addr), "len": w(e.len), "sponge_ok": ok})
    }).collect();
    json!({"dst": w(a.dst_val), "new_pc": w(a.new_pc), "halt": a.will_halt, "op1": w(a.op1), "op2": w(a.op2), "op2_raw": w(a.op2_raw),
        "mem": a.mem.iter().map(|m| json!({"addr": w(m.addr), "raw": w(m.raw_value)})).collect::<Vec<_>>(),
        "used": a.mem_addresses_used.iter().map(|x| w(*x)).collect::<Vec<_>>(),
        "hash": hash, "dev": dev, "ins": ins_json(i)})
}
fn step_json(b: &View, a: &View, aux: Value) -> Value {
    let regs: Vec<Value> = (0..32).filter(|i| a.regs[*i] != b.regs[*i]).map(|i| json!([i, w(a.regs[i])])).collect();
    let mut mem: Vec<Value> = a.mem.iter().filter(|(k, v)| b.mem.get(k) != Some(*v)).map(|(k, v)| json!([w(*k), v])).collect();
    // a byte that vanished from memory can only be explained if the specification has it absent too
    mem.extend(b.mem.keys().filter(|k| !a.mem.contains_key(k)).map(|k| json!([w(*k), 256])));
    json!({"ev": "step", "regs": regs, "mem": mem, "pc": w(a.pc), "clk": a.clk, "halted": a.halted,
        "pos": TN.iter().zip(a.pos).map(|(n, p)| ((*n).to_string(), json!(p))).collect::<serde_json::Map<_, _>>(),
        "ro_same": a.ro == b.ro && a.fixed == b.fixed && a.data == b.data, "aux": aux})
}

pub struct Rec { pub lines: Vec<Value>, pub hashes: BTreeMap<Vec<u8>, Vec<u8>>, pub executed: Vec<String> }

pub fn program_of(c: &Case) -> Program {
    match &c.text {
        Text::Words(m) => {
            let p = Program::from(m.iter().map(|(a, b)| (*a, *b)).collect::<HashMap<u32, u32>>());
            Program { entry_point: c.pc, rw_memory: Data(c.rw.iter().map(|(a, b)| (*a, *b)).collect()),
                      ro_memory: Data(c.ro.iter().map(|(a, b)| (*a, *b)).collect()), ..p }
        }
        Text::Ins(m) => Program { entry_point: c.pc, ..Program::create(
            &c.ro.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(),
            &c.rw.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(),
            Code(m.iter().map(|(a, i)| (*a, Ok(*i))).collect())) },
    }
}
pub fn raw_tapes(c: &Case) -> RawTapes {
    RawTapes {
        private_tape: c.tapes[0].clone(), public_tape: c.tapes[1].clone(), call_tape: c.tapes[2].clone(), event_tape: c.tapes[3].clone(),
        events_commitment_tape: c.fixed[0], cast_list_commitment_tape: c.fixed[1], self_prog_id_tape: c.fixed[2],
    }
}
pub fn record(c: &Case, whole: bool, rec: &mut Rec) {
    let code: Vec<Value> = match &c.text {
        Text::Words(m) => m.iter().map(|(a, x)| json!([w(*a), {"word": w(*x)}])).collect(),
        Text::Ins(m) => m.iter().map(|(a, x)| json!([w(*a), ins_json(x)])).collect(),
    };
    let mut tapes = serde_json::Map::new();
    for i in 0..4 { tapes.insert(TN[i].into(), json!(c.tapes[i])); }
    for i in 0..3 { tapes.insert(FN[i].into(), json!(c.fixed[i])); }
    let mut regs = [0u32; 32];
    for (i, v) in &c.regs { if *i != 0 { regs[*i as usize] = *v } }
    let program = program_of(c);
    let mut s: State<F> = State::new(program.clone(), raw_tapes(c));
    for (i, v) in &c.regs { s = s.set_register_value(*i, *v); }
    let v0 = view(&s);
    let seen_ok = v0.regs == regs;
    rec.lines.push(json!({"ev": "boot", "code": code, "pc": w(c.pc), "regs": regs.iter().map(|x| w(*x)).collect::<Vec<_>>(),
        "rw": c.rw.iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>(),
        "ro": c.ro.iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>(), "tapes": tapes,
        "seen": {"clk": v0.clk, "pc": w(v0.pc), "halted": v0.halted || !seen_ok || v0.pos != [0; 4],
                 "mem": v0.mem.iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>(),
                 "ro": v0.ro.iter().map(|a| w(*a)).collect::<Vec<_>>()}}));
    let s0 = s.clone();
    let start = rec.lines.len();
    let mut why = "limit";
    let mut msg: Option<Vec<u8>> = None;
    for _ in 0..c.limit {
        if s.has_halted() { why = "halted"; break; }
        if s.get_register_value(10) == 3 && matches!(program.ro_code.get_instruction(s.get_pc()), Some(Ok(i)) if i.op == Op::ECALL) {
            let (p, n) = (s.get_register_value(11), s.get_register_value(12));
            if n > 0 && n <= 1024 && n % 8 == 0 {
                let inp: Vec<u8> = (0..n).map(|i| s.load_u8(p.wrapping_add(i))).collect();
                let d = Poseidon2Hash::hash_no_pad(&inp.iter().map(|b| F::from_canonical_u8(*b)).collect::<Vec<_>>()).to_bytes();
                rec.hashes.insert(inp, d);
            }
        }
        match guard(|| s.clone().execute_instruction(&program)) {
            Ok(Ok((aux, i, n))) => {
                rec.executed.push(format!("{:?}", i.op));
                let aj = aux_json(&aux, &i, &s);
                rec.lines.push(step_json(&view(&s), &view(&n), aj));
                s = n;
            }
            Ok(Err(_)) => { why = "abort"; break; }
            Err(m) => { why = "abort"; msg = m.strip_prefix("VM panicked with msg: ").map(|x| x.as_bytes().to_vec()); break; }
        }
    }
    if why == "limit" && s.has_halted() { why = "halted" }
    // the whole-run record must be exactly the single-step history
    if whole && why != "limit" {
        let mut again = vec![];
        let mut why2 = "abort";
        if let Ok(Ok(r)) = guard(|| step(&program, s0)) {
            why2 = "halted";
            let n = r.executed.len();
            for k in 0..n {
                let row = &r.executed[k];
                let after = if k + 1 < n { &r.executed[k + 1].state } else { &r.last_state };
                again.push(step_json(&view(&row.state), &view(after), aux_json(&row.aux, &row.instruction, &row.state)));
            }
        }
        if why2 == why && why == "halted" {
            rec.lines.truncate(start);
            rec.lines.extend(again);
        } else if why2 != why { why = "inconsistent" }
    }
    let mut stop = json!({"ev": "stop", "why": why});
    if let Some(m) = msg { stop["msg"] = json!(m); }
    rec.lines.push(stop);
}

// ---------------------------------------------------------------- generators
pub const ALU: [Op; 18] = [Op::ADD, Op::SUB, Op::XOR, Op::OR, Op::AND, Op::SLL, Op::SRL, Op::SRA, Op::SLT, Op::SLTU,
    Op::MUL, Op::MULH, Op::MULHU, Op::MULHSU, Op::DIV, Op::DIVU, Op::REM, Op::REMU];
pub const BR: [Op; 6] = [Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::BLTU, Op::BGEU];
pub const MEM: [Op; 8] = [Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU, Op::SB, Op::SH, Op::SW];
pub fn halt() -> Vec<Instruction> { vec![ins(Op::ADD, 10, 0, 0, 0), mozak_runner::decode::ECALL] }

/// every ALU operation and branch on one operand pair
pub fn pair_case(a: u32, b: u32, r: &mut Rng) -> Case {
    let mut p: Vec<Instruction> = ALU.iter().map(|o| ins(*o, 3 + r.below(20) as u8, 1, 2, 0)).collect();
    for o in BR { let here = 4 * p.len() as u32; p.push(ins(o, 0, 1, 2, here + 8)); p.push(ins(Op::ADD, 30, 30, 0, 1)); }
    p.extend(halt());
    let mut c = Case::new(straight(0, p), 0);
    c.regs = vec![(1, a), (2, b)];
    c
}
pub fn enc_r(f7: u32, f3: u32, rd: u32, rs1: u32, rs2: u32) -> u32 { f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | 0x33 }
pub fn enc_i(opc: u32, f3: u32, rd: u32, rs1: u32, imm: u32) -> u32 { (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | opc }
pub fn enc_b(f3: u32, rs1: u32, rs2: u32, off: i32) -> u32 {
    let o = off as u32;
    (o >> 12 & 1) << 31 | (o >> 5 & 63) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (o >> 1 & 15) << 8 | (o >> 11 & 1) << 7 | 0x63
}
pub fn enc_j(rd: u32, off: i32) -> u32 {
    let o = off as u32;
    (o >> 20 & 1) << 31 | (o >> 1 & 0x3ff) << 21 | (o >> 11 & 1) << 20 | (o >> 12 & 0xff) << 12 | rd << 7 | 0x6f
}
pub fn enc_s(f3: u32, rs1: u32, rs2: u32, imm: u32) -> u32 { (imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23 }

/// random raw machine code: arithmetic, shifts by immediate, lui/auipc, branches and jumps (forwards and back)
pub fn raw_case(r: &mut Rng, with_mem: bool) -> Case {
    let base = *r.pick(&[0u32, 4, 0x1000, 0x2_0000, 0x7fff_ffe0, 0x8000_0000, 0xffff_0000]);
    let n = 14 + r.below(20) as u32;
    let mut m = BTreeMap::new();
    let mut skip = 0;
    for k in 0..n {
        if skip > 0 { skip -= 1; continue }
        let (rd, rs1, rs2) = (r.below(32) as u32, r.below(32) as u32, r.below(32) as u32);
        if rs1 != 0 && k + 6 < n && r.chance(1, 9) {
            // an indirect jump through a register, which may also be the link
            let ahead = 12 + 4 * r.below(3) as i32;
            let off = *r.pick(&[0i32, 0, 0, 4, -4, 1, 2046, -2048]);
            m.insert(base + 4 * k, rs1 << 7 | 0x17);
            m.insert(base + 4 * k + 4, enc_i(0x13, 0, rs1, rs1, (ahead - off + r.below(2) as i32).clamp(-2048, 2047) as u32));
            m.insert(base + 4 * k + 8, enc_i(0x67, 0, if r.chance(1, 2) { rs1 } else { rd }, rs1, off as u32));
            skip = 2;
            continue;
        }
        let x = match r.below(if with_mem { 13 } else { 10 }) {
            0 | 1 => enc_r(0, r.below(8) as u32, rd, rs1, rs2),
            2 | 3 => enc_r(1, r.below(8) as u32, rd, rs1, rs2),
            4 => enc_r(32, *r.pick(&[0, 5]), rd, rs1, rs2),
            5 => enc_i(0x13, *r.pick(&[0, 2, 3, 4, 6, 7]), rd, rs1, word(r)),
            6 => { let (f3, hi) = *r.pick(&[(1u32, 0u32), (5, 0), (5, 0x20)]); enc_i(0x13, f3, rd, rs1, hi << 5 | r.below(32) as u32) }
            7 => (word(r) & !0xfff) | rd << 7 | *r.pick(&[0x37u32, 0x17]),
            8 => enc_b(*r.pick(&[0, 1, 4, 5, 6, 7]), rs1, rs2, 4 * (r.range(-3, 4) as i32)),
            9 => if r.chance(1, 2) { enc_j(rd, 4 * (r.range(-2, 4) as i32)) }
                 else { enc_i(0x67, 0, rd, 0, base.wrapping_add(4 * r.below(u64::from(n)) as u32).wrapping_add(r.below(2) as u32)) },
            10 => enc_i(0x03, *r.pick(&[0, 1, 2, 4, 5]), rd, rs1, r.range(-4, 4) as u32),
            _ => enc_s(*r.pick(&[0, 1, 2]), rs1, rs2, r.range(-4, 4) as u32),
        };
        m.insert(base + 4 * k, x);
    }
    m.insert(base + 4 * n, enc_i(0x13, 0, 10, 0, 0));
    m.insert(base + 4 * n + 4, 0x73);
    let mut c = Case::new(Text::Words(m), base);
    c.regs = (0..32).map(|i| (i, if r.chance(1, 4) { base.wrapping_add(4 * r.below(8) as u32) } else { word(r) })).collect();
    c
}
/// decoded instructions using register *and* immediate operands together, as the prover's tests do
pub fn ins_case(r: &mut Rng) -> Case { ins_case_of(r, 30) }
fn ins_case_of(r: &mut Rng, n: usize) -> Case {
    let base = if n > 60 { 0x40 } else { *r.pick(&[0u32, 0x40, 0xffff_ff00]) };
    let mut p = vec![];
    for k in 0..n {
        let (rd, a, b) = (r.below(32) as u8, r.below(32) as u8, r.below(32) as u8);
        let k = k as u32;
        p.push(match r.below(8) {
            0 => { let o = *r.pick(&BR); ins(o, 0, a, b, base + 4 * (k + 1 + r.below(3) as u32)) }
            1 => if r.chance(1, 2) { ins(Op::JALR, rd, 0, 0, (base + 4 * (k + 1 + r.below(3) as u32)) | r.below(2) as u32) } else { ins(*r.pick(&ALU), rd, a, b, 0) },
            2 | 3 => ins(*r.pick(&ALU), rd, a, b, 0),
            _ => ins(*r.pick(&ALU), rd, a, b, word(r)),
        });
    }
    for _ in 0..3 { p.extend(halt()); }
    let mut c = Case::new(straight(base, p), base);
    c.regs = (0..32).map(|i| (i, word(r))).collect();
    c.limit = 80.max(2 * n);
    c
}
/// many rounds of the same few instructions
fn loop_case(r: &mut Rng) -> Case {
    let base = *r.pick(&[0u32, 0x1000, 0x7fff_ff80]);
    let n = 200 + r.below(320) as u32;
    let mut p = vec![ins(Op::ADD, 5, 0, 0, 0), ins(Op::ADD, 6, 0, 0, n)];
    for _ in 0..1 + r.below(3) { p.push(ins(*r.pick(&ALU), 8 + r.below(20) as u8, r.below(32) as u8, r.below(32) as u8, if r.chance(1, 2) { word(r) } else { 0 })); }
    if r.chance(1, 2) { p.push(ins(*r.pick(&[Op::SB, Op::SH, Op::SW]), 0, 5, 5, word(r))); }
    p.push(ins(Op::ADD, 5, 5, 0, 1));
    p.push(ins(*r.pick(&[Op::BNE, Op::BLT, Op::BLTU]), 0, 5, 6, base + 8));
    p.extend(halt());
    let limit = 8 * n as usize + 50;
    let mut c = Case::new(straight(base, p), base);
    c.regs = (0..32).map(|i| (i, word(r))).collect();
    c.limit = limit;
    c
}
/// long tapes, long reads, long inputs to hashes
fn long_case(r: &mut Rng, hash: bool, huge: bool) -> Case {
    let mut p = vec![];
    let n = if huge { 4 } else { 12 };
    for k in 0..n {
        let call = *r.pick(&[2u32, 4, 5, 6, 7, 8, 9]);
        let call = if huge { 2 + 2 * u32::from(hash) } else { call };
        let len = if huge && k == 0 { 65_500 } else if huge { *r.pick(&[30u32, 40, 100]) } else { *r.pick(&[1u32, 31, 33, 100, 127, 129, 255, 256, 257, 300]) };
        let at = if huge && k > 0 { 0x4_0000 } else { 0x1000 + r.below(64) as u32 };
        p.extend([ins(Op::ADD, 10, 0, 0, call), ins(Op::ADD, 11, 0, 0, at), ins(Op::ADD, 12, 0, 0, len), mozak_runner::decode::ECALL]);
        if hash && !huge {
            let len = *r.pick(&[72u32, 128, 248, 256, 264, 512, 1024]);
            p.extend([ins(Op::ADD, 10, 0, 0, 3), ins(Op::ADD, 11, 0, 0, 0x1000 + r.below(64) as u32), ins(Op::ADD, 12, 0, 0, len), ins(Op::ADD, 13, 0, 0, 0x1000 + r.below(1500) as u32), mozak_runner::decode::ECALL]);
        }
        if r.chance(1, 2) { p.push(ins(Op::LW, 20, 0, 0, 0x1000 + r.below(400) as u32)); }
    }
    p.extend(halt());
    let mut c = Case::new(straight(0, p), 0);
    for t in 0..4 { let n = if huge { 65_600 } else { *r.pick(&[255usize, 256, 257, 400, 700]) }; if !huge || t == usize::from(hash) { c.tapes[t] = r.bytes(n); } }
    for t in 0..3 { c.fixed[t] = r.bytes(32).try_into().unwrap(); }
    c.limit = 150;
    c
}
fn bases(r: &mut Rng) -> u32 { *r.pick(&[0u32, 1, 2, 3, 0x100, 0x101, 0x102, 0x103, 0x7fff_fffe, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff]) }
/// loads and stores around a handful of addresses, some of them read-only, some defined in both images
pub fn mem_case(r: &mut Rng) -> Case {
    let mut p = vec![];
    let near = bases(r);
    let protect = r.chance(2, 5);
    for _ in 0..25 {
        let o = *r.pick(&MEM);
        let base = 1 + r.below(4) as u8;
        let off = r.range(-5, 9) as u32;
        let store = matches!(o, Op::SB | Op::SH | Op::SW);
        p.push(if store { ins(o, 0, 5 + r.below(10) as u8, base, off) } else { ins(o, r.below(32).max(if r.chance(1, 8) { 0 } else { 5 }) as u8, 0, base, off) });
        if r.chance(1, 8) { p.push(ins(Op::ADD, 5 + r.below(10) as u8, 0, 0, word(r))); }
    }
    p.extend(halt());
    let mut c = Case::new(straight(0, p), 0);
    c.regs = (1..5).map(|i| (i, near.wrapping_add(r.range(-3, 3) as u32))).collect();
    c.regs.extend((5..32).map(|i| (i, word(r))));
    for _ in 0..r.below(12) { let a = near.wrapping_add(r.range(-8, 12) as u32); c.rw.insert(a, r.next() as u8); }
    if protect { for _ in 0..1 + r.below(4) { let a = near.wrapping_add(r.range(-10, 14) as u32); c.ro.insert(a, r.next() as u8); } }
    c
}
/// self-modifying: the text is also data; storing over it must not change what executes
pub fn selfmod_case(r: &mut Rng) -> Case {
    let target = 4 * (2 + r.below(6) as u32);
    let mut m = BTreeMap::new();
    let mut k = 0u32;
    let mut put = |m: &mut BTreeMap<u32, u32>, x: u32| { m.insert(k, x); k += 4; };
    put(&mut m, enc_i(0x13, 0, 5, 0, target));
    put(&mut m, enc_s(*r.pick(&[0, 1, 2]), 5, 6, r.below(4) as u32));
    for i in 0..8 { put(&mut m, enc_i(0x13, 0, 7 + i, 7 + i, 1 + i)); }
    put(&mut m, enc_i(0x03, 2, 20, 5, 0));
    put(&mut m, enc_i(0x13, 0, 6, 6, r.u32()));
    put(&mut m, enc_i(0x13, 0, 21, 21, 1));
    put(&mut m, enc_i(0x13, 0, 22, 0, 2));
    let here = 4 * m.len() as u32;
    put(&mut m, enc_b(4, 21, 22, 4 - here as i32)); // loop back over the overwritten text once
    put(&mut m, enc_i(0x13, 0, 10, 0, 0));
    put(&mut m, 0x73);
    let mut c = Case::new(Text::Words(m.clone()), 0);
    for (a, x) in &m { for (i, b) in x.to_le_bytes().iter().enumerate() { if r.chance(3, 4) || c.ro.is_empty() { c.rw.insert(a + i as u32, *b); } } }
    if r.chance(1, 4) { for (a, x) in &m { for (i, b) in x.to_le_bytes().iter().enumerate() { c.ro.insert(a + i as u32, *b); } } }
    c.regs = vec![(6, r.u32())];
    c
}
/// environment calls: tape reads of all kinds, hashing, unknown numbers, guest panic, halt
pub fn ecall_case(r: &mut Rng, kind: u64) -> Case {
    let mut p = vec![];
    let near = *r.pick(&[0x200u32, 0x200, 0x2000, 0xffff_ffe8, 0xffff_fff8, 0]);
    for _ in 0..8 {
        let n = match kind {
            0 => *r.pick(&[2u32, 4, 5, 6, 7, 8, 9]),
            1 => 3,
            _ => *r.pick(&[2u32, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255, 256, 258, 0x0300_0000, 0xffff_ffff, 0x8000_0000]),
        };
        let big = r.chance(1, 6);
        let len = if n == 3 { *r.pick(&[8u32, 8, 16, 24, 32, 40, 64]) } else if n == 10 { r.below(20) as u32 } else if big { word(r) } else { r.below(12) as u32 };
        let len = if n >= 2 && n <= 9 && n != 3 && near >= 0xffff_0000 && len > 16 { len % 40 } else { len };
        p.push(ins(Op::ADD, 10, 0, 0, n));
        p.push(ins(Op::ADD, 11, 0, 0, near.wrapping_add(r.range(-6, 40) as u32)));
        p.push(ins(Op::ADD, 12, 0, 0, len));
        p.push(ins(Op::ADD, 13, 0, 0, near.wrapping_add(r.range(-6, 60) as u32)));
        p.push(mozak_runner::decode::ECALL);
        if r.chance(1, 4) { p.push(ins(*r.pick(&MEM), 20, 21, 11, r.below(6) as u32)); }
    }
    if r.chance(1, 5) {
        p.push(ins(Op::ADD, 10, 0, 0, *r.pick(&[1u32, 3])));
        let whole = r.chance(1, 3);
        p.push(ins(Op::ADD, 11, 0, 0, if whole { 0x4000 } else { 0x3ffd + r.below(17) as u32 }));
        p.push(ins(Op::ADD, 12, 0, 0, if whole { *r.pick(&[0u32, 3, 5, 13]) } else { r.below(20) as u32 }));
        p.push(mozak_runner::decode::ECALL);
    }
    p.extend(halt());
    p.push(ins(Op::ADD, 9, 9, 0, 1));
    let mut c = Case::new(straight(0, p), 0);
    for t in 0..4 { let n = *r.pick(&[0usize, 1, 3, 8, 17, 33]); c.tapes[t] = r.bytes(n); }
    for t in 0..3 { c.fixed[t] = r.bytes(32).try_into().unwrap(); }
    c.regs = (1..32).map(|i| (i, word(r))).collect();
    for k in 0..13u32 { c.rw.insert(0x4000 + k, b"hello, wo\xc3\xa9d!"[k as usize]); }
    if r.chance(1, 3) { for _ in 0..3 { c.rw.insert(0x4000 + r.below(13) as u32, if r.chance(1, 2) { 0 } else { r.next() as u8 }); } }
    for _ in 0..6 { c.rw.insert(near.wrapping_add(r.range(-4, 40) as u32), r.next() as u8); }
    if r.chance(1, 4) { c.ro.insert(near.wrapping_add(r.range(-8, 60) as u32), r.next() as u8); }
    c
}
/// programs that run off the text, into an invalid word, or end in odd places
fn fall_case(r: &mut Rng) -> Case {
    let mut m = BTreeMap::new();
    for k in 0..4u32 { m.insert(4 * k, enc_i(0x13, 0, 5, 5, 1)); }
    match r.below(4) {
        0 => { m.insert(16, *r.pick(&[0u32, 0xffff_ffff, 0x0000_0007, 0x2000_1013])); }
        1 => { m.insert(16, enc_i(0x67, 0, 1, 0, 2)); }
        2 => { m.insert(16, enc_j(1, 4096)); }
        _ => {}
    }
    Case::new(Text::Words(m), 0)
}

fn gen(focus: &str, k: usize, r: &mut Rng) -> Case {
    // rarely, something of another size
    if focus == "tape" && k < 2 { return long_case(r, k == 1, true) }
    if k % 97 == 96 { match focus {
        "alu" if k < CORNERS.len() * CORNERS.len() => {}
        "alu" | "alu-small" => return ins_case_of(r, 280),
        "flow" | "record" => return if k % 2 == 0 { loop_case(r) } else { ins_case_of(r, 280) },
        "tape" => return long_case(r, false, false),
        "hash" => return long_case(r, true, false),
        _ => {}
    } }
    match focus {
        "alu" => {
            let n = CORNERS.len();
            if k < n * n { pair_case(CORNERS[k / n], CORNERS[k % n], r) }
            else { match r.below(4) { 0 => pair_case(word(r), word(r), r), 1 => ins_case(r), _ => raw_case(r, false) } }
        }
        "alu-small" => match r.below(6) {
            0 | 1 => pair_case(word(r), word(r), r), 2 | 3 => ins_case(r), _ => raw_case(r, false) },
        "flow" => if r.chance(1, 8) { fall_case(r) } else { raw_case(r, false) },
        "mem" => mem_case(r),
        "protect" => if r.chance(1, 4) { selfmod_case(r) } else if r.chance(1, 3) {
                // environment calls that write across a boundary of read-only memory
                let kind = r.below(2);
                let mut c = ecall_case(r, kind);
                let at: Vec<u32> = match &c.text { Text::Ins(m) => m.values().filter(|i| i.op == Op::ADD && (i.args.rd == 11 || i.args.rd == 13)).map(|i| i.args.imm).collect(), Text::Words(_) => vec![] };
                for _ in 0..2 { let a = r.pick(&at).wrapping_add(r.range(-2, 36) as u32); c.ro.insert(a, r.next() as u8); }
                c
            } else { let mut c = mem_case(r);
            if c.ro.is_empty() { let b = c.regs[0].1; for _ in 0..3 { c.ro.insert(b.wrapping_add(r.range(-8, 12) as u32), r.next() as u8); } } c },
        "tape" => ecall_case(r, 0),
        "hash" => ecall_case(r, 1),
        "ecall" => ecall_case(r, 2),
        "record" => match r.below(8) {
            0 => pair_case(word(r), word(r), r), 1 => ins_case(r), 2 => raw_case(r, true), 3 => mem_case(r), 4 => selfmod_case(r),
            5 => ecall_case(r, 0), 6 => ecall_case(r, 1), _ => ecall_case(r, 2),
        },
        x => panic!("{x}"),
    }
}

/// `shards` files `out.N`, `cases` programs in all
pub fn main(focus: &str, out: &str, cases: usize, seed: u64, shards: usize) {
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    for s in 0..shards {
        let mut rec = Rec { lines: vec![], hashes: BTreeMap::new(), executed: vec![] };
        for k in (0..cases).filter(|k| k % shards == s) {
            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
            let c = gen(focus, k, &mut r);
            record(&c, focus == "record", &mut rec);
        }
        let mut o = Out::new(&format!("{out}.{s}"));
        o.line(&json!({"ev": "hashes", "table": rec.hashes.iter().map(|(i, d)| json!({"inp": i, "out": d})).collect::<Vec<_>>()}));
        for l in &rec.lines {
            o.line(l);
            *stats.entry(format!("ev:{}", l["ev"].as_str().unwrap())).or_default() += 1;
            if let Some(y) = l["why"].as_str() { *stats.entry(format!("stop:{y}")).or_default() += 1; }
        }
        for e in rec.executed { *stats.entry(format!("op:{e}")).or_default() += 1; }
        o.done();
    }
    println!("{}", json!(stats));
}
