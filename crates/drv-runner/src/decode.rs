use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use mozak_runner::decode::decode_instruction;
use mozak_runner::instruction::Instruction;
use serde_json::{json, Value};

use crate::util::{guard, w, word, Out, Rng};

pub fn ins_json(i: &Instruction) -> Value {
    json!({"op": format!("{:?}", i.op), "rd": i.args.rd, "rs1": i.args.rs1, "rs2": i.args.rs2, "imm": w(i.args.imm)})
}

/// What the specification's table says about one encoding class.
#[derive(Clone)]
struct Row { op: String, sys: bool, post: u8, rd: i32, rs1: i32, rs2: i32, src: [i32; 32] }

struct Table { rows: Vec<Row>, map: Vec<u16> } // map: opc(7) | f3(3) | f12(12) -> row+1 (0 = error)

fn load(path: &str) -> Table {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let mut rows: Vec<Row> = vec![];
    let mut map = vec![0u16; 1 << 22];
    for r in v["rows"].as_array().unwrap() {
        let f = &v["fmt"][r["fmt"].as_str().unwrap()];
        let src: Vec<i32> = v["imm"][f["imm"].as_str().unwrap()].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect();
        let g = |k: &str| f[k].as_i64().unwrap() as i32;
        rows.push(Row {
            op: r["op"].as_str().unwrap().into(),
            sys: r["fmt"] == "SYS",
            post: match f["post"].as_str().unwrap() { "id" => 0, "pc" => 1, "pow2" => 2, x => panic!("{x}") },
            rd: g("rd"), rs1: g("rs1"), rs2: g("rs2"),
            src: src.try_into().unwrap(),
        });
        let (o, k, f12) = (r["opc"].as_u64().unwrap(), r["f3"].as_u64().unwrap(), r["f12"].as_i64().unwrap());
        let range = if f12 < 0 { 0..4096u64 } else { f12 as u64..f12 as u64 + 1 };
        for x in range { map[(o << 15 | k << 12 | x) as usize] = rows.len() as u16; }
    }
    Table { rows, map }
}
fn field(word: u32, lsb: i32) -> u8 { if lsb < 0 { 0 } else { (word >> lsb & 31) as u8 } }
impl Table {
    fn expect(&self, pc: u32, word: u32) -> Option<(&str, u8, u8, u8, u32)> {
        let key = (word & 127) << 15 | (word >> 12 & 7) << 12 | word >> 20;
        let r = match self.map[key as usize] { 0 => return None, n => &self.rows[n as usize - 1] };
        if r.sys { return Some(("ECALL", 0, 10, 11, 0)); }
        let mut imm = 0u32;
        for (i, s) in r.src.iter().enumerate() { if *s >= 0 { imm |= (word >> s & 1) << i; } }
        let imm = match r.post { 0 => imm, 1 => pc.wrapping_add(imm), _ => 1 << imm };
        Some((&r.op, field(word, r.rd), field(word, r.rs1), field(word, r.rs2), imm))
    }
}
fn agrees(t: &Table, names: &std::collections::HashMap<u8, String>, pc: u32, word: u32) -> bool {
    match (t.expect(pc, word), decode_instruction(pc, word)) {
        (None, Err(e)) => e.pc == pc && e.instruction == word,
        (Some((op, rd, rs1, rs2, imm)), Ok(i)) =>
            names[&(i.op as u8)] == op && i.args.rd == rd && i.args.rs1 == rs1 && i.args.rs2 == rs2 && i.args.imm == imm,
        _ => false,
    }
}

/// Every 32-bit word (in steps of `stride`, starting at a seeded offset) against the table, at a pc that varies.
pub fn sweep(table: &str, out: &str, stride: u64, seed: u64) {
    let t = load(table);
    use mozak_runner::instruction::Op::*;
    let names: std::collections::HashMap<u8, String> = [ADD, SUB, XOR, OR, AND, SLL, SRL, SRA, SLT, SLTU, LB, LH, LW, LBU, LHU,
        SB, SH, SW, BEQ, BNE, BLT, BGE, BLTU, BGEU, JALR, ECALL, MUL, MULH, MULHU, MULHSU, DIV, DIVU, REM, REMU]
        .into_iter().map(|o| (o as u8, format!("{o:?}"))).collect();
    let threads = 8u64;
    let (count, ok) = (AtomicU64::new(0), AtomicU64::new(0));
    let bad: Mutex<Option<(u32, u32)>> = Mutex::new(None);
    std::thread::scope(|s| {
        for k in 0..threads {
            let (t, names, count, ok, bad) = (&t, &names, &count, &ok, &bad);
            s.spawn(move || {
                let mut r = Rng::new(seed.wrapping_add(k));
                let base = (1u64 << 32) / threads * k;
                let end = (1u64 << 32) / threads * (k + 1);
                let mut x = base + r.below(stride);
                let (mut n, mut m) = (0u64, 0u64);
                while x < end {
                    let wd = x as u32;
                    let pc = match x & 3 { 0 => 0, 1 => r.u32() & !3, 2 => 0xffff_fffcu32, _ => r.u32() };
                    n += 1;
                    match guard(|| agrees(t, names, pc, wd)) {
                        Ok(true) => { if t.map[((wd & 127) << 15 | (wd >> 12 & 7) << 12 | wd >> 20) as usize] != 0 { m += 1 } }
                        _ => { let mut b = bad.lock().unwrap(); if b.is_none() { *b = Some((pc, wd)) } break; }
                    }
                    x += if stride == 1 { 1 } else { 1 + r.below(2 * stride - 1) };
                    if n & 0xfffff == 0 && bad.lock().unwrap().is_some() { break }
                }
                count.fetch_add(n, Ordering::Relaxed);
                ok.fetch_add(m, Ordering::Relaxed);
            });
        }
    });
    let bad = bad.lock().unwrap().map(|(pc, wd)| json!({
        "pc": pc, "word": wd, "expected": format!("{:?}", t.expect(pc, wd)),
        "real": format!("{:?}", guard(|| decode_instruction(pc, wd))),
    }));
    std::fs::write(out, json!({"words": count.into_inner(), "instructions": ok.into_inner(), "bad": bad}).to_string()).unwrap();
}

/// Sampled words, decoded by the real code, for TLC to re-derive from the specification.
pub fn sample(out: &str, n: usize, seed: u64) {
    let mut r = Rng::new(seed ^ 0xdec0de);
    let mut o = Out::new(out);
    let opcodes = [3u32, 15, 19, 23, 35, 51, 55, 99, 103, 111, 115];
    for i in 0..n {
        let mut wd = r.u32();
        if i % 16 != 0 { wd = wd & !127 | opcodes[i % opcodes.len()]; }
        if wd & 127 == 51 || (wd & 0x307f == 0x1013) { if r.chance(7, 8) { wd = wd & 0x01ff_ffff | *r.pick(&[0u32, 1, 32]) << 25; } }
        if wd & 127 == 115 && r.chance(1, 2) { wd = 115 | *r.pick(&[0u32, 1, 0x302, 2, 0x102]) << 20; }
        if r.chance(1, 8) { wd ^= 1 << r.below(32) }
        let pc = word(&mut r);
        let res = guard(|| decode_instruction(pc, wd));
        let d = match &res {
            Ok(Ok(i)) => ins_json(i),
            Ok(Err(e)) if e.pc == pc && e.instruction == wd => json!({"op": "ERROR"}),
            x => json!({"op": "PANIC", "what": format!("{x:?}")}),
        };
        o.line(&json!({"pc": w(pc), "word": w(wd), "got": d}));
    }
    o.done();
}
