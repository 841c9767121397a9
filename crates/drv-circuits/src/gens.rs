//! Halting executions the constraint system is meant to prove.
use std::collections::BTreeMap;

use mozak_runner::instruction::Op;

use crate::exec::*;
use crate::util::{word, Rng};

/// machine code with forward branches, jumps, links and a counted loop
pub fn flow_case(r: &mut Rng) -> Case {
    let base = *r.pick(&[0u32, 4, 0x1000, 0x7fff_ffe0, 0x8000_0000, 0xffff_0000]);
    let n = 20 + r.below(16) as u32;
    let mut m = BTreeMap::new();
    // x31 counts a loop, x30 is its scratch
    let (from, to) = (r.below(6) as u32 + 2, r.below(8) as u32 + 10);
    m.insert(base, enc_i(0x13, 0, 31, 0, 1 + r.below(3) as u32));
    let mut skip = 0;
    for k in 1..n {
        if skip > 0 { skip -= 1; continue }
        let at = base + 4 * k;
        if k == to {
            m.insert(at, enc_i(0x13, 0, 31, 31, 0xfff));
            m.insert(at + 4, enc_b(1, 31, 0, 4 * (from as i32 - k as i32 - 1)));
            skip = 1;
            continue;
        }
        let (rd, rs1, rs2) = (r.below(30) as u32, r.below(31) as u32, r.below(31) as u32);
        // no jump over the loop's counter
        let room = if k < to { to - k } else { n - k };
        let far = |r: &mut Rng| 4 * r.range(1, i64::from(room.min(4))) as i32;
        if room > 4 && r.chance(1, 6) {
            let ahead = 12 + 4 * r.below(u64::from(room.min(5) - 3)) as i32;
            let off = *r.pick(&[0i32, 0, 4, -4, 2046, -2048]);
            let rs1 = rs1.max(1);
            m.insert(at, rs1 << 7 | 0x17);
            m.insert(at + 4, enc_i(0x13, 0, rs1, rs1, (ahead - off).clamp(-2048, 2047) as u32));
            let lo = (ahead - off) - (ahead - off).clamp(-2048, 2047);
            m.insert(at + 8, enc_i(0x67, 0, if r.chance(1, 2) { rs1 } else { rd }, rs1, (off + lo) as u32));
            skip = 2;
            continue;
        }
        let x = match r.below(12) {
            0 => enc_r(0, r.below(8) as u32, rd, rs1, rs2),
            1 => enc_r(1, r.below(8) as u32, rd, rs1, rs2),
            2 => enc_r(32, *r.pick(&[0, 5]), rd, rs1, rs2),
            3 => enc_i(0x13, *r.pick(&[0, 2, 3, 4, 6, 7]), rd, rs1, word(r)),
            4 => { let (f3, hi) = *r.pick(&[(1u32, 0u32), (5, 0), (5, 0x20)]); enc_i(0x13, f3, rd, rs1, hi << 5 | r.below(32) as u32) }
            5 => (word(r) & !0xfff) | rd << 7 | *r.pick(&[0x37u32, 0x17]),
            6 | 7 | 8 => { let f = far(r); enc_b(*r.pick(&[0, 1, 4, 5, 6, 7]), rs1, rs2, f) }
            9 => { let f = far(r); enc_j(rd, f) }
            10 => enc_i(0x03, *r.pick(&[0, 1, 2, 4, 5]), rd, rs1, r.range(-4, 4) as u32),
            _ => enc_s(*r.pick(&[0, 1, 2]), rs1, rs2, r.range(-4, 4) as u32),
        };
        m.insert(at, x);
    }
    for j in 0..4 { m.insert(base + 4 * (n + 2 * j), enc_i(0x13, 0, 10, 0, 0)); m.insert(base + 4 * (n + 2 * j) + 4, 0x73); }
    let mut c = Case::new(Text::Words(m), base);
    let same = word(r);
    c.regs = (0..32).map(|i| (i, if r.chance(1, 4) { base.wrapping_add(4 * r.below(8) as u32) } else if r.chance(1, 4) { same } else { word(r) })).collect();
    c
}
/// loads and stores of every size around a handful of addresses, then halt
pub fn mem_case(r: &mut Rng) -> Case {
    let near = *r.pick(&[0u32, 1, 0x100, 0x103, 0x7fff_fffe, 0xffff_fffd, 0xffff_ffff]);
    let mut p = vec![];
    for _ in 0..6 + r.below(14) {
        let op = *r.pick(&MEM);
        let at = near.wrapping_add(r.range(-6, 7) as u32);
        let v = r.below(8) as u8 + 20;
        if r.chance(1, 3) { p.push(ins(Op::ADD, v, 0, 0, word(r))) }
        let imm = *r.pick(&[0u32, 1, 0xffff_ffff, 0x7ff, 0x8000_0000]);
        p.push(ins(Op::ADD, 5, 0, 0, at.wrapping_sub(imm)));
        p.push(match op { Op::SB | Op::SH | Op::SW => ins(op, 0, v, 5, imm), _ => ins(op, r.below(10) as u8 + 20, 0, 5, imm) });
    }
    p.extend(halt());
    let mut c = Case::new(straight(0x4_0000, p), 0x4_0000);
    c.regs = (1..32).map(|i| (i, word(r))).collect();
    for _ in 0..8 { c.rw.insert(near.wrapping_add(r.range(-6, 7) as u32), r.next() as u8); }
    if r.chance(1, 3) { c.ro.insert(near.wrapping_add(r.range(6, 9) as u32), r.next() as u8); }
    c
}
/// reads of every tape and hashes; `part` reads commitments in pieces
pub fn tape_case(r: &mut Rng, part: bool, wrap: bool, odd: bool) -> Case {
    let near = if wrap { *r.pick(&[0xffff_ffe8u32, 0xffff_fff8, 8]) } else { *r.pick(&[0x200u32, 0x201, 0x2000, 0xffff_ff00, 0x7fff_fff0]) };
    let mut p = vec![];
    let mut left = vec![7u32, 8];
    for _ in 0..7 {
        let n = *r.pick(&[2u32, 3, 3, 4, 5, 6, 7, 8, 9, 9]);
        let n = if odd && r.chance(1, 3) { *r.pick(&[11u32, 12, 255, 256, 0xffff_ffff, 0x8000_0000]) } else { n };
        let mut len = match n { 3 => *r.pick(&[8u32, 8, 16, 24, 40]), 9 => *r.pick(&[0u32, 5, 32, 32, 40]), _ => if r.chance(1, 6) { 100 } else { r.below(14) as u32 } };
        if n == 7 || n == 8 {
            if part { len = *r.pick(&[1u32, 16, 31]) }
            // a commitment is published once
            else { let Some(i) = left.iter().position(|x| *x == n) else { continue }; left.remove(i); len = *r.pick(&[32u32, 32, 40, 1000]) }
        }
        p.push(ins(Op::ADD, 10, 0, 0, n));
        p.push(ins(Op::ADD, 11, 0, 0, near.wrapping_add(r.range(-6, 40) as u32)));
        p.push(ins(Op::ADD, 12, 0, 0, len));
        p.push(ins(Op::ADD, 13, 0, 0, near.wrapping_add(r.range(-6, 60) as u32)));
        p.push(mozak_runner::decode::ECALL);
        if r.chance(1, 3) { p.push(ins(*r.pick(&MEM), 20, 21, 11, r.below(6) as u32)); }
        if r.chance(1, 3) { p.push(ins(*r.pick(&MEM), 22, 23, 13, r.below(30) as u32)); }
    }
    p.extend(halt());
    let mut c = Case::new(straight(0x4_0000, p), 0x4_0000);
    for t in 0..4 { let n = *r.pick(&[0usize, 1, 3, 8, 17, 33]); c.tapes[t] = r.bytes(n); }
    for t in 0..3 { c.fixed[t] = r.bytes(32).try_into().unwrap(); }
    c.regs = (1..32).map(|i| (i, word(r))).collect();
    for _ in 0..6 { c.rw.insert(near.wrapping_add(r.range(-4, 40) as u32), r.next() as u8); }
    if r.chance(1, 4) { c.ro.insert(near.wrapping_add(200), r.next() as u8); }
    c
}
/// an indirect jump to an odd address
pub fn odd_case(r: &mut Rng) -> Case {
    let base = 0x1000u32;
    let mut m = BTreeMap::new();
    m.insert(base, 5 << 7 | 0x17);
    m.insert(base + 4, enc_i(0x13, 0, 5, 5, 13 + 4 * r.below(3) as u32));
    m.insert(base + 8, enc_i(0x67, 0, r.below(3) as u32, 5, 0));
    for k in 3..8 { m.insert(base + 4 * k, enc_i(0x13, 0, 6, 6, 1)); }
    m.insert(base + 32, enc_i(0x13, 0, 10, 0, 0));
    m.insert(base + 36, 0x73);
    Case::new(Text::Words(m), base)
}
