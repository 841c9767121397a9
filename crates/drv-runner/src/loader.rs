//! Executable files and images, as the real loader turns them into programs.
use std::collections::BTreeMap;

use im::hashmap::HashMap;
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::state::{RawTapes, State};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use serde_json::{json, Value};

use crate::decode::ins_json;
use crate::util::{guard, w, word, Out, Rng};

fn bytes_json(m: &HashMap<u32, u8>) -> Value {
    let m: BTreeMap<u32, u8> = m.iter().map(|(a, b)| (*a, *b)).collect();
    json!(m.iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>())
}
fn code_json(c: &Code) -> Value {
    let m: BTreeMap<u32, Value> = c.0.iter().map(|(a, i)| (*a, match i {
        Ok(i) => ins_json(i),
        Err(_) => json!({"op": "ERROR"}),
    })).collect();
    json!(m.iter().map(|(a, i)| json!([w(*a), i])).collect::<Vec<_>>())
}
fn program_json(p: &Program) -> Value {
    let s: State<F> = State::new(p.clone(), RawTapes::default());
    let t: State<F> = State::from(p.clone());
    let same = t.get_pc() == s.get_pc() && t.memory.data == s.memory.data && t.memory.is_read_only == s.memory.is_read_only && t.registers == s.registers;
    let mut fixed: Vec<u32> = s.memory.is_read_only.iter().copied().collect();
    fixed.sort();
    json!({"ok": true, "entry": w(p.entry_point), "ro": bytes_json(&p.ro_memory.0), "rw": bytes_json(&p.rw_memory.0), "code": code_json(&p.ro_code),
        "boot": {"pc": w(s.get_pc()), "mem": bytes_json(&s.memory.data), "fixed": fixed.into_iter().map(w).collect::<Vec<_>>(),
                 "regs0": same && s.registers == [0; 32]}})
}

#[derive(Clone)]
struct Seg { ty: u32, off: u32, vaddr: u32, filesz: u32, memsz: u32, flags: u32 }

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() < n {
        let x = match r.below(4) {
            0 => r.u32(),
            1 => 0x13 | (r.u32() & 0xfff0_0f80),
            2 => 0x33 | (r.u32() & 0x01ff_ff80),
            _ => 0x73 | (r.below(2) as u32) << 20,
        };
        v.extend(x.to_le_bytes());
    }
    v.truncate(n);
    v
}

fn elf(r: &mut Rng) -> Vec<u8> {
    let crowd = r.chance(1, 60);
    let n = if crowd { *r.pick(&[255usize, 256, 257]) } else { 1 + r.below(5) as usize };
    let at = if r.chance(1, 6) { 52 + r.below(9) as u32 } else { 52 };
    let head = at as usize + 32 * n;
    let (mut segs, mut body) = (vec![], vec![]);
    // where the next segment goes: they touch, leave gaps, and sometimes run to the top of the address space
    let top = r.chance(1, 6);
    let mut spot: u64 = if top { (1u64 << 32) - 60 } else { u64::from(word(r)) & 0xffff_ff00 };
    for i in 0..n {
        let ty = if crowd && i > 3 || r.chance(1, 4) { *r.pick(&[0u32, 2, 3, 4, 5, 6, 7, 0x6474_e550, 0x6474_e551, 0x6474_e552, 0x7000_0003]) } else { 1 };
        let filesz = if crowd && i > 3 { 0 } else { r.below(18) as u32 };
        let memsz = match r.below(4) { 0 => filesz + r.below(9) as u32, 1 if ty != 1 => filesz / 2, 2 if ty != 1 => 0, _ => filesz };
        if r.chance(1, 3) { body.extend(r.bytes(3)); }
        let shared = !body.is_empty() && r.chance(1, 8);
        let off = if shared { head as u32 + r.below(body.len() as u64) as u32 } else { (head + body.len()) as u32 };
        let need = (off + filesz) as usize - head;
        if need > body.len() { let k = need - body.len(); body.extend(text(r, k)); }
        let flags = *r.pick(&[5u32, 4, 6, 7, 5, 6, 4, 1, 0, 2, 3]);
        let flags = if r.chance(1, 10) { flags | 1 << (20 + r.below(11)) } else { flags };
        let room = (1u64 << 32) - spot;
        if ty == 1 {
            let memsz = u64::from(memsz).min(room) as u32;
            let filesz = filesz.min(memsz);
            segs.push(Seg { ty, off, vaddr: spot as u32, filesz, memsz, flags });
            spot = (spot + u64::from(memsz)).min((1 << 32) - 1);
            match r.below(5) { 0 => spot += 1 + r.below(6), 1 => spot = (spot + 3) & !3, 2 if !top => spot += r.below(1 << 24), _ => {} }
            if spot + 64 > 1 << 32 && !top { spot = 0x100; }
            if spot >= 1 << 32 || u64::from(segs.last().unwrap().vaddr) + u64::from(memsz) == 1 << 32 { spot = 0x4000 }
        } else {
            // anywhere, on top of what is loaded too
            let vaddr = if segs.is_empty() { word(r) & 0xffff } else { let k = r.below(segs.len() as u64) as usize; segs[k].vaddr };
            segs.push(Seg { ty, off, vaddr, filesz, memsz, flags });
        }
    }
    // the order of the headers is not the order of the addresses
    if r.chance(1, 3) { segs.reverse() }
    let entry = segs.iter().find(|s| s.flags & 1 == 1).map_or(0x100, |s| s.vaddr & !3).wrapping_add(4 * r.below(3) as u32);
    let mut f = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    f.extend(2u16.to_le_bytes());
    f.extend(243u16.to_le_bytes());
    f.extend(1u32.to_le_bytes());
    f.extend(entry.to_le_bytes());
    f.extend(at.to_le_bytes());
    f.extend(0u32.to_le_bytes()); // no section headers
    f.extend(r.u32().to_le_bytes());
    for x in [52u16, 32, n as u16, 40, 0, 0] { f.extend(x.to_le_bytes()); }
    f.resize(at as usize, 0xcc);
    for s in &segs {
        for x in [s.ty, s.off, s.vaddr, s.vaddr, s.filesz, s.memsz, s.flags, *r.pick(&[0u32, 1, 4, 0x1000])] { f.extend(x.to_le_bytes()); }
    }
    f.extend(body);
    // what is not an executable of this machine
    if r.chance(1, 5) {
        match r.below(10) {
            0 => f[r.below(4) as usize] ^= 1 << r.below(8),
            1 => f[4] = *r.pick(&[0, 2, 3]),
            2 => f[5] = *r.pick(&[0, 2]),
            3 => f[16] = *r.pick(&[0, 1, 3, 4]),
            4 => f[18] = *r.pick(&[0, 62, 242, 244]),
            5 => f[19] = 1 + r.below(4) as u8,
            6 => f[24] |= 1 + r.below(3) as u8,
            7 => for i in 28..32 { f[i] = 0 },
            8 => { let k = r.below(f.len() as u64) as usize; f.truncate(k) }
            _ => { let k = 1 + r.below(12) as usize; f.truncate(f.len().saturating_sub(k)) }
        }
    }
    f
}

fn image(r: &mut Rng) -> BTreeMap<u32, u32> {
    let mut at = if r.chance(1, 4) { 0u32.wrapping_sub(4 * (1 + r.below(4) as u32)) } else { word(r) };
    if r.chance(3, 4) { at &= !3 }
    let mut m = BTreeMap::new();
    for _ in 0..r.below(6) {
        if at > 0xffff_fffc { at = 8 }
        m.insert(at, if r.chance(1, 2) { word(r) } else { u32::from_le_bytes(text(r, 4).try_into().unwrap()) });
        at = at.wrapping_add(match r.below(12) { 0 => 1 + r.below(3) as u32, 1 => 5, 2 => r.below(1000) as u32 * 4 + 4, 3 => 0x4000_0000, _ => 4 });
    }
    m
}

pub fn main(out: &str, n: usize, seed: u64, shards: usize) {
    for s in 0..shards {
        let mut r = Rng::new(seed.wrapping_mul(1009).wrapping_add(s as u64) ^ 0x10ad);
        let mut o = Out::new(&format!("{out}.{s}"));
        for _ in 0..n / shards {
            match r.below(6) {
                0 => {
                    let m = image(&mut r);
                    let im: HashMap<u32, u32> = m.iter().map(|(a, b)| (*a, *b)).collect();
                    let data = match guard(|| Data::from(im.clone())) { Ok(d) => json!({"ok": true, "bytes": bytes_json(&d.0)}), Err(_) => json!({"ok": false}) };
                    let program = match guard(|| Program::from(im.clone())) { Ok(p) => program_json(&p), Err(_) => json!({"ok": false}) };
                    o.line(&json!({"ev": "words", "image": m.iter().map(|(a, b)| json!([w(*a), w(*b)])).collect::<Vec<_>>(), "data": data, "program": program}));
                }
                1 => {
                    let mut m: HashMap<u32, u8> = HashMap::new();
                    let mut at = if r.chance(1, 4) { 0u32.wrapping_sub(r.below(12) as u32) } else { word(&mut r) };
                    let n = r.below(20) as usize;
                    for b in text(&mut r, n) { m.insert(at, b); at = at.wrapping_add(if r.chance(1, 6) { r.below(7) as u32 } else { 1 }); }
                    o.line(&json!({"ev": "bytes", "image": bytes_json(&m), "code": match guard(|| Code::from(&m)) { Ok(c) => code_json(&c), Err(e) => json!([[e]]) }}));
                }
                _ => {
                    let f = elf(&mut r);
                    let load = |g: &dyn Fn(&[u8]) -> Option<Program>| match guard(|| g(&f).map(|p| program_json(&p))) {
                        Ok(Some(p)) => p,
                        _ => json!({"ok": false}),
                    };
                    let mozak = load(&|f| Program::mozak_load_program(f).ok());
                    let vanilla = load(&|f| Program::vanilla_load_elf(f).ok());
                    o.line(&json!({"ev": "elf", "bytes": f, "mozak": mozak, "vanilla": vanilla}));
                }
            }
        }
        o.done();
    }
}
