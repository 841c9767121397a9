//! What a program's identity depends on: programs, variants of them, and their identities.
use std::collections::BTreeMap;

use im::hashmap::HashMap;
use mozak_circuits::air::{C, D, F};
use mozak_runner::code::Code;
use mozak_runner::elf::{Data, Program};
use mozak_runner::instruction::Instruction;
use serde_json::{json, Value};
use starky::config::StarkConfig;

use crate::exec::{self, mem_case, pair_case, program_of, raw_case};
use crate::util::{guard, w, word, Out, Rng};
use crate::{decode, gens, runner};

/// A program, spelled out.
#[derive(Clone)]
struct Plain { entry: u32, text: BTreeMap<u32, Option<Instruction>>, mem: [BTreeMap<u32, u8>; 2] }
fn plain(p: &Program) -> Plain {
    Plain { entry: p.entry_point, text: p.ro_code.0.iter().map(|(a, i)| (*a, i.clone().ok())).collect(),
        mem: [p.ro_memory.0.iter().map(|(a, b)| (*a, *b)).collect(), p.rw_memory.0.iter().map(|(a, b)| (*a, *b)).collect()] }
}
fn shuffled<T>(r: &mut Rng, mut v: Vec<T>) -> Vec<T> { for i in (1..v.len()).rev() { v.swap(i, r.below(i as u64 + 1) as usize) } v }
/// The same program, put together in any order.
fn build(r: &mut Rng, p: &Plain) -> Program {
    // a word that is no instruction: any of them
    let bad = || Program::from([(0u32, 0u32)].into_iter().collect::<HashMap<u32, u32>>()).ro_code.0[&0].clone();
    let map = |m: &BTreeMap<u32, u8>, r: &mut Rng| Data(shuffled(r, m.iter().map(|(a, b)| (*a, *b)).collect()).into_iter().collect());
    Program { entry_point: p.entry,
        ro_code: Code(shuffled(r, p.text.iter().map(|(a, i)| (*a, match i { Some(i) => Ok(*i), None => bad() })).collect()).into_iter().collect()),
        ro_memory: map(&p.mem[0], r), rw_memory: map(&p.mem[1], r) }
}
fn key<T>(r: &mut Rng, m: &BTreeMap<u32, T>) -> Option<u32> { if m.is_empty() { None } else { m.keys().nth(r.below(m.len() as u64) as usize).copied() } }
fn vary(r: &mut Rng, p: &Plain) -> Option<Plain> {
    let mut q = p.clone();
    let s = r.below(2) as usize;
    match r.below(16) {
        0 => {}
        1 => q.entry ^= 1 << r.below(32),
        2 => { let a = key(r, &q.mem[s])?; *q.mem[s].get_mut(&a).unwrap() ^= 1 << r.below(8); }
        3 => { let a = key(r, &q.mem[s])?; q.mem[s].remove(&a); }
        4 => { let a = key(r, &q.mem[s])?; let b = a ^ 1 << r.below(32); if q.mem.iter().any(|m| m.contains_key(&b)) { return None } let v = q.mem[s].remove(&a).unwrap(); q.mem[s].insert(b, v); }
        5 => { let (a, b) = (key(r, &q.mem[s])?, key(r, &q.mem[s])?); let (x, y) = (q.mem[s][&a], q.mem[s][&b]); q.mem[s].insert(a, y); q.mem[s].insert(b, x); }
        6 => { let a = key(r, &q.mem[s])?; let v = q.mem[s].remove(&a).unwrap(); q.mem[1 - s].insert(a, v); }
        7 => { let a = key(r, &q.mem[s]).map_or(0x1000, |a| a.wrapping_add(1)); if q.mem.iter().any(|m| m.contains_key(&a)) { return None } q.mem[s].insert(a, *r.pick(&[0, 1, 255])); }
        8 | 9 => {
            let a = key(r, &q.text)?;
            let i = q.text.get_mut(&a).unwrap().as_mut()?;
            match r.below(5) {
                0 => i.args.rd = (i.args.rd ^ 1 << r.below(5)) & 31,
                1 => i.args.rs1 = (i.args.rs1 ^ 1 << r.below(5)) & 31,
                2 => i.args.rs2 = (i.args.rs2 ^ 1 << r.below(5)) & 31,
                3 => std::mem::swap(&mut i.args.rs1, &mut i.args.rs2),
                _ => i.args.imm ^= 1 << r.below(32),
            }
        }
        10 => { let a = key(r, &q.text)?; let o = raw_text(r)?; q.text.get_mut(&a).unwrap().as_mut()?.op = o.op; }
        11 => { let (a, b) = (key(r, &q.text)?, key(r, &q.text)?); let (x, y) = (q.text[&a], q.text[&b]); q.text.insert(a, y); q.text.insert(b, x); }
        12 => { let a = key(r, &q.text)?; let b = a ^ 4 << r.below(29); if q.text.contains_key(&b) { return None } let v = q.text.remove(&a).unwrap(); q.text.insert(b, v); }
        13 => { let a = *q.text.keys().next_back()?; let v = q.text[&a]; q.text.insert(a.checked_add(4)?, v); }
        14 => { let a = key(r, &q.text)?; q.text.remove(&a); }
        _ => { let a = key(r, &q.text)?.checked_add(4)?; if q.text.contains_key(&a) { return None } q.text.insert(a, None); }
    }
    q.text.values().any(Option::is_some).then_some(q)
}
fn raw_text(r: &mut Rng) -> Option<Instruction> {
    let (a, b) = (word(r), word(r));
    let p = plain(&program_of(&match r.below(3) { 0 => pair_case(a, b, r), 1 => mem_case(r), _ => raw_case(r, true) }));
    let k = key(r, &p.text)?;
    p.text[&k]
}
fn base(r: &mut Rng) -> Program {
    let (a, b) = (word(r), word(r));
    program_of(&match r.below(6) {
        0 => gens::tape_case(r, false, false, false),
        1 => gens::flow_case(r),
        2 => raw_case(r, true),
        3 => raw_case(r, false),
        4 => mem_case(r),
        _ => pair_case(a, b, r),
    })
}
fn show(p: &Plain) -> Value {
    json!({"entry": w(p.entry), "text": p.text.iter().map(|(a, i)| match i { Some(i) => json!([w(*a), decode::ins_json(i)]), None => json!([w(*a), {"op": "ERROR"}]) }).collect::<Vec<_>>(),
        "ro": p.mem[0].iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>(), "rw": p.mem[1].iter().map(|(a, b)| json!([w(*a), b])).collect::<Vec<_>>()})
}
pub fn main(out: &str, n: usize, shards: usize, shard: usize, per: usize, seed: u64) {
    let config = StarkConfig::standard_fast_config();
    let mut o = Out::new(&format!("{out}.{shard}"));
    for i in (shard..n).step_by(shards) {
        let mut r = Rng::new(seed * 7_000_003 + i as u64);
        let mut p = plain(&base(&mut r));
        if !p.text.values().any(Option::is_some) { continue }
        let shadowed: Vec<u32> = p.mem[0].keys().filter(|a| p.mem[1].contains_key(a)).copied().collect();
        for a in shadowed { p.mem[1].remove(&a); }
        // (big images say nothing more)
        for m in &mut p.mem { while m.len() > 40 { m.pop_last(); } }
        o.line(&json!({"ev": "begin"}));
        let first = p.clone();
        for j in 0..per {
            if j > 0 {
                let from = if r.chance(1, 3) { first.clone() } else { p.clone() };
                let Some(q) = vary(&mut r, &from) else { continue };
                p = q;
            }
            let q = build(&mut r, &p);
            let id = guard(|| runner::get_self_prog_id::<F, C, D>(&q, &config)).map_or("?".into(), |x| x.0 .0.iter().map(|b| format!("{b:02x}")).collect::<String>());
            o.line(&json!({"ev": "program", "program": show(&p), "id": id}));
        }
    }
    let _ = exec::TN;
    o.done();
}
