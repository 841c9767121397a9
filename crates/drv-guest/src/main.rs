//! Runs the scripted guest (see /verif/guest) in the virtual machine against call, event
//! and input tapes, and records what the command line hands it, as line-delimited JSON.
mod heap;
mod story;
mod vm;

use std::collections::{BTreeMap, BTreeSet};

use drv_util::{Out, Rng};
use mozak_cli::runner::raw_tapes_from_system_tape;
use mozak_runner::state::RawTapes;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, CanonicalOrderedTemporalHints, CrossProgramCall, Event, EventType, Poseidon2Hash, ProgramIdentifier, RawMessage, StateAddress, StateObject};
use serde_json::{json, Value};

pub type Id = ProgramIdentifier;
pub fn from_hex(s: &str) -> Id { ProgramIdentifier(Poseidon2Hash(unhex(s).try_into().unwrap())) }
pub const TYPES: [EventType; 5] = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner];
pub fn hex(b: &[u8]) -> String { format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()) }
pub fn unhex(s: &str) -> Vec<u8> { (2..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap()).collect() }
pub fn id(p: &Id) -> String { hex(&p.0 .0) }
pub fn type_name(t: EventType) -> &'static str {
    match t { EventType::Write => "Write", EventType::Ensure => "Ensure", EventType::Read => "Read", EventType::GiveOwner => "GiveOwner", EventType::TakeOwner => "TakeOwner" }
}
pub fn hashes() -> Value {
    let mut v: Vec<(Vec<u64>, [u64; 4])> = plonky2::hash::poseidon2::observer::all();
    v.sort();
    json!(v.iter().filter(|(i, _)| i.len() <= 64).map(|(i, o)| json!({"inp": i, "out": o.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()})).collect::<Vec<_>>())
}
pub fn observe() { plonky2::hash::poseidon2::observer::start(); }

/// a value of one of the four argument or return types: what the script says, what the tape holds
#[derive(Clone, PartialEq)]
pub struct Val { pub script: Vec<u8>, pub tape: Vec<u8> }
pub fn enc<T: rkyv::Serialize<rkyv::rancor::Strategy<rkyv::ser::AllocSerializer<256>, rkyv::rancor::Panic>>>(x: &T) -> Vec<u8> { rkyv::to_bytes::<_, 256, _>(x).unwrap().into() }
pub fn sized(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u16).to_le_bytes().to_vec(); v.extend(b); v }
fn small(r: &mut Rng) -> u64 { if r.chance(1, 2) { r.below(3) } else { r.next() } }
pub fn arg(r: &mut Rng, kind: u8) -> Val {
    match kind {
        0 => { let x = small(r); Val { script: x.to_le_bytes().to_vec(), tape: enc(&x) } }
        1 => { let n = r.below(12) as usize; let b = r.bytes(n); Val { script: sized(&b), tape: enc(&b) } }
        2 => { let n = r.below(12) as usize; let s: String = (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect(); let b = r.next() as u8;
               let mut v = vec![b]; v.extend(sized(s.as_bytes())); Val { script: v, tape: enc(&(b, s)) } }
        _ => Val { script: vec![], tape: enc(&()) },
    }
}
pub fn ret(r: &mut Rng, kind: u8) -> Vec<u8> {
    match kind {
        0 => enc(&(small(r) as u32)),
        1 => { let n = r.below(12) as usize; enc(&r.bytes(n)) }
        2 => enc(&if r.chance(1, 3) { None } else { Some(small(r)) }),
        _ => enc(&(small(r) as u16)),
    }
}
#[derive(Clone)]
pub enum Op { Send(u8, Id, Val), Receive(u8), Emit(Event), Read(bool, u16), Len(bool) }
impl Op {
    pub fn script(&self) -> Vec<u8> {
        let mut v = vec![];
        match self {
            Op::Send(k, to, a) => { v.extend([1, *k]); v.extend(to.0 .0); v.extend(&a.script); }
            Op::Receive(k) => v.extend([2, *k]),
            Op::Emit(e) => { v.extend([3, e.type_ as u8]); v.extend(e.object.address.0); v.extend(e.object.constraint_owner.0 .0); v.extend(sized(&e.object.data)); }
            Op::Read(p, n) => { v.extend([4, u8::from(!*p)]); v.extend(n.to_le_bytes()); }
            Op::Len(p) => v.extend([5, u8::from(!*p)]),
        }
        v
    }
    pub fn json(&self) -> Value {
        let t = |p: &bool| if *p { "public" } else { "private" };
        match self {
            Op::Send(_, to, a) => json!({"k": "send", "to": id(to), "arg": a.tape}),
            Op::Receive(_) => json!({"k": "receive"}),
            Op::Emit(e) => json!({"k": "emit", "addr": e.object.address.0, "type": type_name(e.type_), "data": e.object.data}),
            Op::Read(p, n) => json!({"k": "read", "tape": t(p), "n": n}),
            Op::Len(p) => json!({"k": "len", "tape": t(p)}),
        }
    }
}

/// everything a guest is handed, in the open
#[derive(Clone)]
pub struct Tapes { pub me: Id, pub calls: Vec<CrossProgramCall>, pub hints: Vec<CanonicalOrderedTemporalHints>, pub evc: [u8; 32], pub clc: [u8; 32], pub public: Vec<u8>, pub private: Vec<u8> }
pub fn prefixed(b: &[u8]) -> Vec<u8> { let mut v = (b.len() as u32).to_le_bytes().to_vec(); v.extend(b); v }
pub fn cast(calls: &[CrossProgramCall]) -> Vec<Id> { calls.iter().map(|c| c.callee).collect::<BTreeSet<_>>().into_iter().collect() }
pub fn event_root(h: &[CanonicalOrderedTemporalHints]) -> [u8; 32] { merkleize(h.iter().map(|x| (u64::from_le_bytes(x.0.address.0), x.0.canonical_hash())).collect()).0 }
pub fn cast_root(c: &[Id]) -> [u8; 32] { merkleize(c.iter().enumerate().map(|(i, x)| (i as u64, x.0)).collect()).0 }
impl Tapes {
    fn raw(&self) -> RawTapes {
        RawTapes { private_tape: self.private.clone(), public_tape: self.public.clone(), call_tape: prefixed(&enc(&self.calls)), event_tape: prefixed(&enc(&self.hints)),
                   events_commitment_tape: self.evc, cast_list_commitment_tape: self.clc, self_prog_id_tape: self.me.0 .0 }
    }
    pub fn json(&self) -> Value {
        let mut names: BTreeMap<String, [u8; 32]> = self.calls.iter().flat_map(|c| [(id(&c.caller), c.caller.0 .0), (id(&c.callee), c.callee.0 .0)]).collect();
        names.insert(id(&self.me), self.me.0 .0);
        json!({"self": id(&self.me), "calls": calls_json(&self.calls), "hints": hints_json(&self.hints), "evc": self.evc, "clc": self.clc,
               "public": self.public, "private": self.private, "names": names})
    }
}
pub fn calls_json(c: &[CrossProgramCall]) -> Value { json!(c.iter().map(|m| json!({"caller": id(&m.caller), "callee": id(&m.callee), "arg": m.argument.0, "ret": m.return_.0})).collect::<Vec<_>>()) }
pub fn hints_json(h: &[CanonicalOrderedTemporalHints]) -> Value { json!(h.iter().map(|h| json!({"addr": h.0.address.0, "type": type_name(h.0.type_), "value": h.0.value.0, "at": h.1})).collect::<Vec<_>>()) }

/// the serialised tapes, read back: None where they are not what they should be
fn decode<T: rkyv::Archive>(b: &[u8]) -> Option<Vec<T>> where Vec<T>: rkyv::Archive, <Vec<T> as rkyv::Archive>::Archived: rkyv::Deserialize<Vec<T>, rkyv::rancor::Strategy<(), rkyv::rancor::Panic>> {
    if b.len() < 12 || u32::from_le_bytes(b[..4].try_into().unwrap()) as usize != b.len() - 4 { return None; }
    let mut a = rkyv::util::AlignedVec::with_capacity(b.len());
    a.extend_from_slice(&b[4..]);
    use rkyv::Deserialize;
    Some(unsafe { rkyv::access_unchecked::<Vec<T>>(&a) }.deserialize(rkyv::rancor::Strategy::<(), rkyv::rancor::Panic>::wrap(&mut ())).unwrap())
}
fn open(raw: &RawTapes) -> Option<Tapes> {
    Some(Tapes { me: ProgramIdentifier(Poseidon2Hash(raw.self_prog_id_tape)), calls: decode(&raw.call_tape)?, hints: decode(&raw.event_tape)?,
                 evc: raw.events_commitment_tape, clc: raw.cast_list_commitment_tape, public: raw.public_tape.clone(), private: raw.private_tape.clone() })
}

/// one guest run: the tapes, every operation with its result, and the end
fn record(o: &mut Out, g: &vm::Guest, raw: &RawTapes, t: &Tapes, ops: &[Op], tag: &str) {
    observe();
    let ops: Vec<_> = ops.iter().map(|x| (x.script(), x.json())).collect();
    run_one(o, g, raw, t, &ops, tag);
}
pub fn record_raw(o: &mut Out, g: &vm::Guest, raw: &RawTapes, t: &Tapes, ops: &[(Vec<u8>, Value)], tag: &str) { observe(); run_one(o, g, raw, t, ops, tag) }
/// computes the digest of event data, for the table of digests
pub fn digest(d: &Value) { if let Some(d) = d.as_array() { let data = d.iter().map(|x| x.as_u64().unwrap() as u8).collect(); CanonicalEvent::from_event(&Event { object: StateObject { data, ..StateObject::default() }, type_: EventType::Read }); } }
fn run_one(o: &mut Out, g: &vm::Guest, raw: &RawTapes, t: &Tapes, ops: &[(Vec<u8>, Value)], tag: &str) {
    for (_, op) in ops { digest(&op["data"]); }
    drv_util::guard(|| (event_root(&t.hints), cast_root(&cast(&t.calls)))).ok();
    let script: Vec<u8> = ops.iter().flat_map(|x| x.0.clone()).collect();
    let end = g.run(&script, raw.clone());
    let mut head = t.json();
    head["ev"] = json!("tape");
    head["tag"] = json!(tag);
    head["hashes"] = hashes();
    o.line(&head);
    let mut out = &end.out[..];
    for (k, op) in ops.iter().enumerate() {
        if k < end.done as usize { o.line(&json!({"ev": "op", "op": op.1, "out": result(&mut out)})); }
        else { o.line(&json!({"ev": "stuck", "op": op.1})); break; }
    }
    o.line(&json!({"ev": "stop", "how": end.how, "all": end.done as usize == ops.len(), "left": out.len()}));
}
fn take<'a>(o: &mut &'a [u8], n: usize) -> &'a [u8] { let n = n.min(o.len()); let (a, b) = o.split_at(n); *o = b; a }
fn take_sized<'a>(o: &mut &'a [u8]) -> &'a [u8] { let n = take(o, 2); let n = n.iter().rev().fold(0, |a, b| a * 256 + *b as usize); take(o, n) }
fn result(o: &mut &[u8]) -> Value {
    match take(o, 1) {
        [1] => json!({"k": "send", "ret": take_sized(o)}),
        [2] => if take(o, 1) == [0] { json!({"k": "receive", "none": true}) } else { json!({"k": "receive", "none": false, "caller": hex(take(o, 32)), "arg": take_sized(o), "ret": take_sized(o)}) },
        [3] => json!({"k": "emit"}),
        [4] => { let n = take(o, 2); json!({"k": "read", "got": u16::from_le_bytes([n[0], n[1]]), "buf": take_sized(o)}) }
        [5] => json!({"k": "len", "n": u32::from_le_bytes(take(o, 4).try_into().unwrap_or_default())}),
        _ => json!({"k": "?"}),
    }
}

/// tapes made up for one program, and a script that follows them; then things go wrong
fn made_up(o: &mut Out, g: &vm::Guest, focus: &str, seed: u64) {
    let mut r = Rng::new(seed);
    let main = match focus { "calls" => 0, "events" => 1, _ => 2 };
    let focus = if r.chance(1, 8) { r.below(3) } else { main };
    let ids: Vec<Id> = (0..4).map(|k| if r.chance(1, 2) { Id::new_from_rand_seed(r.below(50)) } else { let mut p = Id::default(); p.0 .0[r.below(32) as usize] = 1 + k; p }).collect();
    let me = ids[0];
    let kind = r.below(4) as u8;
    let someone = |r: &mut Rng| if r.chance(1, 6) { Id::default() } else { *r.pick(&ids[1..]) };
    let mut t = Tapes { me, calls: vec![], hints: vec![], evc: [0; 32], clc: [0; 32], public: vec![], private: vec![] };
    let mut ops: Vec<Op> = vec![];
    // calls
    let mut args: Vec<Val> = vec![];
    let n = if focus == 0 && r.chance(1, 20) { 8 + r.below(7) } else if focus == 0 { r.below(7) } else { r.below(3) };
    let mut foreign = false;
    for _ in 0..n {
        let a = arg(&mut r, kind);
        let mut c = match r.below(if foreign { 5 } else { 8 }) {
            0 | 1 => { foreign = true; let x = someone(&mut r); (x, *r.pick(&ids[1..])) }
            2..=4 => { ops.push(Op::Receive(kind)); foreign = false; let x = if r.chance(1, 12) { *r.pick(&ids[1..]) } else { Id::default() }; (x, me) }
            _ => { let to = someone(&mut r); ops.push(Op::Send(kind, to, a.clone())); (me, to) }
        };
        // a caller that is nobody's callee is not part of the cast; mostly make it part
        if c.1 == me && !t.calls.is_empty() && r.chance(2, 3) { c.0 = t.calls[r.below(t.calls.len() as u64) as usize].callee; if c.0 == me { c.0 = Id::default(); } }
        t.calls.push(CrossProgramCall { caller: c.0, callee: c.1, argument: RawMessage(a.tape.clone()), return_: RawMessage(ret(&mut r, kind)) });
        args.push(a);
    }
    if foreign || r.chance(1, 4) { ops.push(Op::Receive(kind)); }
    // events
    let m = if focus == 1 && r.chance(1, 20) { 8 + r.below(9) } else if focus == 1 { r.below(7) } else { r.below(2) };
    let pool: Vec<StateAddress> = (0..3).map(|_| address(&mut r)).collect();
    let events: Vec<Event> = (0..m).map(|_| event(&mut r, &pool, me)).collect();
    let mut hints: Vec<(CanonicalEvent, usize)> = events.iter().map(CanonicalEvent::from_event).enumerate().map(|(k, e)| (e, k)).collect();
    hints.sort_by_key(|(e, k)| (u64::from_le_bytes(e.address.0), e.type_ as u8, e.value.0, *k));
    t.hints = (0..hints.len()).map(|k| CanonicalOrderedTemporalHints(hints[k].0, hints.iter().position(|h| h.1 == k).unwrap() as u32)).collect();
    for e in &events { let at = r.below(ops.len() as u64 + 1) as usize; ops.insert(at, Op::Emit(e.clone())); }
    // events have to come in the order of the list
    let mut it = events.iter();
    for op in &mut ops { if let Op::Emit(e) = op { *e = it.next().unwrap().clone(); } }
    // inputs
    for public in [true, false] {
        let n = if focus == 2 { *r.pick(&[0, 1, 2, 5, 9, 30, 300]) } else { r.below(3) as usize };
        let b = prefixed(&r.bytes(n));
        if public { t.public = b } else { t.private = b }
    }
    let q = if focus == 2 { r.below(7) } else { r.below(2) };
    for _ in 0..q {
        let at = r.below(ops.len() as u64 + 1) as usize;
        let p = r.chance(1, 2);
        let n = *r.pick(&[0u16, 1, 2, 3, 4, 5, 8, 31, 255, 256, 300]);
        ops.insert(at, if r.chance(1, 5) { Op::Len(p) } else { Op::Read(p, n) });
    }
    // now spoil something: the tapes, the program, or a commitment
    let spoil = if r.chance(3, 10) { 99 } else { match focus {
        0 => *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 12, 20]),
        1 => *r.pick(&[8, 9, 10, 11, 13, 13, 14, 14, 15, 16, 16, 17, 18, 19, 20, 21, 22, 22, 23]),
        _ => if r.chance(1, 2) { 99 } else { r.below(24) },
    } };
    let nc = t.calls.len() as u64;
    let nh = t.hints.len() as u64;
    // one of the calls the program makes or answers, or any
    let mine: Vec<usize> = (0..nc as usize).filter(|i| t.calls[*i].caller == me).collect();
    let about: Vec<usize> = (0..nc as usize).filter(|i| t.calls[*i].caller == me || t.calls[*i].callee == me).collect();
    let at = |r: &mut Rng| match r.below(5) { 0 | 1 if !mine.is_empty() => if r.chance(1, 2) { *mine.last().unwrap() } else { *r.pick(&mine) }, 2 | 3 if !about.is_empty() => *r.pick(&about), _ => r.below(nc) as usize };
    match spoil {
        0 if nc > 0 => { let i = at(&mut r); t.calls[i].argument = RawMessage(arg(&mut r, kind).tape); }
        1 if nc > 0 => { let i = at(&mut r); t.calls.remove(i); }
        2 if nc > 0 => { let i = at(&mut r); let c = t.calls[i].clone(); t.calls.insert(r.below(nc + 1) as usize, c); }
        3 if nc > 1 => { let i = r.below(nc) as usize; t.calls.swap(i, (i + 1) % nc as usize); }
        4 if nc > 0 => { let i = at(&mut r); t.calls[i].caller = if r.chance(1, 2) { me } else { *r.pick(&ids) }; }
        5 if nc > 0 => { let i = at(&mut r); t.calls[i].callee = if r.chance(1, 2) { me } else { *r.pick(&ids) }; }
        6 => { t.me = if r.chance(1, 3) { Id::default() } else { *r.pick(&ids) }; }
        7 if nc > 0 => { let at = r.below(nc + 1) as usize; t.calls.insert(at, CrossProgramCall { caller: me, callee: *r.pick(&ids), argument: RawMessage(arg(&mut r, kind).tape), return_: RawMessage(ret(&mut r, kind)) }); }
        8 | 9 if !ops.is_empty() => { let i = r.below(ops.len() as u64) as usize; ops.remove(i); }
        10 if ops.len() > 1 => { let i = r.below(ops.len() as u64) as usize; let j = (i + 1) % ops.len(); ops.swap(i, j); }
        11 if !ops.is_empty() => { let i = r.below(ops.len() as u64) as usize; let x = ops[i].clone(); ops.insert(i, x); }
        12 => { let sends: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Send(..))).collect();
            if !sends.is_empty() { let i = *r.pick(&sends); if let Op::Send(_, to, a) = &mut ops[i] { if r.chance(1, 2) { *to = *r.pick(&ids); } else { *a = arg(&mut r, kind); } } } }
        13 | 14 if nh > 0 => { let i = r.below(nh) as usize; match r.below(4) {
                0 => t.hints[i].0.value.0[r.below(32) as usize] ^= 1 << r.below(8),
                1 => t.hints[i].0.type_ = *r.pick(&TYPES),
                2 => t.hints[i].1 = r.below(nh + 1) as u32,
                _ => { let k = nh as usize - 1; let mut a = u64::from_le_bytes(t.hints[k].0.address.0); a = a.saturating_add(1); t.hints[k].0.address = StateAddress(a.to_le_bytes()); } } }
        15 if nh > 0 => { let i = r.below(nh) as usize; t.hints.remove(i); for h in &mut t.hints { if h.1 as usize > i { h.1 -= 1; } } }
        16 if nh > 0 => { let i = r.below(nh) as usize; let mut h = t.hints[i]; if r.chance(1, 2) { h.1 = nh as u32; } t.hints.insert(i, h); }
        17 | 18 if nh > 0 => { for op in &mut ops { if let Op::Emit(e) = op { if r.chance(1, nh.min(4)) { match r.below(3) { 0 => e.type_ = *r.pick(&TYPES), 1 => e.object.address.0[r.below(8) as usize] ^= 1, _ => e.object.data.push(0) } break; } } } }
        _ => {}
    }
    t.evc = event_root(&t.hints);
    t.clc = cast_root(&cast(&t.calls));
    match spoil {
        19 => t.evc[r.below(32) as usize] ^= 1 << r.below(8),
        20 => t.clc[r.below(32) as usize] ^= 1 << r.below(8),
        21 => if r.chance(1, 2) { t.evc = [0; 32]; } else { t.clc = [0; 32]; },
        // the commitment of some of the events, or of some of the cast
        22 if nh > 0 => { let k = r.below(t.hints.len() as u64) as usize; let mut h = t.hints.clone(); match r.below(3) { 0 => { h.truncate(k); } 1 => { h.remove(k); } _ => { let x = h[k]; h.insert(k, x); } } t.evc = event_root(&h); }
        23 if nc > 0 => { let mut c = cast(&t.calls); if c.is_empty() { c.push(me); } else { let k = r.below(c.len() as u64) as usize; if r.chance(1, 2) { c.remove(k); } else { let x = c[k]; c.insert(k, x); } } t.clc = cast_root(&c); }
        _ => {}
    }
    // a shorter declared length hides the rest of an input tape
    if focus == 2 && r.chance(1, 6) && t.public.len() > 4 { t.public[0] -= 1; }
    record(o, g, &t.raw(), &t, &ops, &format!("madeup-{spoil}"));
}

pub fn address(r: &mut Rng) -> StateAddress {
    let mut a = [0u8; 8];
    match r.below(8) {
        0 => {}
        5 => a = *r.pick(&[[0xff; 8], [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f], [0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0, 0], [0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], [0, 0, 0, 0, 0, 0, 0, 0x80]]),
        6 => a = [r.next() as u8; 8],
        1 => a[r.below(8) as usize] = *r.pick(&[1u8, 2, 0x80, 0xff]),
        2 => { a[0] = r.below(3) as u8; a[7] = r.below(2) as u8 * 0x80; }
        _ => a = r.next().to_le_bytes(),
    }
    StateAddress(a)
}
pub fn event(r: &mut Rng, pool: &[StateAddress], owner: Id) -> Event {
    let data = match r.below(4) { 0 => vec![], 1 => vec![r.below(2) as u8; 1 + r.below(3) as usize], _ => { let n = r.below(18) as usize; r.bytes(n) } };
    Event { type_: *r.pick(&TYPES), object: StateObject { address: *r.pick(pool), constraint_owner: owner, data } }
}

fn main() { drv_util::run(real_main) }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a[1].as_str() {
        "child" => story::child(a[2].parse().unwrap()),
        // guest ELF OUT N SHARD SHARDS: writes OUT.SHARD
        "madeup" => {
            let g = vm::Guest::new(&a[2]);
            let (n, s, k) = (a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<u64>().unwrap());
            let mut o = Out::new(&format!("{}.{s}", a[3]));
            for c in (0..n).filter(|c| c % k == s) { made_up(&mut o, &g, &a[7], seed.wrapping_mul(1_000_003).wrapping_add(c)); }
            o.done();
        }
        "heap" => {
            let g = vm::Guest::new(&a[2]);
            let (n, s, k) = (a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<u64>().unwrap());
            let mut o = Out::new(&format!("{}.{s}", a[3]));
            for c in (0..n).filter(|c| c % k == s) { heap::session(&mut o, &g, seed.wrapping_mul(1_000_003).wrapping_add(c)); }
            o.done();
        }
        // stories ELF OUT N SHARD SHARDS: writes OUT.SHARD (native and command line) and OUT-guest.SHARD; ELF - means no guest
        "stories" => {
            let g = (a[2] != "-").then(|| vm::Guest::new(&a[2]));
            let (n, s, k) = (a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap(), a[6].parse::<u64>().unwrap());
            let mut o = Out::new(&format!("{}.{s}", a[3]));
            let mut og = Out::new(&format!("{}-guest.{s}", a[3]));
            // no system tape is as good as an empty one
            let who = Id::new_from_rand_seed(5);
            o.line(&json!({"ev": "begin"}));
            story::handed(&mut o, who, || raw_tapes_from_system_tape(None::<std::fs::File>, who), &[]).map(|(raw, t)| {
                if let Some(g) = &g { for ops in [vec![], vec![Op::Receive(0)], vec![Op::Len(true), Op::Read(true, 5)], vec![Op::Send(3, who, arg(&mut Rng::new(1), 3))]] { record(&mut og, g, &raw, &t, &ops, "none"); } }
            });
            for c in (0..n).filter(|c| c % k == s) { story::parent(&mut o, &mut og, g.as_ref(), seed.wrapping_mul(1_000_003).wrapping_add(c), &a[3]); }
            o.done();
            og.done();
        }
        x => panic!("unknown subcommand {x}"),
    }
}
