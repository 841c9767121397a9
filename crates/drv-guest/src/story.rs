//! A native execution of several programs: its system tape, what the command line makes of it
//! for each of them, and the replay of each of them in the virtual machine.
//! One process per story, since the native system tape is a process-wide singleton.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;

use drv_util::{guard, Out, Rng};
use mozak_sdk::common::types::{Event, StateAddress};
use mozak_sdk::InputTapeType;
use serde_json::{json, Value};

use crate::*;

struct Run { r: Rng, ids: Vec<Id>, addrs: Vec<StateAddress>, lines: Vec<Value>, ops: BTreeMap<String, Vec<Value>>, budget: u32, kind: u8, straight: bool, inputs: bool }
thread_local! { static RUN: RefCell<Option<Run>> = const { RefCell::new(None) }; }
fn with<T>(f: impl FnOnce(&mut Run) -> T) -> T { RUN.with(|x| f(x.borrow_mut().as_mut().unwrap())) }
fn log(v: Value) { with(|x| x.lines.push(v)) }
/// notes what the program has to do again in the virtual machine
fn note(me: &Id, op: &Op) { with(|x| x.ops.entry(id(me)).or_default().push(json!({"script": op.script(), "json": op.json()}))) }
fn event_json(e: &Event) -> Value { json!({"addr": e.object.address.0, "type": type_name(e.type_), "owner": id(&e.object.constraint_owner), "data": e.object.data}) }

fn frame(me: Id, depth: u32) {
    let n = with(|x| x.r.below(5));
    for _ in 0..n {
        let (op, callee) = with(|x| { x.budget = x.budget.saturating_sub(1); (if x.budget == 0 { 99 } else { x.r.below(10) }, *{ let i = x.r.below(x.ids.len() as u64) as usize; &x.ids[i] }) });
        match op {
            // a chain of calls can be replayed; a second call after nested ones cannot
            0..=3 if depth < 4 && callee != me && (!with(|x| x.straight) || depth == 0 || op == 0) => call(me, callee, depth),
            4..=6 if depth > 0 => {
                let e = with(|x| { let p = x.addrs.clone(); event(&mut x.r, &p, me) });
                let e2 = e.clone();
                let ok = guard(move || mozak_sdk::event_emit(e2)).is_ok();
                log(json!({"ev": "emit", "event": event_json(&e), "ok": ok}));
                note(&me, &Op::Emit(e));
            }
            7 | 8 if depth > 0 && with(|x| x.inputs) => {
                let (public, b) = with(|x| (x.r.chance(1, 2), { let n = x.r.below(7) as usize; x.r.bytes(n) }));
                let b2 = b.clone();
                let res = guard(move || mozak_sdk::write(if public { &InputTapeType::PublicTape } else { &InputTapeType::PrivateTape }, &b2).unwrap());
                log(json!({"ev": "write", "public": public, "bytes": b, "ok": res.is_ok(), "wrote": res.unwrap_or(0)}));
                let k = with(|x| x.r.below(4));
                note(&me, &if k == 0 { Op::Len(public) } else { Op::Read(public, b.len() as u16 + (k == 1) as u16) });
            }
            _ => {}
        }
    }
}
macro_rules! send {
    ($me:expr, $callee:expr, $depth:expr, $kind:expr, $arg:expr, $val:expr, $ret:expr) => {{
        let (me, callee, answer) = ($me, $callee, $ret);
        note(&me, &Op::Send($kind, callee, $val));
        let given = $val.tape;
        let got = mozak_sdk::call_send(callee, $arg, |a| {
            log(json!({"ev": "send", "callee": id(&callee), "arg": given.clone(), "seen": enc(&a)}));
            note(&callee, &Op::Receive($kind));
            frame(callee, $depth + 1);
            let answer = answer.clone();
            log(json!({"ev": "return", "ret": enc(&answer)}));
            answer
        });
        log(json!({"ev": "got", "ret": enc(&got)}));
    }};
}
fn call(me: Id, callee: Id, depth: u32) {
    let (kind, a, b, c, d) = with(|x| { let n = x.r.below(9) as usize; let m = x.r.below(14) as usize; (x.kind, x.r.next(), x.r.next(), x.r.bytes(n), x.r.bytes(m)) });
    match kind {
        0 => send!(me, callee, depth, 0, a, Val { script: a.to_le_bytes().to_vec(), tape: enc(&a) }, b as u32),
        1 => send!(me, callee, depth, 1, c.clone(), Val { script: sized(&c), tape: enc(&c) }, d),
        2 => { let s: String = c.iter().map(|x| (b'a' + x % 26) as char).collect(); let t = s.clone();
               let mut v = vec![a as u8]; v.extend(sized(s.as_bytes()));
               send!(me, callee, depth, 2, (a as u8, s.clone()), Val { script: v.clone(), tape: enc(&(a as u8, t.clone())) }, if b % 3 == 0 { None } else { Some(b) }) }
        _ => send!(me, callee, depth, 3, (), Val { script: vec![], tape: enc(&()) }, a as u16),
    }
}

/// runs one story and prints its trace; the working directory is scratch
pub fn child(seed: u64) {
    let mut r = Rng::new(seed);
    let ids: Vec<Id> = (0..4).map(|k| if r.chance(1, 2) { Id::new_from_rand_seed(r.below(50)) } else { let mut p = Id::default(); p.0 .0[r.below(32) as usize] = 1 + k; p }).collect();
    let addrs = (0..1 + r.below(4)).map(|_| address(&mut r)).collect();
    let (kind, straight, inputs) = (r.below(4) as u8, r.chance(4, 5), r.chance(1, 2));
    RUN.with(|x| *x.borrow_mut() = Some(Run { r, ids: ids.clone(), addrs, lines: vec![json!({"ev": "begin"})], ops: BTreeMap::new(), budget: 25, kind, straight, inputs }));
    for _ in 0..3 { frame(Id::default(), 0); }
    mozak_sdk::native::dump_proving_files();
    let mut o = std::io::stdout().lock();
    for l in with(|x| std::mem::take(&mut x.lines)) { writeln!(o, "{l}").unwrap(); }
    writeln!(o, "{}", json!({"ev": "ops", "kind": kind, "ids": ids.iter().map(id).collect::<Vec<_>>(), "ops": with(|x| std::mem::take(&mut x.ops))})).unwrap();
}
/// an operation the child reported
fn reported(v: &Value) -> (Vec<u8>, Value) { (v["script"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(), v["json"].clone()) }

pub fn parent(o: &mut Out, og: &mut Out, g: Option<&vm::Guest>, seed: u64, out: &str) {
    let dir = format!("{out}-scratch-{seed}");
    std::fs::create_dir_all(&dir).unwrap();
    let c = std::process::Command::new(std::env::current_exe().unwrap()).args(["child", &seed.to_string()]).current_dir(&dir).output().unwrap();
    let (mut last, mut datas) = (Value::Null, vec![]);
    for l in String::from_utf8_lossy(&c.stdout).lines() { if let Ok(v) = serde_json::from_str::<Value>(l) { if v["ev"] == "ops" { last = v; } else { if v["ev"] == "emit" { datas.push(v["event"]["data"].clone()); } o.line(&v); } } }
    if !c.status.success() || last.is_null() {
        o.line(&json!({"ev": "crash", "seed": seed, "status": format!("{:?}", c.status), "stderr": String::from_utf8_lossy(&c.stderr)}));
    } else {
        let mut r = Rng::new(seed ^ 77);
        let mut who: Vec<Id> = last["ids"].as_array().unwrap().iter().map(|x| from_hex(x.as_str().unwrap())).collect();
        who.push(Id::new_from_rand_seed(99));
        let mut budget = 2;
        for me in who {
            let file = std::fs::File::open(format!("{dir}/out/tape.json")).unwrap();
            let Some((raw, t)) = handed(o, me, || raw_tapes_from_system_tape(Some(file), me), &datas) else { continue };
            let (Some(g), Some(ops)) = (g, last["ops"][id(&me)].as_array()) else { continue };
            if budget == 0 { continue }
            budget -= 1;
            let mut ops: Vec<_> = ops.iter().map(reported).collect();
            // a last look at the call tape passes over whatever concerns others
            let op = Op::Receive(last["kind"].as_u64().unwrap() as u8);
            ops.push((op.script(), op.json()));
            if r.chance(1, 6) { ops.pop(); }
            record_raw(og, g, &raw, &t, &ops, "story");
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
}

/// what the command line hands program `me`, as a trace line and for running it
pub fn handed(o: &mut Out, me: Id, get: impl FnOnce() -> RawTapes, datas: &[Value]) -> Option<(RawTapes, Tapes)> {
    observe();
    datas.iter().for_each(crate::digest);
    let got = guard(get).ok().and_then(|raw| { let t = guard(|| crate::open(&raw)).ok().flatten()?; Some((raw, t)) });
    if let Some((_, t)) = &got {
        let mut v = t.json();
        v["ev"] = json!("raw"); v["who"] = json!(id(&me)); v["ok"] = json!(true); v["hashes"] = hashes();
        o.line(&v);
    } else { o.line(&json!({"ev": "raw", "self": id(&me), "ok": false})); }
    got
}
