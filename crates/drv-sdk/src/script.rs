//! Random nested cross-program calls against the process-wide system tape.
//! One process per script, since the tape is a process-wide singleton.
use std::cell::RefCell;
use std::io::Write;

use drv_util::{guard, Out, Rng};
use mozak_sdk::common::types::{ProgramIdentifier, StateAddress, SystemTape};
use mozak_sdk::InputTapeType;
use serde_json::{json, Value};

use crate::events::report;
use crate::{address, event, event_json, hashes, hex, id, observe};

struct Run { r: Rng, ids: Vec<ProgramIdentifier>, addrs: Vec<StateAddress>, lines: Vec<Value>, budget: u32, deep: u32 }
thread_local! { static RUN: RefCell<Option<Run>> = const { RefCell::new(None) }; }
fn with<T>(f: impl FnOnce(&mut Run) -> T) -> T { RUN.with(|x| f(x.borrow_mut().as_mut().unwrap())) }
fn log(v: Value) { with(|x| x.lines.push(v)) }

fn frame(depth: u32) {
    let mut added = 0;
    let n = with(|x| { let most = if x.deep > 4 { 9 } else { 6 }; x.r.below(most) });
    for _ in 0..n {
        let (op, callee) = with(|x| { x.budget = x.budget.saturating_sub(1); (if x.budget == 0 { 99 } else { x.r.below(14) }, *{ let i = x.r.below(x.ids.len() as u64) as usize; &x.ids[i] }) });
        match op {
            0..=3 if depth < with(|x| x.deep) => call(callee, depth),
            4..=8 => {
                let e = with(|x| { let (p, o) = (x.addrs.clone(), x.ids[1]); event(&mut x.r, &p, o) });
                let e2 = e.clone();
                let ok = guard(move || mozak_sdk::event_emit(e2)).is_ok();
                log(json!({"ev": "emit", "event": event_json(&e), "ok": ok}));
            }
            9 | 10 => {
                let (public, b) = with(|x| (x.r.chance(1, 2), { let n = if x.r.chance(1, 30) { 256 + x.r.below(20) } else { x.r.below(7) } as usize; x.r.bytes(n) }));
                let b2 = b.clone();
                let res = guard(move || mozak_sdk::write(if public { &InputTapeType::PublicTape } else { &InputTapeType::PrivateTape }, &b2).unwrap());
                log(json!({"ev": "write", "public": public, "bytes": b, "ok": res.is_ok(), "wrote": res.unwrap_or(0)}));
            }
            11 => { mozak_sdk::add_identity(callee); added += 1; log(json!({"ev": "add", "id": id(&callee)})); }
            12 if added > 0 => { mozak_sdk::rm_identity(); added -= 1; log(json!({"ev": "rm"})); }
            13 if depth == 0 && added == 0 => { mozak_sdk::rm_identity(); log(json!({"ev": "rm"})); }
            _ => {}
        }
    }
    for _ in 0..added { mozak_sdk::rm_identity(); log(json!({"ev": "rm"})); }
}
/// the bytes a value is stored as on the tapes
pub fn enc<T: rkyv::Serialize<rkyv::rancor::Strategy<rkyv::ser::AllocSerializer<256>, rkyv::rancor::Panic>>>(x: &T) -> Vec<u8> { rkyv::to_bytes::<_, 256, _>(x).unwrap().into() }
macro_rules! send {
    ($callee:expr, $depth:expr, $arg:expr, $ret:expr) => {{
        let arg = $arg;
        let given = enc(&arg);
        let callee = $callee;
        let answer = $ret;
        let got = mozak_sdk::call_send(callee, arg, |a| {
            let seen = enc(&a);
            log(json!({"ev": "send", "callee": id(&callee), "arg": given.clone(), "seen": seen}));
            frame($depth + 1);
            let answer = answer.clone();
            let ret = enc(&answer);
            log(json!({"ev": "return", "ret": ret}));
            answer
        });
        let got = enc(&got);
        log(json!({"ev": "got", "ret": got}));
    }};
}
fn call(callee: ProgramIdentifier, depth: u32) {
    let (kind, a, b, c, d) = with(|x| { let long = x.r.chance(1, 30); let n = (x.r.below(9) + if long { 200 } else { 0 }) as usize; let m = (x.r.below(14) + if long { 120 } else { 0 }) as usize; (x.r.below(4), x.r.next(), x.r.next(), x.r.bytes(n), x.r.bytes(m)) });
    match kind {
        0 => send!(callee, depth, a, b as u32),
        1 => send!(callee, depth, c, d),
        2 => send!(callee, depth, (a as u8, hex(&c)), Some(b)),
        _ => send!(callee, depth, (), a as u16),
    }
}

/// runs one script and prints its trace; the working directory is scratch
pub fn child(seed: u64) {
    let mut r = Rng::new(seed);
    let mut ids = vec![ProgramIdentifier::default()];
    let large = r.chance(1, 10);
    for k in 0..if large { 14 } else { 4 } { ids.push(if r.chance(1, 2) { ProgramIdentifier::new_from_rand_seed(r.below(50)) } else { let mut p = ProgramIdentifier::default(); p.0 .0[r.below(32) as usize] = 1 + k; p }); }
    let addrs = (0..1 + r.below(5)).map(|_| address(&mut r)).collect();
    RUN.with(|x| *x.borrow_mut() = Some(Run { r, ids, addrs, lines: vec![json!({"ev": "begin"})], budget: if large { 160 } else { 40 }, deep: if large { 12 } else { 4 } }));
    observe();
    for _ in 0..3 { frame(0); }
    mozak_sdk::native::dump_proving_files();
    let text = std::fs::read_to_string("out/tape.json").unwrap();
    let tape: SystemTape = serde_json::from_str(&text).unwrap();
    let again: SystemTape = serde_json::from_str(&serde_json::to_string(&tape).unwrap()).unwrap();
    let calls = |t: &SystemTape| t.call_tape.writer.iter().map(|m| json!({"caller": id(&m.caller), "callee": id(&m.callee), "arg": m.argument.0, "ret": m.return_.0})).collect::<Vec<_>>();
    let evs = |t: &SystemTape| {
        let mut v: Vec<Value> = t.event_tape.writer.iter().map(|(p, l)| { let mut x = report(l); x["id"] = json!(id(p)); x }).collect();
        v.sort_by_key(|x| x["id"].to_string());
        v
    };
    let inp = |m: &std::collections::HashMap<ProgramIdentifier, mozak_sdk::common::types::RawMessage>| {
        let mut v: Vec<Value> = m.iter().map(|(p, l)| json!({"id": id(p), "bytes": l.0})).collect();
        v.sort_by_key(|x| x["id"].to_string());
        v
    };
    let shown = |t: &SystemTape| json!({"calls": calls(t), "events": evs(t), "public": inp(&t.public_input_tape.writer), "private": inp(&t.private_input_tape.writer)});
    let (a, b) = (shown(&tape), shown(&again));
    log(json!({"ev": "dump", "tape": a, "stable": a == b, "hashes": hashes()}));
    let mut o = std::io::stdout().lock();
    for l in with(|x| std::mem::take(&mut x.lines)) { writeln!(o, "{l}").unwrap(); }
}
pub fn parent(o: &mut Out, seed: u64, out: &str) {
    let dir = format!("{out}-scratch-{seed}");
    std::fs::create_dir_all(&dir).unwrap();
    let c = std::process::Command::new(std::env::current_exe().unwrap()).args(["child", &seed.to_string()]).current_dir(&dir).output().unwrap();
    let mut n = 0;
    for l in String::from_utf8_lossy(&c.stdout).lines() { if let Ok(v) = serde_json::from_str::<Value>(l) { o.line(&v); n += 1; } }
    if !c.status.success() || n == 0 { o.line(&json!({"ev": "crash", "seed": seed, "status": format!("{:?}", c.status), "stderr": String::from_utf8_lossy(&c.stderr)})); }
    std::fs::remove_dir_all(&dir).unwrap();
}
