//! Records what the native SDK does, as line-delimited JSON for TLC.
mod events;
mod script;

use drv_util::Out;
use mozak_sdk::common::types::{Event, EventType, ProgramIdentifier, StateAddress, StateObject};
use serde_json::{json, Value};

pub fn hex(b: &[u8]) -> String { format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()) }
pub fn id(p: &ProgramIdentifier) -> String { hex(&p.inner()) }
pub fn type_name(t: EventType) -> &'static str {
    match t { EventType::Write => "Write", EventType::Ensure => "Ensure", EventType::Read => "Read", EventType::GiveOwner => "GiveOwner", EventType::TakeOwner => "TakeOwner" }
}
pub fn event_json(e: &Event) -> Value {
    json!({"addr": e.object.address.inner(), "type": type_name(e.type_), "owner": id(&e.object.constraint_owner), "data": e.object.data})
}
/// every hash the code under test computed: bytes -> digest
pub fn hashes() -> Value {
    use plonky2::hash::poseidon2::observer;
    let mut v: Vec<(Vec<u64>, [u64; 4])> = observer::all();
    v.sort();
    json!(v.iter().map(|(i, o)| json!({"inp": i, "out": o.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()})).collect::<Vec<_>>())
}
pub fn observe() { plonky2::hash::poseidon2::observer::start(); }

pub fn address(r: &mut drv_util::Rng) -> StateAddress {
    let mut a = [0u8; 8];
    match r.below(8) {
        0 => {}
        1 | 2 => a[r.below(8) as usize] = *r.pick(&[1u8, 2, 0x80, 0xff]),
        3 => { a[0] = r.below(3) as u8; a[7] = r.below(3) as u8; }
        4 => { a[r.below(8) as usize] = r.below(4) as u8; a[r.below(8) as usize] = 0x80 >> r.below(8); }
        5 => a = [255; 8],
        _ => a = r.next().to_le_bytes(),
    }
    StateAddress(a)
}
pub fn event(r: &mut drv_util::Rng, pool: &[StateAddress], owner: ProgramIdentifier) -> Event {
    let data = match r.below(5) {
        0 => vec![],
        1 => vec![r.below(2) as u8; 1 + r.below(3) as usize],
        2 => vec![7; 6 + r.below(4) as usize],
        _ => { let n = if r.chance(1, 25) { 60 + r.below(300) } else { r.below(20) } as usize; r.bytes(n) }
    };
    Event {
        type_: *r.pick(&[EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner]),
        object: StateObject { address: *r.pick(pool), constraint_owner: owner, data },
    }
}

fn main() { drv_util::run(real_main) }
fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let shards = |f: &dyn Fn(&mut Out, u64)| {
        let (n, k) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
        for s in 0..k {
            let mut o = Out::new(&format!("{}.{s}", a[2]));
            for c in (0..n).filter(|c| c % k == s) { f(&mut o, seed.wrapping_mul(1_000_003).wrapping_add(c)); }
            o.done();
        }
    };
    match a[1].as_str() {
        "child" => script::child(a[2].parse().unwrap()),
        "scripts" => shards(&|o, s| script::parent(o, s, &a[2])),
        "events" => shards(&events::events),
        "merkle" => shards(&events::merkle),
        x => panic!("unknown subcommand {x}"),
    }
}
