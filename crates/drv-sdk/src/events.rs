use drv_util::{guard, Out, Rng};
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{Event, Poseidon2Hash, ProgramIdentifier, StateAddress};
use mozak_sdk::native::OrderedEvents;
use serde_json::{json, Value};

use crate::{address, event, event_json, hashes, observe, type_name};

/// what the public interface of an event list reports
pub fn report(o: &OrderedEvents) -> Value {
    let hints: Vec<Value> = o.get_canonical_order_temporal_hints().iter().map(|h| json!({
        "addr": h.0.address.inner(), "type": type_name(h.0.type_), "value": h.0.value.inner(), "at": h.1})).collect();
    let temporal: Vec<Value> = o.get_temporal_order_canonical_hints().iter().map(|(e, k)| json!({"event": event_json(e), "at": k})).collect();
    json!({"hints": hints, "temporal": temporal, "root": o.canonical_hash().inner()})
}
/// a list of events, in the order given, as one list and pushed one at a time
pub fn events(o: &mut Out, seed: u64) {
    let mut r = Rng::new(seed);
    let many = if r.chance(1, 12) { 30 } else { 6 };
    let pool: Vec<StateAddress> = (0..1 + r.below(many)).map(|_| address(&mut r)).collect();
    let n = if r.chance(1, 12) { 0 } else if r.chance(1, 20) { 17 + r.below(30) } else { 1 + r.below(9) };
    let mut list: Vec<Event> = (0..n).map(|_| event(&mut r, &pool, ProgramIdentifier::new_from_rand_seed(3))).collect();
    if n > 1 && r.chance(1, 3) { let k = r.below(n) as usize; let j = r.below(n) as usize; list[k] = list[j].clone(); }
    observe();
    let l2 = list.clone();
    let got = guard(move || {
        let built = OrderedEvents::new(l2.clone());
        let mut pushed = OrderedEvents::default();
        for e in l2 { pushed.push_temporal(e); }
        (report(&built), report(&pushed))
    });
    let got = match got { Ok((a, b)) => json!({"ok": true, "new": a, "pushed": b}), Err(m) => json!({"ok": false, "msg": m}) };
    o.line(&json!({"ev": "events", "list": list.iter().map(event_json).collect::<Vec<_>>(), "got": got, "hashes": hashes()}));
}
/// sorted addressed leaves
pub fn merkle(o: &mut Out, seed: u64) {
    let mut r = Rng::new(seed);
    let n = match r.below(10) { 0 => 0, 1 => 1, 2 => 2, 3..=7 => 2 + r.below(7), 8 => 2 + r.below(14), _ => if r.chance(1, 4) { 17 + r.below(50) } else { 2 + r.below(20) } };
    let shape = r.below(5);
    let mut addrs: Vec<u64> = (0..n).map(|k| match shape {
        0 => k,
        1 => r.below(4) << r.below(63),
        2 => u64::from_le_bytes(address(&mut r).0),
        3 => (r.below(2) << 63) | r.below(3),
        _ => r.next() >> r.below(64),
    }).collect();
    addrs.sort_unstable();
    let leaves: Vec<(u64, Poseidon2Hash)> = addrs.iter().enumerate().map(|(k, a)| (*a, Poseidon2Hash([k as u8 + 1; 32]))).collect();
    observe();
    let l2 = leaves.clone();
    let got = guard(move || merkleize(l2));
    let got = match got { Ok(h) => json!({"ok": true, "root": h.inner()}), Err(m) => json!({"ok": false, "msg": m}) };
    o.line(&json!({"ev": "merkle", "leaves": leaves.iter().map(|(a, h)| json!([a.to_le_bytes(), h.inner()])).collect::<Vec<_>>(), "got": got, "hashes": hashes()}));
}
