//! Histories of the transaction accumulator.
use drv_util::{guard, Out, Rng};
use mozak_node::block_proposer::convert_event;
use mozak_node::block_proposer::transactions::{AuxTransactionData, TransactionAccumulator};
use mozak_node::F;
use mozak_recproofs::test_utils::CONFIG;
use mozak_sdk::common::types::{CanonicalEvent, ProgramIdentifier};
use plonky2::field::types::Field;
use plonky2::hash::poseidon2::observer;
use serde_json::{json, Value};

use crate::programs::{cast_root, event, event_root, Program, TYPES};
use crate::state::h4;
use crate::terms::{bits, Terms};

pub fn programs() -> Vec<Program> {
    let mut v = vec![Program::new([0; 4])];
    v.extend((1..5).map(|i| Program::new([31 * i, 41, 59 + i, 26])));
    v
}
pub fn event_json(t: &mut Terms, e: &CanonicalEvent) -> Value {
    json!({"a": u64::from_le_bytes(e.address.0).to_string(), "ty": format!("{:?}", e.type_), "value": t.id(e.value.to_u64s())})
}
struct Tx { key: String, cast: Vec<usize>, ids: Vec<ProgramIdentifier>, call: [F; 4], events: Vec<Vec<CanonicalEvent>>, left: Vec<usize> }

fn addresses(r: &mut Rng) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for _ in 0..1 + r.below(5) {
        let a = match r.below(5) {
            0 => r.below(4), 1 => r.next(), 2 | 3 if !v.is_empty() => *r.pick(&v) ^ (1 << r.below(64)), _ => *r.pick(&[0, 1 << 63, 1, 0xFFFF_FFFE_FFFF_FFFF, 5]),
        };
        // the tree cannot hold addresses above p - 2
        if a >> 32 != 0xFFFF_FFFF { v.push(a) }
    }
    if v.is_empty() { v.push(3) }
    v.sort_unstable();
    v.dedup();
    v
}
fn some_events(r: &mut Rng, addrs: &[u64]) -> Vec<CanonicalEvent> {
    let n = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(4), _ => r.below(9) };
    let mut v: Vec<CanonicalEvent> = (0..n).map(|_| {
        let value = if r.chance(1, 3) { [r.below(2), 0, 0, 0] } else { [r.next() >> 1, r.below(3), 9, r.next() >> 2] };
        event(*r.pick(addrs), *r.pick(&TYPES), value)
    }).collect();
    v.sort_by_key(|e| u64::from_le_bytes(e.address.0));
    v
}
fn new_tx(r: &mut Rng, programs: &[Program], addrs: &[u64], k: usize) -> Tx {
    let n = match r.below(4) { 0 => 1, 1 => 2 + r.below(2), 2 => 2 + r.below(5), _ => 1 + r.below(10) } as usize;
    let cast: Vec<usize> = (0..n).map(|_| r.below(programs.len() as u64) as usize).collect();
    let ids = cast.iter().map(|c| programs[*c].pid()).collect();
    let call = [k as u64, 7, r.below(3), 309].map(F::from_canonical_u64);
    let events = (0..n).map(|_| some_events(r, addrs)).collect();
    let mut left: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { left.swap(i, r.below(i as u64 + 1) as usize); }
    Tx { key: format!("t{k}"), cast, ids, call, events, left }
}

pub fn main(path: &str, n: usize, seed: u64, shards: usize, shard: usize) {
    observer::start();
    let ps = programs();
    let aux = AuxTransactionData::new(&CONFIG, &ps[0].indices(), &ps[0].circuit.common);
    let mut o = Out::new(&format!("{path}.{shard}"));
    let mut t = Terms::default();
    let mut r = Rng::new(seed.wrapping_mul(0x7AC5).wrapping_add(shard as u64));
    for _ in 0..n / shards {
        let addrs = addresses(&mut r);
        o.line(&json!({"ev": "begin", "addrs": addrs.iter().map(|a| json!([a.to_string(), bits(*a, 64)])).collect::<Vec<_>>()}));
        let mut acc = TransactionAccumulator::new(&aux);
        let mut txs: Vec<Tx> = vec![];
        let mut made = 0;
        let mut steps = 4 + r.below(24);
        'history: while steps > 0 {
            steps -= 1;
            if txs.is_empty() || (txs.len() < 3 && r.chance(1, 4)) { txs.push(new_tx(&mut r, &ps, &addrs, made)); made += 1; }
            if r.chance(1, 12) {
                let got = guard(|| acc.finalize());
                let line = match &got {
                    Err(_) => json!({"ok": false, "panic": true, "present": false, "root": 0}),
                    Ok(Err(_)) => json!({"ok": false, "panic": false, "present": false, "root": 0}),
                    Ok(Ok(p)) => json!({"ok": true, "panic": false, "present": p.events_present(), "root": t.id(h4(p.events().elements))}),
                };
                o.line(&json!({"ev": "finalize", "got": line}));
                if got.is_err() { break 'history; }
                continue;
            }
            let k = r.below(txs.len() as u64) as usize;
            let other = r.below(ps.len() as u64) as usize;
            let tx = &txs[k];
            // mostly the next one that is due, sometimes one that was here before
            let due = tx.left.last().copied();
            let i = match due { Some(i) if r.chance(9, 10) => i, _ => r.below(tx.ids.len() as u64) as usize };
            let (mut index, mut prog, mut verifier, mut proved_call, mut proved_root) = (i, tx.cast[i], tx.cast[i], tx.call, cast_root(&tx.ids));
            let mut proved_events = tx.events[i].clone();
            let mut root = None;
            let mut how = "good";
            if r.chance(1, 6) {
                match r.below(7) {
                    0 => { index = tx.ids.len() + r.below(3) as usize; how = "index"; }
                    1 if other != prog => { prog = other; verifier = other; how = "program"; }
                    2 if other != prog => { verifier = other; how = "verifier"; }
                    3 => { proved_call[r.below(4) as usize] += F::ONE; how = "call"; }
                    4 => { proved_root.elements[r.below(4) as usize] += F::ONE; how = "cast"; }
                    5 if !proved_events.is_empty() => {
                        let j = r.below(proved_events.len() as u64) as usize;
                        if r.chance(1, 2) { proved_events.remove(j); } else { let v = proved_events[j].value.to_u64s(); proved_events[j].value = [v[0], v[1] + 1, v[2], v[3]].into(); }
                        how = "events";
                    }
                    6 => {
                        if proved_events.is_empty() { root = Some(Some(Default::default())); } else { root = Some(None); }
                        how = "presence";
                    }
                    _ => {}
                }
            }
            let proof = ps[prog].prove(root.unwrap_or_else(|| event_root(&proved_events)), proved_call, proved_root);
            let got = guard(|| acc.ingest_program(index, &ps[verifier].circuit.verifier_only, &proof, &tx.ids, &tx.events[i], tx.call).map(|(_, c)| c));
            let g = json!({"ok": matches!(got, Ok(Ok(_))), "panic": got.is_err(), "complete": matches!(got, Ok(Ok(true)))});
            let ev: Vec<_> = tx.events[i].iter().map(|e| event_json(&mut t, e)).collect();
            // the numbers of the digests of the events, as the node names them
            for e in &tx.events[i] { t.id(h4(convert_event(&tx.ids[i], e).hash().elements)); }
            o.line(&json!({"ev": "ingest", "key": tx.key, "n": tx.ids.len(), "index": index + 1, "how": how, "owner": t.id(tx.ids[i].0.to_u64s()), "events": ev, "got": g}));
            if got.is_err() { break 'history; }
            if how == "good" {
                let tx = &mut txs[k];
                tx.left.retain(|x| *x != i);
                if tx.left.is_empty() {
                    if r.chance(1, 6) { tx.left = (0..tx.ids.len()).collect(); } else { txs.remove(k); }
                    if r.chance(1, 3) {
                        // leave it to the end otherwise
                        steps += 1;
                    }
                }
            }
        }
        let got = guard(|| acc.finalize());
        let line = match &got {
            Err(_) => json!({"ok": false, "panic": true, "present": false, "root": 0}),
            Ok(Err(_)) => json!({"ok": false, "panic": false, "present": false, "root": 0}),
            Ok(Ok(p)) => json!({"ok": true, "panic": false, "present": p.events_present(), "root": t.id(h4(p.events().elements))}),
        };
        o.line(&json!({"ev": "finalize", "got": line}));
    }
    o.done();
    t.write(&format!("{path}.{shard}.terms"));
}
