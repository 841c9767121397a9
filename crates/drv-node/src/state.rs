//! Histories of the state tree.
use drv_util::{guard, Out, Rng};
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::Address;
use mozak_node::{C, D, F};
use mozak_recproofs::circuits::state_update::{BranchCircuit, BranchProof, Indices, LeafCircuit};
use mozak_recproofs::test_utils::CONFIG;
use mozak_recproofs::Object;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::poseidon2::observer;
use plonky2::plonk::circuit_data::latest;
use serde_json::{json, Value};

use crate::terms::{bits, Terms, H};

pub type Obj = Object<F>;
pub fn h4(v: [F; 4]) -> H { v.map(|x| x.to_canonical_u64()) }
pub fn f4(v: H) -> [F; 4] { v.map(F::from_noncanonical_u64) }

/// The circuits of the tree once more, to tell whose proof a proof is.
pub struct Levels { branches: Vec<BranchCircuit<F, C, D>> }
impl Levels {
    pub fn new(depth: usize) -> Self {
        let leaf = LeafCircuit::<F, C, D>::new(&CONFIG);
        let mut branches = vec![BranchCircuit::from_leaf(&CONFIG, &leaf)];
        for _ in 0..depth { branches.push(BranchCircuit::from_branch(&CONFIG, branches.last().unwrap())); }
        Self { branches }
    }
    /// the latest proof made by the circuit of a root of this depth
    pub fn root(&self, depth: usize) -> Option<BranchProof<F, C, D>> {
        let c = &self.branches[depth];
        let v = &c.circuit.verifier_only.circuit_digest;
        let proof = latest::proof::<F, C, D>(h4(v.elements))?;
        Some(BranchProof {
            proof,
            tag: core::marker::PhantomData,
            indices: Indices { _bounded: c.bounded.indices, summarized: c.summarized.indices, old: c.old.indices, new: c.new.indices, address: c.address.indices },
        })
    }
}
pub fn root_json(t: &mut Terms, p: &BranchProof<F, C, D>) -> Value {
    json!({"old": t.id(h4(p.old().elements)), "new": t.id(h4(p.new().elements)), "sp": p.summary_present(), "sum": t.id(h4(p.summary().elements)), "ap": p.address_present()})
}
pub fn obj_json(t: &mut Terms, o: &Obj) -> Value {
    json!({"owner": t.id(h4(o.constraint_owner)), "last": o.last_updated.to_canonical_u64().to_string(), "credits": o.credits.to_canonical_u64().to_string(), "data": t.id(h4(o.data))})
}
pub fn maybe_obj(t: &mut Terms, o: Option<&Obj>) -> Value { o.map_or_else(|| json!({"owner": 0, "last": "", "credits": "", "data": 0}), |o| obj_json(t, o)) }
pub fn addresses(r: &mut Rng, depth: usize, n: usize) -> Vec<u64> {
    let mask = u64::MAX >> (63 - depth);
    let mut v: Vec<u64> = vec![];
    while v.len() < n {
        let a = match r.below(4) {
            0 => r.below(4), 1 => r.next(), 2 if !v.is_empty() => *r.pick(&v) ^ (1 << r.below(64)), _ => *r.pick(&[0, u64::MAX, 1 << 63, 5]),
        } & mask;
        if !v.contains(&a) || r.chance(1, 4) { v.push(a) }
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn object(r: &mut Rng) -> Obj {
    let h = |r: &mut Rng| f4(if r.chance(1, 4) { [r.below(2), 0, 0, 0] } else { [r.below(3), r.next(), 7, r.below(5)] });
    Obj { constraint_owner: h(r), last_updated: F::from_canonical_u64(r.below(4)), credits: F::from_canonical_u64(r.below(4) * 100), data: h(r) }
}

pub fn main(path: &str, n: usize, seed: u64, shards: usize, shard: usize) {
    const DEPTHS: [usize; 7] = [0, 1, 2, 3, 4, 8, 63];
    observer::start();
    latest::start();
    let levels = Levels::new(63);
    let aux = AuxStateData::new(&CONFIG, 63);
    let mut o = Out::new(&format!("{path}.{shard}"));
    let mut t = Terms::default();
    let mut r = Rng::new(seed.wrapping_mul(0x57A7E).wrapping_add(shard as u64));
    for _ in 0..n / shards {
        let depth = if r.chance(1, 12) { 63 } else { DEPTHS[r.below(6) as usize] };
        let addrs = { let n = 1 + r.below(6) as usize; let m = n.min(2 << depth.min(4)); addresses(&mut r, depth, m) };
        let objs: Vec<Obj> = (0..3).map(|_| object(&mut r)).collect();
        // what the empty tree's root is made of, top down
        let mut empty = vec![Obj::default().hash()];
        for _ in 0..=depth { let e = *empty.last().unwrap(); empty.push(<plonky2::hash::poseidon2::Poseidon2Hash as plonky2::plonk::config::Hasher<F>>::two_to_one(e, e)); }
        let mut state = State::new(&aux, depth);
        let mut proof = None;
        o.line(&json!({"ev": "begin", "depth": depth, "empty": empty.iter().map(|e| t.id(h4(e.elements))).collect::<Vec<_>>(), "addrs": addrs.iter().map(|a| json!([a.to_string(), bits(*a, depth + 1)])).collect::<Vec<_>>()}));
        // a proof of the initial root exists from the start, but was made with the circuits
        latest::start();
        'history: for _ in 0..1 + r.below(4) {
            for _ in 0..r.below(7) {
                let a = *r.pick(&addrs);
                let (op, j) = match r.below(5) {
                    0 | 1 => (Operation::Read, json!({"op": "read"})),
                    2 => (Operation::Delete, json!({"op": "delete"})),
                    _ => { let x = *r.pick(&objs); (Operation::Upsert(x), json!({"op": "upsert", "obj": obj_json(&mut t, &x)})) }
                };
                // contradictory requests end the history: the state is not used after a panic
                let clash = matches!(state.get_state(Address(a)), (Some(_), None)) || matches!((state.get_state(Address(a)), &op), ((x, Some(y)), _) if x != Some(y));
                if clash && r.chance(7, 8) { continue; }
                let ok = guard(|| state.apply_operation(Address(a), op)).is_ok();
                if let Some(p) = levels.root(depth) { proof = Some(p); }
                o.line(&json!({"ev": "apply", "a": a.to_string(), "what": j, "ok": ok}));
                if !ok { break 'history; }
                let root: Vec<_> = proof.iter().map(|p| root_json(&mut t, p)).collect();
                o.line(&json!({"ev": "root", "root": root}));
            }
            for a in &addrs {
                let (x, y) = state.get_state(Address(*a));
                let (x, y) = (x.copied(), y.copied());
                let e = json!({"ev": "get", "a": a.to_string(), "old": maybe_obj(&mut t, x.as_ref()), "new": maybe_obj(&mut t, y.as_ref())});
                o.line(&e);
            }
            if guard(|| state.finalize()).is_err() { o.line(&json!({"ev": "finalize", "ok": false})); break; }
            if let Some(p) = levels.root(depth) { proof = Some(p); }
            o.line(&json!({"ev": "finalize", "ok": true}));
            let root: Vec<_> = proof.iter().map(|p| root_json(&mut t, p)).collect();
            o.line(&json!({"ev": "root", "root": root}));
            for a in &addrs {
                let (x, y) = state.get_state(Address(*a));
                let (x, y) = (x.copied(), y.copied());
                let e = json!({"ev": "get", "a": a.to_string(), "old": maybe_obj(&mut t, x.as_ref()), "new": maybe_obj(&mut t, y.as_ref())});
                o.line(&e);
            }
        }
    }
    o.done();
    t.write(&format!("{path}.{shard}.terms"));
}
