//! What the proofs of the node's circuits claim, and what a dishonest prover gets proved.
use std::collections::{HashMap, HashSet};

use drv_util::{guard, Out, Rng};
use mozak_recproofs::circuits::Proof;
use mozak_recproofs::circuits::{accumulate_delta, build_event_root, match_delta, merge, state_update, verify_block, verify_program, verify_tx};
use mozak_recproofs::subcircuits::unbounded;
use mozak_recproofs::test_utils::CONFIG;
use mozak_node::{C, D, F};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::{observer, Poseidon2Hash};
use plonky2::plonk::circuit_data::{latest, CircuitData, VerifierOnlyCircuitData};
use plonky2::plonk::forge::{self, Digest, FAKE};
use plonky2::plonk::proof::{MockProof, ProofWithPublicInputs};
use plonky2::plonk::config::Hasher;
use mozak_recproofs::{Event, EventType};
use serde_json::{json, Value};

use crate::programs::Program;
use crate::state::h4;
use crate::terms::{limbs, Terms};

type Read = Box<dyn Fn(&mut Terms, &[F]) -> Value>;
type Void = Box<dyn Fn(&[F]) -> bool>;
type Inner = ProofWithPublicInputs<F, C, D>;
type Accept = Box<dyn Fn(Inner) -> bool>;
struct Kind { name: &'static str, void: Void, read: Read, accept: Option<Accept> }
/// the circuits, by what they prove
pub struct Kinds { map: HashMap<Digest, Kind>, pub recursive: Vec<Digest>, focus: Vec<String> }

fn hash(t: &mut Terms, h: HashOut<F>) -> usize { t.id(h4(h.elements)) }
fn num(x: F) -> String { x.to_canonical_u64().to_string() }
fn small(x: F) -> u64 { x.to_canonical_u64().min(1000) }
fn digest(c: &CircuitData<F, C, D>) -> Digest { h4(c.verifier_only.circuit_digest.elements) }

fn claimed<T, I>(proof: Inner, indices: I) -> Proof<T, I, F, C, D> { Proof { proof, tag: core::marker::PhantomData, indices } }

impl Kinds {
    fn add(&mut self, name: &'static str, c: &CircuitData<F, C, D>, void: Void, read: Read) { self.map.insert(digest(c), Kind { name, void, read, accept: None }); }
    fn accept(&mut self, d: Digest, f: impl Fn(Inner) -> bool + 'static) { self.map.get_mut(&d).unwrap().accept = Some(Box::new(f)); }
    /// a leaf and a branch that may verify proofs of itself
    fn pair(&mut self, names: [&'static str; 2], leaf: &CircuitData<F, C, D>, branch: &CircuitData<F, C, D>, u: unbounded::PublicIndices, read: impl Fn(&mut Terms, &[F]) -> Value + Clone + 'static) {
        self.recursive.push(digest(branch));
        for (name, c) in names.into_iter().zip([leaf, branch]) {
            let (u, genuine) = (u.clone(), branch.verifier_only.clone());
            self.add(name, c, Box::new(move |p| { let v: VerifierOnlyCircuitData<C, D> = u.verifier.get_field(p); v != genuine }), Box::new(read.clone()));
        }
    }
    pub fn new(ps: &[Program], depth: usize, focus: &str) -> Self {
        let mut k = Self { map: HashMap::new(), recursive: vec![], focus: focus.split(',').map(Into::into).collect() };
        for q in ps {
            let i = q.indices();
            k.add("program", &q.circuit, Box::new(|_| false), Box::new(move |t, p| json!({
                "id": t.id(h4(i.program_hash.get_field(p))), "ep": i.events_present.get_field(p), "e": hash(t, i.event_root.get_field(p)),
                "call": t.id(h4(i.call_list.get_field(p))), "cast": hash(t, i.cast_root.get_field(p))})));
        }
        let ev_leaf = build_event_root::LeafCircuit::<F, C, D>::new(&CONFIG);
        let ev = build_event_root::BranchCircuit::new(&CONFIG, &ev_leaf);
        {
            let (h, vm, o) = (ev.hash.indices, ev.vm_hash.indices, ev.event_owner.indices);
            k.pair(["ev_leaf", "ev"], &ev_leaf.circuit, &ev.circuit, ev.unbounded.indices.clone(), move |t, p| json!({
                "h": hash(t, h.unpruned_hash.get_field(p)), "vm": hash(t, vm.unpruned_hash.get_field(p)), "o": t.id(h4(o.values.get_field(p)))}));
        }
        let mg_leaf = merge::LeafCircuit::<F, C, D>::new(&CONFIG);
        let mg = merge::BranchCircuit::new(&CONFIG, &mg_leaf);
        {
            let i = mg.merge.indices;
            k.pair(["mg_leaf", "mg"], &mg_leaf.circuit, &mg.circuit, mg.unbounded.indices.clone(), move |t, p| json!({
                "ap": i.a_present.get_field(p), "a": hash(t, i.a_hash.get_field(p)), "bp": i.b_present.get_field(p), "b": hash(t, i.b_hash.get_field(p)),
                "mp": i.merged_present.get_field(p), "m": hash(t, i.merged_hash.get_field(p))}));
        }
        let pr_leaf = verify_program::LeafCircuit::<F, C, D>::new(&CONFIG, &ps[0].indices(), &ps[0].circuit.common, &ev);
        let pr = verify_program::BranchCircuit::new(&CONFIG, &mg, &pr_leaf);
        {
            let (id, e, call, cast) = (pr.program_id.indices, pr.events.indices, pr.call_list.indices, pr.cast_root.indices);
            k.pair(["pr_leaf", "pr"], &pr_leaf.circuit, &pr.circuit, pr.unbounded.indices.clone(), move |t, p| json!({
                "ids": hash(t, id.unpruned_hash.get_field(p)), "ep": e.hash_present.get_field(p), "e": hash(t, e.hash.get_field(p)),
                "call": t.id(h4(call.values.get_field(p))), "cast": t.id(h4(cast.values.get_field(p)))}));
        }
        let tx_leaf = verify_tx::LeafCircuit::<F, C, D>::new(&CONFIG, &pr);
        let tx = verify_tx::BranchCircuit::new(&CONFIG, &mg, &tx_leaf);
        {
            let e = tx.events.indices;
            k.pair(["tx_leaf", "tx"], &tx_leaf.circuit, &tx.circuit, tx.unbounded.indices.clone(), move |t, p| json!({
                "ep": e.hash_present.get_field(p), "e": hash(t, e.hash.get_field(p))}));
        }
        let acc_leaf = accumulate_delta::LeafCircuit::<F, C, D>::new(&CONFIG);
        let acc = accumulate_delta::BranchCircuit::new(&CONFIG, &acc_leaf);
        {
            let (h, i) = (acc.event_hash.indices, acc.partial_state.indices);
            k.pair(["acc_leaf", "acc"], &acc_leaf.circuit, &acc.circuit, acc.unbounded.indices.clone(), move |t, p| json!({
                "h": hash(t, h.unpruned_hash.get_field(p)), "a": num(i.address.get_field(p)), "fl": small(i.object_flags.get_field(p)),
                "oo": t.id(h4(i.old_owner.get_field(p))), "no": t.id(h4(i.new_owner.get_field(p))), "od": t.id(h4(i.old_data.get_field(p))),
                "nd": t.id(h4(i.new_data.get_field(p))), "cd": limbs(i.credit_delta.get_field(p).to_canonical_u64())}));
        }
        let ma_leaf = match_delta::LeafCircuit::<F, C, D>::new(&CONFIG, &acc);
        let ma = match_delta::BranchCircuit::new(&CONFIG, &ma_leaf);
        {
            let (e, s, h) = (ma.event_hash.indices, ma.state_hash.indices, ma.block_height.indices);
            k.pair(["ma_leaf", "ma"], &ma_leaf.circuit, &ma.circuit, ma.unbounded.indices.clone(), move |t, p| json!({
                "e": hash(t, e.unpruned_hash.get_field(p)), "s": hash(t, s.unpruned_hash.get_field(p)), "ht": num(h.values.get_field(p)[0])}));
        }
        let st_leaf = state_update::LeafCircuit::<F, C, D>::new(&CONFIG);
        let mut levels = vec![state_update::BranchCircuit::from_leaf(&CONFIG, &st_leaf)];
        for _ in 0..depth { levels.push(state_update::BranchCircuit::from_branch(&CONFIG, levels.last().unwrap())); }
        for (n, c) in [("st_leaf", &st_leaf.circuit)].into_iter().chain(levels.iter().enumerate().map(|(i, l)| (if i == depth { "st_top" } else { "st" }, &l.circuit))) {
            let l = &levels[0];
            let (s, old, new, a) = (l.summarized.indices, l.old.indices, l.new.indices, l.address.indices);
            k.add(n, c, Box::new(|_| false), Box::new(move |t, p| {
                let at: F = a.node_address.get_field(p);
                json!({"sp": s.summary_hash_present.get_field(p), "s": hash(t, s.summary_hash.get_field(p)), "old": hash(t, old.unpruned_hash.get_field(p)),
                    "new": hash(t, new.unpruned_hash.get_field(p)), "ap": a.node_present.get_field(p), "a": num(at), "l": num(at.double()), "r": num(at.double() + F::ONE)})
            }));
        }
        let block = verify_block::Circuit::<F, C, D>::new(&CONFIG, &tx, &ma, levels.last().unwrap());
        k.recursive.push(digest(&block.circuit));
        let genuine = digest(&block.circuit);
        for (n, c) in [("block0", &block.block.dummy), ("block", &block.circuit)] {
            let (i, genuine) = (block.block.indices.clone(), block.circuit.verifier_only.clone());
            let j = i.clone();
            k.add(n, c, Box::new(move |p| { let v: VerifierOnlyCircuitData<C, D> = j.verifier.get_field(p); v != genuine }), Box::new(move |t, p| {
                let h: F = i.block_height.get_field(p);
                json!({"base": hash(t, i.base_state_root.get_field(p)), "root": hash(t, i.state_root.get_field(p)), "ht": num(h), "before": num(h - F::ONE)})
            }));
        }
        // the circuits check proofs on their own as well
        let i = build_event_root::Indices { unbounded: ev.unbounded.indices.clone(), hash: ev.hash.indices, vm_hash: ev.vm_hash.indices, event_owner: ev.event_owner.indices };
        k.accept(digest(&ev.circuit), move |p| ev.verify(claimed(p, i.clone())).is_ok());
        let i = merge::Indices { unbounded: mg.unbounded.indices.clone(), merge: mg.merge.indices };
        k.accept(digest(&mg.circuit), move |p| mg.verify(claimed(p, i.clone())).is_ok());
        let i = verify_program::Indices { unbounded: pr.unbounded.indices.clone(), program_id: pr.program_id.indices, events: pr.events.indices, call_list: pr.call_list.indices, cast_root: pr.cast_root.indices };
        k.accept(digest(&pr.circuit), move |p| pr.verify(claimed(p, i.clone())).is_ok());
        let i = verify_tx::Indices { unbounded: tx.unbounded.indices.clone(), events: tx.events.indices };
        k.accept(digest(&tx.circuit), move |p| tx.verify(claimed(p, i.clone())).is_ok());
        let i = accumulate_delta::Indices { unbounded: acc.unbounded.indices.clone(), event_hash: acc.event_hash.indices, partial_state: acc.partial_state.indices };
        k.accept(digest(&acc.circuit), move |p| acc.verify(claimed(p, i.clone())).is_ok());
        let i = match_delta::Indices { unbounded: ma.unbounded.indices.clone(), event_hash: ma.event_hash.indices, state_hash: ma.state_hash.indices, compare_delta: ma.compare_delta.indices, block_height: ma.block_height.indices };
        k.accept(digest(&ma.circuit), move |p| ma.verify(claimed(p, i.clone())).is_ok());
        let i = verify_block::Indices { block: block.block.indices.clone() };
        k.accept(genuine, move |p| block.verify(claimed(p, i.clone())).is_ok());
        k
    }
    fn looks_at(&self, d: &Digest) -> bool { self.map.get(d).is_some_and(|k| self.focus.iter().any(|f| k.name.split('_').next() == Some(f.as_str()))) }
    fn focus(&self) -> HashSet<Digest> { self.map.keys().copied().filter(|d| self.looks_at(d)).collect() }
    fn claim(&self, t: &mut Terms, d: Digest, pis: &[u64]) -> Value {
        let p: Vec<F> = pis.iter().map(|x| F::from_canonical_u64(*x)).collect();
        match self.map.get(&d) {
            Some(k) => json!({"kind": k.name, "void": (k.void)(&p), "p": (k.read)(t, &p)}),
            None => json!({"kind": if d == FAKE { "fake" } else { "other" }, "void": true, "p": {}}),
        }
    }
    /// the facts proved since the last time
    pub fn report(&self, o: &mut Out, t: &mut Terms) {
        for f in forge::take() {
            if !self.looks_at(&f.digest) { continue; }
            let mut v = self.claim(t, f.digest, &f.pis);
            let kids: Vec<Value> = f.kids.iter().map(|k: &MockProof| self.claim(t, k.digest, &k.public_inputs)).collect();
            if let Some(a) = &self.map[&f.digest].accept { v["accepted"] = json!(a(latest::with_inputs(f.digest, f.pis))); }
            v["ev"] = json!("fact");
            v["kids"] = kids.into();
            v["how"] = json!(f.how.unwrap_or_default());
            o.line(&v);
        }
    }
}

struct Direct { acc_leaf: accumulate_delta::LeafCircuit<F, C, D>, acc: accumulate_delta::BranchCircuit<F, C, D>, ma_leaf: match_delta::LeafCircuit<F, C, D>, ma: match_delta::BranchCircuit<F, C, D>,
    mg_leaf: merge::LeafCircuit<F, C, D>, mg: merge::BranchCircuit<F, C, D> }
impl Direct {
    fn new() -> Self {
        let acc_leaf = accumulate_delta::LeafCircuit::<F, C, D>::new(&CONFIG);
        let acc = accumulate_delta::BranchCircuit::new(&CONFIG, &acc_leaf);
        let ma_leaf = match_delta::LeafCircuit::<F, C, D>::new(&CONFIG, &acc);
        let ma = match_delta::BranchCircuit::new(&CONFIG, &ma_leaf);
        let mg_leaf = merge::LeafCircuit::<F, C, D>::new(&CONFIG);
        let mg = merge::BranchCircuit::new(&CONFIG, &mg_leaf);
        Self { acc_leaf, acc, ma_leaf, ma, mg_leaf, mg }
    }
    /// events and objects with credits, which the node does not make yet
    fn matches(&self, r: &mut Rng, owners: &[[F; 4]], o: &mut Out, t: &mut Terms) {
        let f = F::from_canonical_u64;
        let datas = [[F::ZERO; 4], [1, 2, 3, 4].map(f), [9, 0, 0, 0].map(f)];
        let mut made: Vec<match_delta::LeafProof<F, C, D>> = vec![];
        for k in 0..1 + r.below(3) {
            let a = 4 * k + r.below(4);
            let (old_owner, old_data) = (*r.pick(owners), *r.pick(&datas));
            let (mut new_owner, mut new_data) = (old_owner, old_data);
            let mut es = vec![];
            let mut e = |owner, ty, value| es.push(Event { owner, ty, address: a, value });
            if r.chance(1, 2) || old_owner == [F::ZERO; 4] {
                new_owner = if old_owner == [F::ZERO; 4] { owners[1 + r.below(owners.len() as u64 - 1) as usize] } else { [F::ZERO; 4] };
                e(old_owner, EventType::GiveOwner, new_owner);
                e(new_owner, EventType::TakeOwner, old_owner);
            }
            if r.chance(1, 2) { new_data = *r.pick(&datas); e(old_owner, EventType::Write, new_data); }
            if r.chance(1, 3) { e(*r.pick(owners), EventType::Read, old_data); }
            if r.chance(1, 3) { e(*r.pick(owners), EventType::Ensure, new_data); }
            let mut credits: i64 = 0;
            let old_credits = r.below(1000) + if r.chance(1, 6) { (1 << 40) - 600 } else { 0 };
            for _ in 0..r.below(3) {
                let n = if r.chance(1, 5) { (1 << 40) - 1 - r.below(9) } else { r.below(400) };
                let minus = r.chance(1, 2);
                let by = if r.chance(5, 6) { old_owner } else { *r.pick(owners) };
                credits += if minus { -(n as i64) } else { n as i64 };
                e(by, EventType::CreditDelta, [f(n), F::ZERO, f(r.below(2)), F::from_bool(minus)]);
            }
            if es.is_empty() { es.push(Event { owner: *r.pick(owners), ty: EventType::Read, address: a, value: old_data }); }
            for i in (1..es.len()).rev() { es.swap(i, r.below(i as u64 + 1) as usize); }
            let mut new_credits = F::from_canonical_u64(old_credits) + F::from_noncanonical_i64(credits);
            // something is not so
            if r.chance(1, 4) {
                let i = r.below(es.len() as u64) as usize;
                match r.below(9) {
                    0 => es[i].owner = *r.pick(owners),
                    1 => es[i].value = *r.pick(&datas),
                    2 => es[i].ty = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner][r.below(5) as usize],
                    3 => { es.remove(i); }
                    4 => { let e = es[i]; es.push(e); }
                    5 => new_owner = *r.pick(owners),
                    6 => new_data = *r.pick(&datas),
                    7 => new_credits += F::ONE,
                    _ => if es[i].ty == EventType::CreditDelta { es[i].value[[0, 3][r.below(2) as usize]] = f(*r.pick(&[2, 0, 1 << 40, 1 << 33])) },
                }
                if es.is_empty() { continue; }
            }
            let ids: Vec<usize> = es.iter().map(|e| hash(t, e.hash())).collect();
            let proved = guard(|| {
                let leaf: Vec<_> = es.iter().map(|e| self.acc_leaf.prove(&self.acc, e.address, e.owner, e.ty, e.value).unwrap()).collect();
                // any shape of tree
                let mut tree: Vec<accumulate_delta::BranchProof<F, C, D>> = vec![];
                for l in &leaf {
                    let next = match tree.pop() {
                        None => self.acc.prove_one(l).unwrap(),
                        Some(t) if r.chance(1, 3) => { let u = self.acc.prove_one(l).unwrap(); self.acc.prove(&t, &u).unwrap() }
                        Some(t) if r.chance(1, 2) => self.acc.prove(l, &t).unwrap(),
                        Some(t) => self.acc.prove(&t, l).unwrap(),
                    };
                    tree.push(next);
                }
                let v = match_delta::LeafWitnessValue { block_height: 7, last_updated: r.below(7), old_owner, new_owner, old_data, new_data, old_credits, new_credits: new_credits.to_canonical_u64() };
                made.push(self.ma_leaf.prove(&self.ma, &tree[0], v).unwrap());
            });
            let mut side = |owner: [F; 4], data: [F; 4], c: u64| json!({"owner": t.id(h4(owner)), "data": t.id(h4(data)), "c": limbs(c)});
            o.line(&json!({"ev": "match", "ok": proved.is_ok(), "es": ids, "old": side(old_owner, old_data, old_credits), "new": side(new_owner, new_data, new_credits.to_canonical_u64())}));
        }
        let _ = guard(|| {
            let mut it = made.iter();
            let Some(l) = it.next() else { return };
            let mut t = self.ma.prove_one(l).unwrap();
            for l in it { t = self.ma.prove(&t, l).unwrap(); }
        });
    }
    /// trees of numbers
    fn merges(&self, r: &mut Rng, o: &mut Out) {
        let made = guard(|| {
            let mut hash = || r.chance(3, 4).then(|| { let x = HashOut::from([1 + r.below(3), 0, 0, 5].map(F::from_canonical_u64)); if r.chance(1, 3) { <Poseidon2Hash as Hasher<F>>::two_to_one(x, x) } else { x } });
            let leaf: Vec<_> = (0..4).map(|_| self.mg_leaf.prove(&self.mg, hash(), hash()).unwrap()).collect();
            let a = self.mg.prove(&leaf[0], &leaf[1]).unwrap();
            let b = self.mg.prove(&a, &leaf[2]).unwrap();
            let c = self.mg.prove(&leaf[3], &leaf[3]).unwrap();
            self.mg.prove(&b, &c).unwrap();
        });
        o.line(&json!({"ev": "merge", "ok": made.is_ok()}));
    }
}

pub fn main(path: &str, n: usize, seed: u64, shards: usize, shard: usize, focus: &str) {
    let depth = [3, 8, 3, 8, 3, 8, 3, 63][shard % 8];
    observer::start();
    latest::start();
    let ps = crate::tx::programs();
    let kinds = Kinds::new(&ps, depth, focus);
    let mut o = Out::new(&format!("{path}.{shard}"));
    let mut t = Terms::default();
    t.limbs = true;
    t.id([0; 4]);
    let mut r = Rng::new(seed.wrapping_mul(0xF02E).wrapping_add(shard as u64));
    let every = if depth == 63 { 8 } else { 1 };
    forge::start(seed.wrapping_mul(77).wrapping_add(shard as u64), 10, every, &kinds.recursive, kinds.focus());
    let mut none = Out::new("/dev/null");
    crate::block::histories(&mut none, &mut t, &ps, &mut r, depth, n / shards, &mut |t| kinds.report(&mut o, t));
    let owners: Vec<[F; 4]> = ps.iter().map(|p| p.id).collect();
    let direct = Direct::new();
    for _ in 0..n / shards {
        let mut rest = Out::new("/dev/null");
        direct.matches(&mut r, &owners, if focus.contains("ma") { &mut o } else { &mut rest }, &mut t);
        direct.merges(&mut r, if focus.contains("mg") { &mut o } else { &mut rest });
        kinds.report(&mut o, &mut t);
    }
    if focus.contains("block") && depth < 63 {
        let lone = crate::block::Lone::new(&ps, depth);
        for i in 0..2 + n / shards / 8 {
            // inside the state, or a number of states further
            let k = if i % 3 == 0 { 0 } else { 1 + r.below(3) };
            let a = r.next() % (2 << depth) | k << (depth + 1);
            let ok = lone.accepted(&ps, &mut r, a, i as u64);
            o.line(&json!({"ev": "lone", "inside": k == 0, "ok": ok}));
            kinds.report(&mut o, &mut t);
        }
    }
    eprintln!("{:?}", forge::stats());
    forge::stop();
    o.done();
    t.write(&format!("{path}.{shard}.terms"));
}
