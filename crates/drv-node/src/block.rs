//! Chains of blocks: transactions, matches and state proofs put together.
use std::collections::BTreeMap;

use drv_util::{guard, Out, Rng};
use mozak_node::block_proposer::block::{AuxBlockData, Blocks};
use mozak_node::block_proposer::matches::{AuxMatchesData, Matches};
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::transactions::{AuxTransactionData, TransactionAccumulator};
use mozak_node::block_proposer::{Address, OngoingTxKey};
use mozak_node::{C, D, F};
use mozak_recproofs::circuits::{match_delta, state_update, verify_tx};
use mozak_recproofs::test_utils::CONFIG;
use mozak_sdk::common::types::{CanonicalEvent, EventType, ProgramIdentifier};
use plonky2::field::types::Field;
use plonky2::hash::poseidon2::{observer, Poseidon2Hash};
use plonky2::plonk::circuit_data::latest;
use plonky2::plonk::config::Hasher;
use serde_json::{json, Value};

use crate::programs::{cast_root, event, event_root, Program};
use crate::state::{addresses, f4, h4, obj_json, root_json, Levels, Obj};
use crate::terms::{bits, Terms, H};
use crate::tx::{event_json, programs};

/// one program's part in a transaction
#[derive(Clone)]
struct Sub { program: usize, events: Vec<CanonicalEvent> }
type Txs = Vec<Vec<Sub>>;
#[derive(Clone)]
struct Matched { txs: Txs, objs: Vec<(u64, Obj, Obj)>, height: u64, proof: match_delta::BranchProof<F, C, D> }
#[derive(Clone)]
struct Done { txs: Txs, proof: verify_tx::BranchProof<F, C, D> }

struct World<'a> { r: &'a mut Rng, ps: &'a [Program], objs: BTreeMap<u64, Obj>, values: Vec<H> }
impl World<'_> {
    fn owner(&self, i: usize) -> H { h4(self.ps[i].id) }
    fn program_of(&self, id: [F; 4]) -> usize { self.ps.iter().position(|p| p.id == id).unwrap_or(1) }
    /// events at one address and the object they lead to, mostly consistent
    fn story(&mut self, a: u64, height: u64) -> (Vec<(usize, CanonicalEvent)>, Obj, Obj) {
        use EventType::{Ensure, GiveOwner, Read, TakeOwner, Write};
        let n = self.ps.len() as u64;
        let old = self.objs.get(&a).copied().unwrap_or_default();
        let mut new = old;
        let mut v = vec![];
        let value = *self.r.pick(&self.values.clone());
        let exists = old.constraint_owner != [F::ZERO; 4];
        let me = if exists { self.program_of(old.constraint_owner) } else { 0 };
        let quick = self.r.chance(2, 3);
        let write = self.r.chance(1, 2);
        if !exists || self.r.chance(1, 4) {
            // creation, deletion
            let to = if exists { 0 } else { 1 + self.r.below(n - 1) as usize };
            v.push((me, event(a, GiveOwner, self.owner(to))));
            v.push((to, event(a, TakeOwner, h4(old.constraint_owner))));
            new.constraint_owner = self.ps[to].id;
            if write && !quick { v.push((me, event(a, Write, value))); new.data = f4(value); }
        } else if write {
            v.push((me, event(a, Write, value)));
            new.data = f4(value);
        }
        let some = if v.is_empty() { 1 + self.r.below(2) } else if quick { 0 } else { self.r.below(2) };
        for _ in 0..some {
            let p = self.r.below(n) as usize;
            v.push(if self.r.chance(1, 2) { (p, event(a, Read, h4(old.data))) } else { (p, event(a, Ensure, h4(new.data))) });
        }
        if v.iter().any(|(_, e)| matches!(e.type_, Write | GiveOwner)) { new.last_updated = F::from_canonical_u64(height); }
        if new.constraint_owner == [F::ZERO; 4] {
            new.last_updated = F::ZERO;
            // what is left of a deleted object is up to the block
            if write && quick { v.push((me, event(a, Write, [0; 4]))); new.data = [F::ZERO; 4]; }
        }
        if self.r.chance(1, 12) { self.spoil(a, &mut v); }
        for i in (1..v.len()).rev() { v.swap(i, self.r.below(i as u64 + 1) as usize); }
        (v, old, new)
    }
    fn spoil(&mut self, a: u64, v: &mut Vec<(usize, CanonicalEvent)>) {
        use EventType::{Ensure, GiveOwner, Read, TakeOwner, Write};
        let j = self.r.below(v.len() as u64) as usize;
        let other = self.r.below(self.ps.len() as u64) as usize;
        let value = if self.r.chance(1, 2) { *self.r.pick(&self.values.clone()) } else { self.owner(other) };
        match self.r.below(5) {
            0 => { v.remove(j); }
            1 => v[j].0 = other,
            2 => v[j].1.value = value.into(),
            3 => { let t = *self.r.pick(&[Write, Ensure, Read, GiveOwner, TakeOwner]); v.push((other, event(a, t, value))); }
            _ => { let e = v[j].clone(); v.push(e); }
        }
        if v.is_empty() { v.push((other, event(a, Ensure, value))); }
    }
}
fn txs_json(t: &mut Terms, ps: &[Program], txs: &Txs) -> Value {
    txs.iter().map(|tx| tx.iter().map(|s| {
        let ev: Vec<_> = s.events.iter().map(|e| event_json(t, e)).collect();
        json!({"owner": t.id(h4(ps[s.program].id)), "events": ev})
    }).collect::<Value>()).collect()
}
fn objs_json(t: &mut Terms, objs: &[(u64, Obj, Obj)]) -> Value {
    objs.iter().map(|(a, x, y)| json!({"a": a.to_string(), "old": obj_json(t, x), "new": obj_json(t, y)})).collect()
}
/// the transactions as the accumulator takes them in
fn complete(aux: &AuxTransactionData, ps: &[Program], txs: &Txs, salt: u64, r: &mut Rng) -> Option<(Done, Vec<OngoingTxKey>)> {
    let mut keys = vec![];
    let mut acc = TransactionAccumulator::new(aux);
    for (k, tx) in txs.iter().enumerate() {
        let ids: Vec<ProgramIdentifier> = tx.iter().map(|s| ps[s.program].pid()).collect();
        let call = [salt, k as u64, 5, 309].map(F::from_canonical_u64);
        let mut order: Vec<usize> = (0..tx.len()).collect();
        for i in (1..order.len()).rev() { order.swap(i, r.below(i as u64 + 1) as usize); }
        for i in order {
            let s = &tx[i];
            let proof = ps[s.program].prove(event_root(&s.events), call, cast_root(&ids));
            let (key, _) = acc.ingest_program(i, &ps[s.program].circuit.verifier_only, &proof, &ids, &s.events, call).unwrap();
            if !keys.contains(&key) { keys.push(key); }
        }
    }
    acc.finalize().ok().map(|proof| (Done { txs: txs.clone(), proof }, keys))
}
fn matched(aux: &AuxMatchesData, ps: &[Program], keys: &[OngoingTxKey], txs: &Txs, objs: &[(u64, Obj, Obj)], height: u64) -> Result<match_delta::BranchProof<F, C, D>, String> {
    guard(|| {
        let mut m = Matches::new(aux);
        // interleaved: first everything is taken in, then one transaction after the other is ready
        let longest = txs.iter().map(Vec::len).max().unwrap_or(0);
        for i in 0..longest {
            for (k, tx) in txs.iter().enumerate() {
                if let Some(s) = tx.get(i) { m.ingest_events(keys[k], &ps[s.program].pid(), &s.events); }
            }
        }
        for k in 0..txs.len() { m.ready_tx(keys[k]).unwrap(); }
        m.finalize(height, |a| { let (_, x, y) = objs.iter().find(|o| o.0 == a.0).unwrap(); (*x, *y) })
    })
}

pub fn main(path: &str, n: usize, seed: u64, shards: usize, shard: usize) {
    observer::start();
    latest::start();
    let ps = programs();
    let mut o = Out::new(&format!("{path}.{shard}"));
    let mut t = Terms::default();
    t.id([0; 4]);
    let mut r = Rng::new(seed.wrapping_mul(0xB10C).wrapping_add(shard as u64));
    histories(&mut o, &mut t, &ps, &mut r, [3, 8, 63][shard % 3], n / shards, &mut |_| {});
    o.done();
    t.write(&format!("{path}.{shard}.terms"));
}
pub fn histories(o: &mut Out, t: &mut Terms, ps: &[Program], r: &mut Rng, depth: usize, n: usize, after: &mut dyn FnMut(&mut Terms)) {
    let tx_aux = AuxTransactionData::new(&CONFIG, &ps[0].indices(), &ps[0].circuit.common);
    let m_aux = AuxMatchesData::new(&CONFIG);
    let s_aux = AuxStateData::new(&CONFIG, depth);
    let b_aux = AuxBlockData::new(&CONFIG, &tx_aux, &m_aux, &s_aux);
    let levels = Levels::new(depth);
    for case in 0..n {
        let addrs: Vec<u64> = addresses(r, depth, 5).into_iter().filter(|a| a >> 32 != 0xFFFF_FFFF).collect();
        if addrs.is_empty() { continue; }
        let values: Vec<H> = vec![[0; 4], [r.next() >> 1, 2, 3, r.next() >> 2], [1, 0, 0, 0], h4(ps[1].id)];
        let mut objs = BTreeMap::new();
        for a in &addrs {
            if r.chance(1, 2) {
                let owner = ps[1 + r.below(ps.len() as u64 - 1) as usize].id;
                objs.insert(*a, Obj { constraint_owner: owner, last_updated: F::from_canonical_u64(r.below(2)), credits: F::from_canonical_u64(r.below(3) * 50), data: f4(*r.pick(&values)) });
            }
        }
        let mut empty = vec![Obj::default().hash()];
        for _ in 0..=depth { let e = *empty.last().unwrap(); empty.push(<Poseidon2Hash as Hasher<F>>::two_to_one(e, e)); }
        let mut state = State::new(&s_aux, depth);
        latest::start();
        for (a, x) in &objs { state.apply_operation(Address(*a), Operation::Upsert(*x)); }
        state.finalize();
        let root = levels.root(depth).map_or(*empty.last().unwrap(), |p| p.new());
        let mut blocks = Blocks::new(&b_aux, root);
        let world: Vec<_> = objs.iter().map(|(a, x)| json!({"a": a.to_string(), "obj": obj_json(t, x)})).collect();
        o.line(&json!({"ev": "begin", "depth": depth, "empty": empty.iter().map(|e| t.id(h4(e.elements))).collect::<Vec<_>>(), "world": world, "root": t.id(h4(root.elements)), "height": blocks.height(),
            "addrs": addrs.iter().map(|a| json!([a.to_string(), bits(*a, depth + 1)])).collect::<Vec<_>>()}));
        o.line(&json!({"ev": "start"}));
        let mut w = World { r, ps: ps, objs, values };
        let mut old_txs: Vec<Done> = vec![];
        let mut old_matches: Vec<Matched> = vec![];
        let mut old_states: Vec<state_update::BranchProof<F, C, D>> = vec![];
        'history: for b in 0..1 + w.r.below(5) {
            let height = blocks.height() + 1;
            // what happens, address by address, put into transactions
            let mut txs: Txs = (0..1 + w.r.below(3)).map(|_| (0..1 + w.r.below(4)).map(|_| Sub { program: w.r.below(ps.len() as u64) as usize, events: vec![] }).collect()).collect();
            let mut moved = vec![];
            let mut here = addrs.clone();
            for i in (1..here.len()).rev() { here.swap(i, w.r.below(i as u64 + 1) as usize); }
            here.truncate(1 + w.r.below(3) as usize);
            here.sort_unstable();
            for a in here {
                let (story, old, new) = w.story(a, height);
                moved.push((a, old, new));
                let one = w.r.below(txs.len() as u64) as usize;
                let spread = w.r.chance(1, 5);
                for (p, e) in story {
                    let k = if spread { w.r.below(txs.len() as u64) as usize } else { one };
                    let tx = &mut txs[k];
                    match tx.iter().position(|s| s.program == p) {
                        Some(i) => tx[i].events.push(e),
                        None => { let i = w.r.below(tx.len() as u64 + 1) as usize; tx.insert(i, Sub { program: p, events: vec![e] }) }
                    }
                }
            }
            for tx in &mut txs { for s in tx { s.events.sort_by_key(|e| u64::from_le_bytes(e.address.0)); } }
            let Some((done, keys)) = complete(&tx_aux, ps, &txs, (case * 100) as u64 + b, w.r) else { break };
            // the match: of the same events, mostly
            let mut m_txs = txs.clone();
            let mut m_height = height;
            let mut m_objs = moved.clone();
            let mut s_objs = moved.clone();
            match w.r.below(24) {
                0 => m_height = height + w.r.below(3) - 1,
                1 => { let i = w.r.below(m_objs.len() as u64) as usize; m_objs[i].2.data = f4(*w.r.pick(&w.values.clone())); s_objs = m_objs.clone(); }
                2 => { let i = w.r.below(m_objs.len() as u64) as usize; m_objs[i].2.credits += F::from_canonical_u64(1); s_objs = m_objs.clone(); }
                3 => { let i = w.r.below(m_objs.len() as u64) as usize; m_objs[i].2.constraint_owner = ps[w.r.below(5) as usize].id; s_objs = m_objs.clone(); }
                4 => { let i = w.r.below(m_objs.len() as u64) as usize; m_objs[i].1.data = f4(*w.r.pick(&w.values.clone())); }
                5 => { let i = w.r.below(m_objs.len() as u64) as usize; m_objs[i].1.last_updated += F::ONE; }
                6 => { let i = w.r.below(m_objs.len() as u64) as usize; m_objs[i].1.constraint_owner = ps[w.r.below(5) as usize].id; }
                7 => { let i = w.r.below(s_objs.len() as u64) as usize; s_objs[i].2.last_updated += F::ONE; }
                8 => { let i = w.r.below(s_objs.len() as u64) as usize; s_objs[i].2.data = f4(*w.r.pick(&w.values.clone())); }
                9 => { let i = w.r.below(s_objs.len() as u64) as usize; s_objs.remove(i); }
                10 => { let a = *w.r.pick(&addrs); if !s_objs.iter().any(|x| x.0 == a) { let x = w.objs.get(&a).copied().unwrap_or_default(); s_objs.push((a, x, x)); } }
                11 => { let k = w.r.below(m_txs.len() as u64) as usize; if m_txs.len() > 1 { m_txs.remove(k); } }
                12 => { let k = w.r.below(m_txs.len() as u64) as usize; let i = w.r.below(m_txs[k].len() as u64) as usize; m_txs[k][i].events.pop(); }
                13 => { let k = w.r.below(m_txs.len() as u64) as usize; let i = w.r.below(m_txs[k].len() as u64) as usize; m_txs[k][i].program = w.r.below(5) as usize; }
                14 => { m_txs.reverse(); }
                _ => {}
            }
            // the match knows the objects its events speak of
            let spoken: Vec<u64> = m_txs.iter().flatten().flat_map(|s| s.events.iter().map(|e| u64::from_le_bytes(e.address.0))).collect();
            m_objs.retain(|x| spoken.contains(&x.0));
            let got = matched(&m_aux, ps, &keys, &m_txs, &m_objs, m_height);
            let line = json!({"ev": "match", "txs": txs_json(t, ps, &m_txs), "objs": objs_json(t, &m_objs), "height": m_height, "ok": got.is_ok()});
            o.line(&line);
            let Ok(proof) = got else { break };
            let m = Matched { txs: m_txs, objs: m_objs, height: m_height, proof };
            // the state
            let mut asked = s_objs.clone();
            for i in (1..asked.len()).rev() { asked.swap(i, w.r.below(i as u64 + 1) as usize); }
            for (a, _, new) in &asked {
                let old = w.objs.get(a).copied();
                let op = if *new == Obj::default() { if old.is_some() { Operation::Delete } else { Operation::Read } } else if Some(*new) == old { Operation::Read } else { Operation::Upsert(*new) };
                if guard(|| state.apply_operation(Address(*a), op)).is_err() { panic!("the state refused a request"); }
            }
            let Some(s) = levels.root(depth) else { break };
            // first, sometimes, with a part of another block
            let mut tries = vec![(done.clone(), m.clone(), s.clone())];
            if !old_txs.is_empty() && w.r.chance(1, 3) {
                let other = match w.r.below(4) {
                    0 => (w.r.pick(&old_txs).clone(), m.clone(), s.clone()),
                    1 => (done.clone(), w.r.pick(&old_matches).clone(), s.clone()),
                    2 => (done.clone(), m.clone(), w.r.pick(&old_states).clone()),
                    _ => { let i = w.r.below(old_txs.len() as u64) as usize; (old_txs[i].clone(), old_matches[i].clone(), old_states[i].clone()) }
                };
                tries.insert(0, other);
            }
            let mut taken = false;
            for (done, m, s) in tries {
                let got = guard(|| blocks.increment(&done.proof, &m.proof, &s).is_ok());
                let line = json!({"ev": "increment", "txs": txs_json(t, ps, &done.txs), "match": {"txs": txs_json(t, ps, &m.txs), "objs": objs_json(t, &m.objs), "height": m.height},
                    "state": root_json(t, &s), "ok": matches!(got, Ok(true)), "height": blocks.height()});
                o.line(&line);
                taken = matches!(got, Ok(true));
                if taken { break; }
            }
            if !taken { break 'history; }
            state.finalize();
            for (a, _, new) in &moved {
                if *new == Obj::default() { w.objs.remove(a); } else { w.objs.insert(*a, *new); }
            }
            old_txs.push(done);
            old_matches.push(m);
            old_states.push(s);
        }
        after(t);
    }
}

/// A first object at `a`, whose place in the state is said to be `a` modulo the size of the state.
/// Whether a block of it is accepted.
pub struct Lone { tx: AuxTransactionData, m: AuxMatchesData, b: AuxBlockData, leaf: state_update::LeafCircuit<F, C, D>, levels: Vec<state_update::BranchCircuit<F, C, D>> }
impl Lone {
    pub fn new(ps: &[Program], depth: usize) -> Self {
        let tx = AuxTransactionData::new(&CONFIG, &ps[0].indices(), &ps[0].circuit.common);
        let m = AuxMatchesData::new(&CONFIG);
        let b = AuxBlockData::new(&CONFIG, &tx, &m, &AuxStateData::new(&CONFIG, depth));
        let leaf = state_update::LeafCircuit::new(&CONFIG);
        let mut levels = vec![state_update::BranchCircuit::from_leaf(&CONFIG, &leaf)];
        for _ in 0..depth { levels.push(state_update::BranchCircuit::from_branch(&CONFIG, levels.last().unwrap())); }
        Self { tx, m, b, leaf, levels }
    }
    pub fn accepted(&self, ps: &[Program], r: &mut Rng, a: u64, salt: u64) -> bool {
        let nobody = Obj::default();
        let to = 1 + r.below(ps.len() as u64 - 1) as usize;
        let new = Obj { constraint_owner: ps[to].id, last_updated: F::ONE, credits: F::ZERO, data: [F::ZERO; 4] };
        let txs: Txs = vec![vec![
            Sub { program: 0, events: vec![event(a, EventType::GiveOwner, h4(ps[to].id))] },
            Sub { program: to, events: vec![event(a, EventType::TakeOwner, h4(ps[0].id))] },
        ]];
        let (done, keys) = complete(&self.tx, ps, &txs, salt, r).unwrap();
        let m = matched(&self.m, ps, &keys, &txs, &[(a, nobody, new)], 1).unwrap();
        let empty = self.leaf.prove(nobody.hash(), nobody.hash(), None).unwrap();
        let full = self.leaf.prove(nobody.hash(), new.hash(), Some(a)).unwrap();
        let mut state = None;
        for (i, level) in self.levels.iter().enumerate() {
            let up = |x: &_, y: &_| level.prove(x, y).unwrap();
            let (e, f) = match &state {
                None => (up(&empty, &empty), if a & 1 == 0 { up(&full, &empty) } else { up(&empty, &full) }),
                Some((e, f)) => {
                    let up = |x: &_, y: &_| level.prove(x, y).unwrap();
                    (up(e, e), if a >> i & 1 == 0 { up(f, e) } else { up(e, f) })
                }
            };
            state = Some((e, f));
        }
        let (_, f) = state.unwrap();
        let mut blocks = Blocks::new(&self.b, f.old());
        guard(|| blocks.increment(&done.proof, &m, &f).is_ok()) == Ok(true)
    }
}
