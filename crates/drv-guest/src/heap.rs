//! Guests that ask for memory: what they are given, where, and whether it stays theirs.
use drv_util::{Out, Rng};
use mozak_runner::state::RawTapes;
use serde_json::{json, Value};

use crate::{enc, prefixed, vm};

fn wide(x: u32) -> Value { json!([x >> 16, x & 0xffff]) }
fn empty() -> RawTapes {
    RawTapes { private_tape: prefixed(&[]), public_tape: prefixed(&[]), call_tape: prefixed(&enc(&Vec::<mozak_sdk::common::types::CrossProgramCall>::new())),
               event_tape: prefixed(&enc(&Vec::<mozak_sdk::common::types::CanonicalOrderedTemporalHints>::new())), ..RawTapes::default() }
}
const KINDS: [&str; 4] = ["give", "clear", "resize", "free"];
struct Ask { kind: u8, slot: u8, n: u32, align: u8 }
impl Ask {
    fn script(&self) -> Vec<u8> { let mut v = vec![6, self.kind, self.slot]; v.extend(self.n.to_le_bytes()); v.push(self.align); v }
    fn json(&self) -> Value { json!({"k": KINDS[usize::from(self.kind)], "slot": self.slot, "n": wide(self.n), "align": 1u32 << self.align}) }
}
fn size(r: &mut Rng, greed: u64) -> u32 {
    match r.below(8) {
        0 => 1 + r.below(3) as u32,
        1 => 8,
        2 => 1 + r.below(300) as u32,
        3 => 1 << r.below(14),
        4 if greed > 0 => 0x7fff_0000 - (r.below(3) as u32) * 0x1000_0000,
        5 if greed > 1 => *r.pick(&[0x7fff_ff00u32, 0x4000_0000, 0x2000_0001, 0x1000_0000, 0x0fff_ffff]),
        _ => 1 + r.below(64) as u32,
    }
}
pub fn session(o: &mut Out, g: &vm::Guest, seed: u64) {
    let mut r = Rng::new(seed);
    let greed = r.below(3);
    let n = 3 + r.below(25) as usize;
    let (lo, hi) = g.image();
    // what is asked for is planned as if every block were given; nothing is done with one that was not
    let mut live: Vec<(u8, u32)> = vec![];
    let mut free: Vec<u8> = (0..64).collect();
    let mut asks: Vec<Ask> = vec![];
    while asks.len() < n {
        let kind = if live.is_empty() || free.is_empty() { r.below(2) } else { *r.pick(&[0u64, 0, 0, 1, 1, 1, 2, 3]) } as u8;
        let ask = match kind {
            0 | 1 => { let n = size(&mut r, greed); let align = if r.chance(1, 6) { r.below(17) } else { r.below(5) } as u8;
                       let n = n.min(0x7fff_ffff - (1 << align)); let slot = free.pop().unwrap(); live.push((slot, n)); Ask { kind, slot, n, align } }
            2 => { let small: Vec<usize> = (0..live.len()).filter(|k| live[*k].1 < 2000).collect(); if small.is_empty() { continue }
                   let k = *r.pick(&small); live[k].1 = 1 + r.below(600) as u32; Ask { kind, slot: live[k].0, n: live[k].1, align: 0 } }
            _ => { let k = r.below(live.len() as u64) as usize; let slot = live.remove(k).0; free.insert(0, slot); Ask { kind, slot, n: 0, align: 0 } }
        };
        asks.push(ask);
    }
    let script: Vec<u8> = asks.iter().flat_map(Ask::script).collect();
    let end = g.run(&script, empty());
    let answers: Vec<(u8, u8, u32)> = end.out.chunks_exact(7).map(|c| (c[1], c[2], u32::from_le_bytes(c[3..7].try_into().unwrap()))).take(end.done as usize).collect();
    o.line(&json!({"ev": "guest", "from": wide(lo), "to": wide(hi)}));
    let mut held = [false; 64];
    for (k, a) in asks.iter().enumerate() {
        let slot = usize::from(a.slot);
        let Some(x) = answers.get(k) else { if a.kind < 2 || held[slot] { o.line(&json!({"ev": "lost", "op": a.json()})); break } continue };
        if a.kind > 1 && !held[slot] { continue }
        // a refused resize leaves the block as it was
        held[slot] = match a.kind { 0 | 1 => x.2 != 0, 2 => true, _ => false };
        o.line(&json!({"ev": "ask", "op": a.json(), "at": wide(x.2), "good": x.0 == 1, "kept": x.1 == 1}));
    }
}
