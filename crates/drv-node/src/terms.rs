//! Digests as numbers: every digest that appears in a trace gets a number and the term it
//! is the hash of, so that the specification sees structure instead of field elements.
use std::collections::HashMap;

use plonky2::hash::poseidon2::observer;
use serde_json::{json, Value};

pub type H = [u64; 4];

#[derive(Default)]
pub struct Terms { ids: HashMap<H, usize>, pub rows: Vec<Value>, /// with the elements in 16-bit limbs
    pub limbs: bool }

pub fn limbs(x: u64) -> [u64; 4] { core::array::from_fn(|i| x >> (16 * i) & 0xFFFF) }
fn four(v: &[u64]) -> H { core::array::from_fn(|i| v[i]) }
fn words(v: &[u64]) -> Vec<u64> { v.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| b << (8 * i)).sum()).collect() }

impl Terms {
    /// numbers start at 1
    pub fn id(&mut self, h: H) -> usize {
        if let Some(i) = self.ids.get(&h) { return *i; }
        let pre = observer::preimage(h);
        let mut row = match pre.as_deref() {
            None if h == [0; 4] => json!({"k": "zero"}),
            None => json!({"k": "raw"}),
            Some(p) => match p.len() {
                8 => json!({"k": "pair", "l": self.id(four(p)), "r": self.id(four(&p[4..]))}),
                9 => json!({"k": "sum", "a": p[0].to_string(), "o": self.id(four(&p[1..])), "n": self.id(four(&p[5..]))}),
                10 => json!({"k": "ten", "p": self.id(four(p)), "x": p[4].to_string(), "y": p[5].to_string(), "q": self.id(four(&p[6..]))}),
                64 if p.iter().all(|b| *b < 256) => { let w = words(p); json!({"k": "bpair", "l": self.id(four(&w)), "r": self.id(four(&w[4..]))}) }
                48 if p.iter().all(|b| *b < 256) => { let w = words(p); json!({"k": "bev", "x": w[0].to_string(), "y": w[1].to_string(), "q": self.id(four(&w[2..]))}) }
                n => json!({"k": "other", "n": n}),
            },
        };
        if self.limbs {
            row["w"] = json!(h.map(limbs));
            if let Some([.., y, _, _, _, _]) = pre.as_deref().filter(|p| p.len() == 10) { row["yw"] = json!(limbs(*y)); }
        }
        self.rows.push(row);
        self.ids.insert(h, self.rows.len());
        self.rows.len()
    }
    pub fn write(&self, path: &str) {
        let mut o = drv_util::Out::new(path);
        for r in &self.rows { o.line(r); }
        o.done();
    }
}
/// most significant bit first
pub fn bits(a: u64, n: usize) -> Vec<u8> { (0..n).rev().map(|i| if i >= 64 { 0 } else { (a >> i & 1) as u8 }).collect() }
