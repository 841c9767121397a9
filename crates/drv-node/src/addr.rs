//! Branch addresses, address paths and the generic trees.
use drv_util::{guard, Out, Rng};
use mozak_node::block_proposer::{reduce_tree, reduce_tree_by_address, AddressPath, BranchAddress, Dir};
use serde_json::{json, Value};

use crate::terms::bits;

/// The branch address `height` above the leaves whose address is the number `a`.
fn build(height: usize, a: u64) -> BranchAddress {
    let mut x = BranchAddress::root(64 + height);
    for b in bits(a, 64) { x = x.child(if b == 1 { Dir::Right } else { Dir::Left }).unwrap(); }
    x
}
/// Reads a branch address off through its public face: how far down it goes, and where it
/// stands among the addresses of its height.
fn read(x: BranchAddress) -> Value {
    let mut h = 0;
    let mut y = x;
    while let Ok(z) = y.child(Dir::Left) { y = z; h += 1; if h > 200 { return json!({"h": -1, "bits": []}); } }
    let mut a = 0u64;
    for i in (0..64).rev() {
        let t = build(h, a | 1 << i);
        if t <= x { a |= 1 << i; }
    }
    if build(h, a) != x { return json!({"h": -2, "bits": []}); }
    json!({"h": h, "bits": bits(a, 64)})
}
fn pick(r: &mut Rng) -> (usize, u64) {
    let h = match r.below(6) { 0 => 0, 1 => 63, 2 => 64, 3 => r.below(4) as usize, 4 => 60 + r.below(5) as usize, _ => r.below(65) as usize };
    let a = match r.below(6) { 0 => 0, 1 => u64::MAX, 2 => 1 << r.below(64), 3 => r.below(8), 4 => r.next() >> r.below(64), _ => r.next() };
    (h, if h >= 64 { 0 } else { a & (u64::MAX >> h) })
}
fn near(r: &mut Rng, (h, a): (usize, u64)) -> (usize, u64) {
    match r.below(5) {
        0 => (h, a),
        1 => (h, if h >= 64 { 0 } else { (a ^ (1 << r.below(64))) & (u64::MAX >> h) }),
        2 => { let n = r.below(65 - h as u64) as usize; (h + n, if n >= 64 { 0 } else { a >> n }) }
        3 => {
            let n = r.below(h as u64 + 1) as usize;
            (h - n, if n >= 64 { r.next() } else { (a << n) | (if n == 0 { 0 } else { r.next() >> (64 - n) }) })
        }
        _ => pick(r),
    }
}
fn out(v: Result<Value, String>, panic: Value) -> Value { v.unwrap_or(panic) }
fn nowhere() -> Value { json!({"h": -9, "bits": []}) }

pub fn main(path: &str, n: usize, seed: u64, shards: usize) {
    for s in 0..shards {
        let mut o = Out::new(&format!("{path}.{s}"));
        let mut r = Rng::new(seed.wrapping_mul(0xADD4).wrapping_add(s as u64));
        for _ in 0..n / shards {
            let x = pick(&mut r);
            let y = near(&mut r, x);
            let at = |(h, a): (usize, u64)| json!({"h": h, "bits": bits(a, 64)});
            match r.below(8) {
                0 | 1 => o.line(&json!({"ev": "compare", "x": at(x), "y": at(y), "got": out(guard(|| json!(format!("{:?}", build(x.0, x.1).compare(build(y.0, y.1))))), json!("panic"))})),
                2 | 3 => o.line(&json!({"ev": "ancestor", "x": at(x), "y": at(y), "got": out(guard(|| read(build(x.0, x.1).common_ancestor(build(y.0, y.1)))), nowhere())})),
                4 => {
                    let n = r.below(66 - x.0.min(64) as u64).min(64 - x.0.min(64) as u64) as usize;
                    o.line(&json!({"ev": "parent", "x": at(x), "n": n, "got": out(guard(|| read(build(x.0, x.1).parent(n))), nowhere())}));
                }
                5 => {
                    let len = 1 + r.below(64) as usize;
                    let a = if len >= 64 { x.1 } else { x.1 & ((1 << len) - 1) };
                    let walk = guard(|| {
                        let mut p = AddressPath::<u64>::path(a, len);
                        let mut dirs = vec![];
                        let mut zeros = vec![];
                        while let Some(q) = p { zeros.push(q.is_zero()); let (n, d) = q.next(); dirs.push(u8::from(d == Dir::Right)); p = n; }
                        json!({"dirs": dirs, "zeros": zeros})
                    });
                    o.line(&json!({"ev": "path", "bits": bits(a, len), "got": out(walk, json!({"dirs": [9], "zeros": []}))}));
                }
                6 => {
                    let n = if r.chance(1, 8) { r.below(70) } else { r.below(12) } as usize;
                    let t = guard(|| reduce_tree((0..n).map(|i| json!([i])), |x| x, |x| x, |l, r| json!([l, r])).map_or(json!([]), |x| x));
                    o.line(&json!({"ev": "tree", "n": n, "got": out(t, json!([[], [], []]))}));
                }
                _ => {
                    // sorted addresses, some of them equal, some close
                    let n = r.below(9) as usize;
                    let mut xs: Vec<u64> = vec![];
                    for _ in 0..n {
                        let a = if xs.is_empty() || r.chance(1, 2) { pick(&mut r).1 } else { let b = *r.pick(&xs); if r.chance(1, 2) { b } else { b ^ (1 << r.below(64)) } };
                        xs.push(a);
                    }
                    xs.sort_unstable();
                    let t = guard(|| reduce_tree_by_address(xs.iter().enumerate().map(|(i, a)| (*a, json!([i]))).collect(), |a| a >> 1, |_, l, r| json!([l, r])).map_or(json!([]), |x| x.1));
                    o.line(&json!({"ev": "trie", "leaves": xs.iter().map(|a| bits(*a, 64)).collect::<Vec<_>>(), "got": out(t, json!([[], [], []]))}));
                }
            }
        }
        o.done();
    }
}
