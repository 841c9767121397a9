//! Local search over the cells of one row: makes a row of a table satisfy its constraints
//! again after some of its cells have been forced to other values.
use std::collections::BTreeSet;

use mozak_circuits::air::*;
use mozak_circuits::linear_combination::ColumnSparse;
use mozak_circuits::stark::mozak_stark::TableKind;

use crate::util::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
enum LookKind { U32, U8, Shift, Xor }
struct Look { kind: LookKind, cols: Vec<ColumnSparse<F>>, filter: ColumnSparse<F> }
pub struct Ctx { pub sys: Sys, deps: Vec<Vec<Vec<(bool, usize)>>>, looks: Vec<Vec<Look>>, cost: Vec<f64> }

fn rand_f(r: &mut Rng) -> F { F::from_noncanonical_u64(r.next()) }
fn lin(c: &ColumnSparse<F>, lv: &[F], nv: &[F]) -> F {
    c.lv_linear_combination.iter().map(|(i, k)| lv[*i] * *k).sum::<F>() + c.nv_linear_combination.iter().map(|(i, k)| nv[*i] * *k).sum::<F>() + c.constant
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum V { A(usize), B(usize), L(usize) }

impl Ctx {
    pub fn new(widths: &[usize]) -> Self {
        let sys = Sys::default();
        let mut r = Rng::new(7);
        let mut deps = vec![];
        let mut cost = vec![];
        for (j, k) in kinds().into_iter().enumerate() {
            let w = widths[j];
            let mut d: Vec<BTreeSet<(bool, usize)>> = vec![];
            for _ in 0..2 {
                let (lv, nv): (Vec<F>, Vec<F>) = ((0..w).map(|_| rand_f(&mut r)).collect(), (0..w).map(|_| rand_f(&mut r)).collect());
                let base = sys.eval(k, &lv, &nv, F::ZERO);
                d.resize(base.len(), BTreeSet::new());
                for c in 0..w { for side in [false, true] {
                    let (mut a, mut b) = (lv.clone(), nv.clone());
                    if side { b[c] = rand_f(&mut r) } else { a[c] = rand_f(&mut r) }
                    for (i, (x, y)) in base.iter().zip(sys.eval(k, &a, &b, F::ZERO)).enumerate() { if x.1 != y.1 { d[i].insert((side, c)); } }
                } }
            }
            let t0 = std::time::Instant::now();
            let z = vec![F::ZERO; w];
            for _ in 0..10 { sys.eval(k, &z, &z, F::ZERO); }
            cost.push(t0.elapsed().as_secs_f64() / 10.0);
            deps.push(d.into_iter().map(|s| s.into_iter().collect()).collect());
        }
        let mut looks: Vec<Vec<Look>> = widths.iter().map(|_| vec![]).collect();
        for sides in lookups(&sys) {
            let last = sides.last().unwrap().0;
            let kind = match last { TableKind::RangeCheck => LookKind::U32, TableKind::RangeCheckU8 => LookKind::U8, TableKind::Bitshift => LookKind::Shift, TableKind::Xor => LookKind::Xor, _ => continue };
            for (k, cols, filter) in sides { if k != last { looks[k as usize].push(Look { kind, cols, filter }); } }
        }
        Ctx { sys, deps, looks, cost }
    }
    pub fn n_constraints(&self, k: usize) -> usize { self.deps[k].len() }
    fn look_ok(&self, l: &Look, lv: &[F], nv: &[F]) -> bool {
        let f = lin(&l.filter, lv, nv);
        if f == F::ZERO { return true }
        if f != F::ONE { return false }
        let v: Vec<u64> = l.cols.iter().map(|c| lin(c, lv, nv).to_canonical_u64()).collect();
        match l.kind {
            LookKind::U32 => v[0] < 1 << 32,
            LookKind::U8 => v[0] < 256,
            LookKind::Shift => v[0] < 32 && v[1] == 1 << v[0],
            LookKind::Xor => v[0] < 1 << 32 && v[1] < 1 << 32 && v[2] == v[0] ^ v[1],
        }
    }
    fn viols(&self, k: TableKind, n: usize, r: usize, a: &[F], b: &[F], c: &[F], e: F) -> Vec<V> {
        let mut out = vec![];
        let p = (r + n - 1) % n;
        let holds = |kind: Kind, at: usize| match kind { Kind::Always => true, Kind::Transition => at + 1 != n, Kind::First => at == 0, Kind::Last => at + 1 == n };
        for (i, (kind, v)) in self.sys.eval(k, a, b, e).into_iter().enumerate() { if v != F::ZERO && holds(kind, p) { out.push(V::A(i)) } }
        for (i, (kind, v)) in self.sys.eval(k, b, c, e).into_iter().enumerate() { if v != F::ZERO && holds(kind, r) { out.push(V::B(i)) } }
        for (i, l) in self.looks[k as usize].iter().enumerate() { if !self.look_ok(l, b, c) { out.push(V::L(i)) } }
        out
    }
    /// Search for values of the cells of row `r` outside `pin` that satisfy everything local
    /// to that row; returns how many conditions stay violated.
    pub fn walk(&self, t: &mut Traces, k: TableKind, r: usize, pin: &BTreeSet<usize>, e: F, rng: &mut Rng, steps: usize) -> usize {
        let n = height(t, k);
        let (a, mut b, c) = (row_vec(t, k, (r + n - 1) % n), row_vec(t, k, r), row_vec(t, k, (r + 1) % n));
        if n == 1 { return 0 }
        let steps = if self.cost[k as usize] > 5e-5 { steps / 10 } else { steps };
        let mut cur = self.viols(k, n, r, &a, &b, &c, e);
        let mut best = (cur.len(), b.clone());
        for _ in 0..steps {
            if cur.is_empty() { break }
            let v = *rng.pick(&cur);
            let mut moves: Vec<(usize, F)> = vec![];
            match v {
                V::A(i) | V::B(i) => {
                    let side = matches!(v, V::A(_));
                    for &(s, col) in &self.deps[k as usize][i] {
                        if s != side || pin.contains(&col) { continue }
                        let at = |x: F| {
                            let mut b2 = b.clone();
                            b2[col] = x;
                            if side { self.sys.eval(k, &a, &b2, e)[i].1 } else { self.sys.eval(k, &b2, &c, e)[i].1 }
                        };
                        let (y0, y1) = (at(b[col]), at(b[col] + F::ONE));
                        let slope = y1 - y0;
                        if slope != F::ZERO {
                            let x = b[col] - y0 * slope.inverse();
                            if at(x) == F::ZERO { moves.push((col, x)); continue }
                        }
                        for x in [F::ZERO, F::ONE] { if x != b[col] && at(x) == F::ZERO { moves.push((col, x)) } }
                    }
                }
                V::L(i) => {
                    let l = &self.looks[k as usize][i];
                    for (ci, col) in l.cols.iter().enumerate() { for &(j, w) in &col.lv_linear_combination {
                        if pin.contains(&j) { continue }
                        let now = lin(col, &b, &c);
                        let val = |x: usize| lin(&l.cols[x], &b, &c).to_canonical_u64();
                        let want = match l.kind {
                            LookKind::U32 => { let x = now.to_canonical_u64(); if rng.chance(1, 2) { x & 0xffff_ffff } else { u64::from(drv_util::word(rng)) } }
                            LookKind::U8 => now.to_canonical_u64() & 255,
                            LookKind::Shift => if ci == 0 { val(1).checked_ilog2().unwrap_or(0).into() } else { 1 << (val(0) & 31) },
                            LookKind::Xor => val((ci + 1) % 3) ^ val((ci + 2) % 3),
                        };
                        moves.push((j, b[j] + (F::from_noncanonical_u64(want) - now) * w.inverse()));
                    } }
                }
            }
            if moves.is_empty() { continue }
            let mut scored: Vec<(usize, usize, F)> = moves.iter().map(|(col, x)| {
                let old = b[*col];
                b[*col] = *x;
                let s = self.viols(k, n, r, &a, &b, &c, e).len();
                b[*col] = old;
                (s, *col, *x)
            }).collect();
            scored.sort_by_key(|s| s.0);
            let (_, col, x) = if rng.chance(4, 5) { let m = scored[0].0; let m: Vec<_> = scored.into_iter().filter(|s| s.0 == m).collect(); *rng.pick(&m) } else { *rng.pick(&scored) };
            b[col] = x;
            cur = self.viols(k, n, r, &a, &b, &c, e);
            if cur.len() < best.0 { best = (cur.len(), b.clone()) }
        }
        for (c, v) in best.1.iter().enumerate() { set(t, k, r, c, *v) }
        best.0
    }
    /// Recompute the row in the order its constraints introduce its cells, keeping `pin`.
    pub fn forward(&self, row: &mut [F], k: TableKind, pin: &BTreeSet<usize>) {
        let mut seen: BTreeSet<usize> = pin.clone();
        for (i, d) in self.deps[k as usize].iter().enumerate() {
            let fresh: Vec<usize> = d.iter().filter(|(s, c)| !s && !seen.contains(c)).map(|(_, c)| *c).collect();
            let v = self.sys.eval(k, row, row, F::ZERO)[i].1;
            if v != F::ZERO {
                for &c in fresh.iter().rev() {
                    let old = row[c];
                    row[c] = old + F::ONE;
                    let slope = self.sys.eval(k, row, row, F::ZERO)[i].1 - v;
                    if slope == F::ZERO { row[c] = old; continue }
                    row[c] = old - v * slope.inverse();
                    if self.sys.eval(k, row, row, F::ZERO)[i].1 == F::ZERO { break }
                    row[c] = old;
                }
            }
            seen.extend(fresh);
        }
    }
}
