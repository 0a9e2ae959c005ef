//! C09 (comparison counts) and C10 (element copies) on larger collections.

use crate::engine::{Ctx, Src};
use crate::fixed::{FKey, FVal, Tk8};
use crate::maps::{nth_key, order, AMap, Combo, Drv, MapLike, Mdl, RecHasher, Slot};
use crate::sets::{SDrv, SMdl, SOp, SetLike, SOPS};
use crate::track::{clones, cmps, live, Qk, Tk, Tv};
use crate::{ensure, ensure_eq};
use lazy_clone_collections::btree::fixed::BTreeMap as Fixed;
use std::ops::Bound;

/// upper bound for the number of levels
pub fn levels(avl: bool, n: usize, min_occ: usize) -> f64 {
    let n = n as f64 + 2.0;
    if avl {
        1.45 * n.log2() + 2.0
    } else {
        n.ln() / ((min_occ + 1) as f64).ln() + 2.0
    }
}

/// generous bound on the comparisons of one single-key operation
fn cmp_bound(avl: bool, n: usize, occ: usize) -> u64 {
    if avl {
        (8.0 * levels(true, n, 1)) as u64
    } else {
        (4.0 * (2.0 * occ as f64 + 1.0) * levels(false, n, occ)) as u64
    }
}

/// generous bound on the element clones of one single-key update
fn clone_bound(avl: bool, n: usize, occ: usize) -> u64 {
    if avl {
        (8.0 * levels(true, n, 1)) as u64
    } else {
        (8.0 * (2.0 * occ as f64 + 2.0) * levels(false, n, occ)) as u64
    }
}

/// generous bound on the heap bytes one update of a shared collection, or one
/// iterator, takes: a few nodes per level
pub fn heap_bound(avl: bool, n: usize, occ: usize) -> u64 {
    if avl {
        (6.0 * 128.0 * levels(true, n, 1)) as u64
    } else {
        (6.0 * (2.0 * occ as f64 + 2.0) * 48.0 * levels(false, n, occ)) as u64
    }
}
/// nothing that grows with the collection: `what` allocates at most `most`
pub fn lean<R>(most: u64, what: &str, n: usize, f: impl FnOnce() -> R) -> R {
    let (r, bytes, k) = crate::heap::measure(f);
    ensure!(bytes <= most, "{what} on {n} entries allocates {bytes} bytes in {k} blocks, allowed {most}");
    r
}

/// a large map reached by an adversarial history
fn big<M: MapLike>(src: &mut Src, ctx: &mut Ctx, max: u32) -> Slot<M> {
    let n = match src.weighted(&[2, 4, 2]) {
        0 => 300 + src.below(700),
        1 => 1000 + src.below(max / 4),
        _ => src.range(max / 4, max),
    };
    let dens = 1 + src.below(3);
    let mut d = Drv::<M>::empty(src, ctx, n * dens + 8);
    let mut s = d.build(n, dens);
    // churn: bulk operations and long runs
    let rounds = d.src.below(4);
    for _ in 0..rounds {
        let kind = d.src.below(6);
        let other = {
            let n = d.src.range(1, n);
            let dens = 1 + d.src.below(6);
            d.build(n, dens)
        };
        let k = nth_key(d.src, &s.md).unwrap_or(0);
        d.ctx.t(|| format!("churn kind {kind} at {k} with {} entries", other.md.len()));
        match kind {
            0 => {
                let mut o = other;
                s.m.append(&mut o.m);
                s.md.append(&mut o.md);
            }
            1 => {
                let hi = s.m.split_off(&Qk(k));
                let hmd = s.md.split_off(&k);
                if hmd.len() > s.md.len() {
                    s = Slot { m: hi, md: hmd };
                }
            }
            2 => {
                let c = [crate::maps::Combo::Union, crate::maps::Combo::Sym][d.src.usize(2)];
                let md = match c {
                    crate::maps::Combo::Union => {
                        let mut x = s.md.clone();
                        x.extend(other.md.iter().map(|(k, v)| (*k, *v)));
                        x
                    }
                    _ => s
                        .md
                        .iter()
                        .filter(|(k, _)| !other.md.contains_key(k))
                        .chain(other.md.iter().filter(|(k, _)| !s.md.contains_key(k)))
                        .map(|(k, v)| (*k, *v))
                        .collect(),
                };
                if M::AVL {
                    s = Slot { m: M::combo(&c, s.m, other.m).unwrap(), md };
                }
            }
            3 => {
                // eat from one end
                let k = s.md.len() / 2 + d.src.usize(s.md.len().max(1).min(60000)) / 2;
                let front = d.src.chance(128);
                for _ in 0..k {
                    let (a, b) = if front { (s.m.pop_first(), s.md.pop_first()) } else { (s.m.pop_last(), s.md.pop_last()) };
                    ensure_eq!(a.map(|x| (x.0.k(), x.1.v())), b, "pop");
                }
            }
            4 => {
                // delete a band, refill densely
                let ks: Vec<i32> = s.md.range(k..).take(400).map(|x| *x.0).collect();
                for k in &ks {
                    s.m.remove(&Qk(*k));
                    s.md.remove(k);
                }
                for j in 0..300 {
                    let x = k.saturating_add(j);
                    s.m.insert(Tk::new(x, 0), Tv::new(7));
                    s.md.insert(x, 7);
                }
            }
            _ => {
                // the same history on a clone, so that nodes are shared
                let c = s.m.clone();
                for j in 0..200 {
                    let x = d.keys.at((j * 37) % n as i64);
                    s.m.insert(Tk::new(x, 0), Tv::new(9));
                    s.md.insert(x, 9);
                }
                drop(c);
            }
        }
    }
    if s.md.len() < 50 {
        for j in 0..200 {
            s.m.insert(Tk::new(j, 0), Tv::new(3));
            s.md.insert(j, 3);
        }
    }
    s
}

/// comparisons of single-key operations on a map
pub fn map_costs<M: MapLike>(src: &mut Src, ctx: &mut Ctx, max: u32) {
    let s = big::<M>(src, ctx, max);
    let (mut m, mut md) = (s.m, s.md);
    if let Err(e) = m.check() {
        crate::fail!("structural self-check failed: {e}");
    }
    let bound = cmp_bound(M::AVL, md.len() + 64, M::N);
    ctx.t(|| format!("{}<N={}>: {} entries, at most {bound} comparisons allowed", M::NAME, M::N, md.len()));
    let mut worst = 0;
    src.plan(&[(1, 40)]);
    let keep = m.clone();
    let kept = md.clone();
    let mut n = 0;
    while src.next_op() {
        let k = match src.below(3) {
            0 => nth_key(src, &md).unwrap_or(0),
            1 => src.u16() as i32,
            _ => [i32::MIN, i32::MAX, 0, 1][src.usize(4)],
        };
        let op = src.below(12);
        n += 1;
        let c0 = cmps();
        let name = match op {
            0 => {
                ensure_eq!(m.get(&Qk(k)).map(|v| v.v()), md.get(&k).copied(), "get({k})");
                "get"
            }
            1 => {
                ensure_eq!(m.contains_key(&Qk(k)), md.contains_key(&k), "contains_key({k})");
                "contains_key"
            }
            2 | 3 => {
                ensure_eq!(m.insert(Tk::new(k, 0), Tv::new(1)).map(|v| v.v()), md.insert(k, 1), "insert({k})");
                "insert"
            }
            4 | 5 => {
                ensure_eq!(m.remove(&Qk(k)).map(|v| v.v()), md.remove(&k), "remove({k})");
                "remove"
            }
            6 => {
                ensure_eq!(m.pop_first().map(|x| (x.0.k(), x.1.v())), md.pop_first(), "pop_first");
                "pop_first"
            }
            7 => {
                ensure_eq!(m.pop_last().map(|x| (x.0.k(), x.1.v())), md.pop_last(), "pop_last");
                "pop_last"
            }
            8 => {
                let lo = if src.chance(128) { Bound::Included(Qk(k)) } else { Bound::Excluded(Qk(k)) };
                let e = match lo {
                    Bound::Included(_) => md.range(k..).next(),
                    _ => md.range((Bound::Excluded(k), Bound::Unbounded)).next(),
                }
                .map(|x| *x.0);
                let c1 = cmps();
                ensure_eq!(m.range((lo, Bound::Unbounded)).next().map(|x| x.0.k()), e, "range from {k}");
                ensure!(cmps() - c1 <= bound, "starting a range takes {} comparisons on {} entries (bound {bound})", cmps() - c1, md.len());
                let e = md.range(..k).next_back().map(|x| *x.0);
                ensure_eq!(m.range((Bound::Unbounded, Bound::Excluded(Qk(k)))).next_back().map(|x| x.0.k()), e, "range to {k}");
                "range start (two)"
            }
            9 => {
                ensure_eq!(m.get_mut(&Qk(k)).map(|v| v.v()), md.get(&k).copied(), "get_mut({k})");
                "get_mut"
            }
            10 => {
                let v = m.entry(Tk::new(k, 0)).or_insert(Tv::new(5)).v();
                ensure_eq!(v, *md.entry(k).or_insert(5), "entry({k})");
                "entry"
            }
            _ => {
                ensure_eq!(m.first_key_value().map(|x| x.0.k()), md.keys().next().copied(), "first_key_value");
                ensure_eq!(m.last_key_value().map(|x| x.0.k()), md.keys().next_back().copied(), "last_key_value");
                "first/last"
            }
        };
        let d = cmps() - c0;
        worst = worst.max(d);
        let b = if op == 8 { 2 * bound } else { bound };
        ensure!(
            d <= b,
            "{name}({k}) on {} entries makes {d} comparisons; logarithmic bound with wide margin: {b}",
            md.len()
        );
    }
    crate::maps::verify_map(&m, &md, true, &|| "after the measured operations".into());
    crate::maps::verify_map(&keep, &kept, true, &|| "untouched clone".into());
    ctx.label(if M::AVL { "cost: AVL" } else { "cost: B-tree" });
    ctx.label_n("cost: operations measured", n);
    ctx.nontrivial = n >= 3 && md.len() >= 200;
    ctx.t(|| format!("worst {worst} of {bound}"));
}

pub fn set_costs<S: SetLike>(src: &mut Src, ctx: &mut Ctx, max: u32) {
    let n = src.range(200, max);
    let dens = 1 + src.below(3);
    let mut d = SDrv::<S>::empty(src, ctx, n * dens + 8);
    let x = d.build(n, dens);
    let (mut s, mut md) = (x.s, x.md);
    // reshape by set algebra
    for _ in 0..d.src.below(3) {
        let op = [SOp::Union, SOp::Sym, SOp::Diff][d.src.usize(3)];
        let m = d.src.range(1, n);
        let dens = 1 + d.src.below(6);
        let o = d.build(m, dens);
        let merged = crate::sets::merge(&md, &o.md, op);
        s = if d.src.chance(128) { S::new_op(s, o.s, op) } else { s.ref_op(&o.s, op) };
        md = crate::sets::adopt_all(&s, &merged, "set algebra");
    }
    if let Err(e) = s.check() {
        crate::fail!("structural self-check failed: {e}");
    }
    let bound = cmp_bound(S::AVL, md.len() + 64, S::N);
    ctx.t(|| format!("{}<N={}>: {} elements, bound {bound}", S::NAME, S::N, md.len()));
    src.plan(&[(1, 40)]);
    let mut ops = 0;
    while src.next_op() {
        ops += 1;
        let k = if src.chance(128) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 };
        let c0 = cmps();
        let op = src.below(7);
        match op {
            0 => ensure_eq!(s.contains(&Qk(k)), md.contains_key(&k), "contains({k})"),
            1 => ensure_eq!(s.insert(Tk::new(k, 1)), md.insert(k, 1).is_none(), "insert({k})"),
            2 => ensure_eq!(s.remove(&Qk(k)), md.remove(&k).is_some(), "remove({k})"),
            3 => ensure_eq!(s.take(&Qk(k)).map(|x| x.k()), md.remove(&k).map(|_| k), "take({k})"),
            4 => ensure_eq!(s.pop_first().map(|x| x.k()), md.pop_first().map(|x| x.0), "pop_first"),
            5 => ensure_eq!(s.pop_last().map(|x| x.k()), md.pop_last().map(|x| x.0), "pop_last"),
            _ => ensure_eq!(
                s.range((Bound::Included(Qk(k)), Bound::Unbounded)).next().map(|x| x.k()),
                md.range(k..).next().map(|x| *x.0),
                "range from {k}"
            ),
        }
        let dc = cmps() - c0;
        ensure!(dc <= bound, "operation {op} on {k}, {} elements: {dc} comparisons, bound {bound}", md.len());
    }
    if let Err(e) = s.check() {
        crate::fail!("structural self-check failed after the operations: {e}");
    }
    ctx.label("cost: set");
    ctx.label_n("cost: operations measured", ops);
    ctx.nontrivial = ops >= 3 && md.len() >= 100;
}

pub fn fixed_costs<K: FKey>(src: &mut Src, ctx: &mut Ctx, max: u32) {
    let n = src.range(200, max);
    let mut m: Fixed<K, Tv> = Fixed::new();
    let mut md = Mdl::new();
    for i in order(src, n) {
        m.insert(K::mk(i as i32), Tv::new(i));
        md.insert(i as i32, i);
    }
    // thin out in one of several ways, then refill partly
    let style = src.below(4);
    let a = src.u16() as usize * n as usize / 65536;
    let ks: Vec<i32> = md
        .keys()
        .copied()
        .filter(|k| match style {
            0 => false,
            1 => k % 3 != 0,
            2 => (*k as usize) < a,
            _ => (*k as usize) >= a,
        })
        .collect();
    for k in ks {
        m.remove(&K::mk(k));
        md.remove(&k);
    }
    for i in 0..(n / 4) as i32 {
        m.insert(K::mk(i * 2), Tv::new(1));
        md.insert(i * 2, 1);
    }
    let bound = cmp_bound(false, md.len() + 64, 5);
    ctx.t(|| format!("fixed::BTreeMap<{}, _>: {} entries, bound {bound}", K::NAME, md.len()));
    src.plan(&[(1, 40)]);
    let mut ops = 0;
    while src.next_op() {
        ops += 1;
        let k = if src.chance(128) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 };
        let c0 = cmps();
        let op = src.below(4);
        match op {
            0 => ensure_eq!(m.get(&K::mk(k)).map(|v| v.v()), md.get(&k).copied(), "get({k})"),
            1 => ensure_eq!(m.insert(K::mk(k), Tv::new(4)).map(|v| v.v()), md.insert(k, 4), "insert({k})"),
            2 => ensure_eq!(m.remove(&K::mk(k)).map(|v| v.v()), md.remove(&k), "remove({k})"),
            _ => ensure_eq!(m.get_mut(&K::mk(k)).map(|v| v.v()), md.get(&k).copied(), "get_mut({k})"),
        }
        let dc = cmps() - c0;
        ensure!(dc <= bound, "operation {op} on {k}, {} entries: {dc} comparisons, bound {bound}", md.len());
    }
    crate::fixed::verify_fixed(&m, &md, &|| "after the measured operations".into());
    ctx.label("cost: fixed");
    ctx.label_n("cost: operations measured", ops);
    ctx.nontrivial = ops >= 3;
    let _ = (Tk8::mk(0), <Tv as FVal>::mk(0));
}

fn hash_of<T: std::hash::Hash>(t: &T) -> usize {
    let mut h = RecHasher::default();
    t.hash(&mut h);
    h.0.len()
}

// ------------------------------------------------------------------- C10

pub fn map_lazy<M: MapLike>(src: &mut Src, ctx: &mut Ctx, max: u32) {
    let s = big::<M>(src, ctx, max);
    let (m0, md0) = (s.m, s.md);
    let n = md0.len();
    let bound = clone_bound(M::AVL, n + 64, M::N);
    ctx.t(|| format!("{}<N={}>: {n} entries, at most {bound} element clones per shared update", M::NAME, M::N));
    ensure_eq!(live(), 2 * n, "live elements (keys and values) of the only map");
    let c0 = clones();
    let mut m = lean(64, "clone()", n, || m0.clone());
    let heap = heap_bound(M::AVL, n + 64, M::N);
    ensure_eq!(clones() - c0, 0, "element clones made by clone()");
    ensure_eq!(live(), 2 * n, "live elements after clone()");
    let mut md = md0.clone();
    src.plan(&[(1, 30)]);
    let mut ups = 0u64;
    let mut others: Vec<M> = vec![];
    while src.next_op() {
        let k = if src.chance(128) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 };
        let op = src.below(16);
        let c0 = clones();
        let mut limit = bound;
        let name = match op {
            0 | 1 => {
                let (a, b) = (Tk::new(k, 0), Tv::new(1));
                let old = lean(heap, "insert", md.len(), || m.insert(a, b));
                ensure_eq!(old.map(|v| v.v()), md.insert(k, 1), "insert({k})");
                ups += 1;
                "insert"
            }
            2 | 3 => {
                let old = lean(heap, "remove", md.len(), || m.remove(&Qk(k)));
                ensure_eq!(old.map(|v| v.v()), md.remove(&k), "remove({k})");
                ups += 1;
                "remove"
            }
            4 => {
                let old = lean(heap, "pop_first", md.len(), || m.pop_first());
                ensure_eq!(old.map(|x| x.0.k()), md.pop_first().map(|x| x.0), "pop_first");
                ups += 1;
                "pop_first"
            }
            5 => {
                let old = lean(heap, "pop_last", md.len(), || m.pop_last());
                ensure_eq!(old.map(|x| x.0.k()), md.pop_last().map(|x| x.0), "pop_last");
                ups += 1;
                "pop_last"
            }
            6 => {
                if let Some(v) = lean(heap, "get_mut", md.len(), || m.get_mut(&Qk(k))) {
                    v.set(2);
                    md.insert(k, 2);
                }
                ups += 1;
                "get_mut"
            }
            7 => {
                limit = 0;
                if others.len() < 3 {
                    others.push(lean(64, "clone()", md.len(), || m.clone()));
                }
                "clone"
            }
            8 => {
                limit = 0;
                if !others.is_empty() {
                    let j = src.usize(others.len());
                    others.swap_remove(j);
                }
                "drop of a copy"
            }
            9 => {
                limit = 0;
                lean(heap, "lookups", md.len(), || {
                    ensure_eq!(m.get(&Qk(k)).is_some(), md.contains_key(&k), "get({k})");
                    ensure_eq!(m.contains_key(&Qk(k)), md.contains_key(&k), "contains_key");
                    let _ = (m.get_key_value(&Qk(k)).is_some(), m.first_key_value().is_some(), m.last_key_value().is_some());
                    let _ = (m.len(), m.is_empty());
                });
                "lookups"
            }
            10 => {
                limit = 0;
                let len = md.len();
                lean(heap, "iter()", len, || ensure_eq!(m.iter().count(), len, "iter"));
                lean(heap, "iter().rev()", len, || ensure_eq!(m.iter().rev().count(), len, "iter rev"));
                lean(heap, "keys()", len, || ensure_eq!(m.keys().count(), len, "keys"));
                lean(heap, "values()", len, || ensure_eq!(m.values().count(), len, "values"));
                lean(heap, "for_each", len, || m.for_each(|_| ()));
                "iteration by reference"
            }
            11 => {
                limit = 0;
                let e = md.range(k..).count();
                let up = || ensure_eq!(m.range((Bound::Included(Qk(k)), Bound::Unbounded)).count(), e, "range");
                lean(heap, "range", md.len(), up);
                let down = || m.range((Bound::Unbounded, Bound::Excluded(Qk(k)))).rev().count();
                ensure_eq!(lean(heap, "range", md.len(), down), md.len() - e, "range");
                "range"
            }
            12 | 13 => {
                // in-place iteration copies no further than it gets
                let j = [1, 3, 10, 40][src.usize(4)];
                limit = 2 * bound + 8 * j;
                ups += 1 + limit / (bound + 2);
                let (back, part) = (src.chance(128), src.chance(128));
                let f = |(k, v): (&Tk, &mut Tv)| {
                    v.set(11);
                    md.insert(k.k(), 11);
                };
                match (part, back) {
                    (false, false) => m.iter_mut().take(j as usize).for_each(f),
                    (false, true) => m.iter_mut().rev().take(j as usize).for_each(f),
                    (true, false) => {
                        m.range_mut((Bound::Included(Qk(k)), Bound::Unbounded)).take(j as usize).for_each(f)
                    }
                    (true, true) => {
                        m.range_mut((Bound::Unbounded, Bound::Excluded(Qk(k)))).rev().take(j as usize).for_each(f)
                    }
                }
                "partial in-place iteration"
            }
            _ => {
                limit = 0;
                lean(2 * heap, "==", md.len(), || m == m0);
                lean(2 * heap, "cmp", md.len(), || m.cmp(&m0));
                let _ = m.hash_code();
                let _ = format!("{m:?}").len();
                "comparing, hashing, formatting"
            }
        };
        let d = clones() - c0;
        ensure!(
            d <= limit,
            "{name} ({k}) on a map of {} entries clones {d} elements (keys and values), allowed {limit}",
            md.len()
        );
        // what is shared stays shared
        let most = 2 * (n + md.len().max(n)) + 2 * others.iter().map(|o| o.len()).sum::<usize>();
        let lazy = 2 * n + (ups as usize + 1) * (bound as usize + 2);
        ensure!(live() <= most.min(lazy), "{} live elements after {ups} updates on a copy of {n} entries", live());
    }
    crate::maps::verify_map(&m0, &md0, false, &|| "the untouched copy".into());
    // the last owner copies nothing
    others.clear();
    let (mut m, mut md) = if src.chance(128) {
        drop(m0);
        (m, md)
    } else {
        drop(m);
        (m0, md0)
    };
    ensure_eq!(live(), 2 * md.len(), "live elements once a single copy is left");
    let c0 = clones();
    let none = |what: &str| ensure_eq!(clones() - c0, 0, "element clones made by {what} on the only copy");
    let ks: Vec<i32> = (0..12).map(|_| if src.chance(150) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 }).collect();
    for (j, &k) in ks.iter().enumerate() {
        match j % 4 {
            0 => {
                ensure_eq!(m.insert(Tk::new(k, 0), Tv::new(1)).map(|v| v.v()), md.insert(k, 1), "insert({k})");
                none("insert");
            }
            1 => {
                ensure_eq!(m.remove(&Qk(k)).map(|v| v.v()), md.remove(&k), "remove({k})");
                none("remove");
            }
            2 => {
                if let Some(v) = m.get_mut(&Qk(k)) {
                    v.set(8);
                    md.insert(k, 8);
                }
                none("get_mut");
            }
            _ => {
                ensure_eq!(m.pop_first().map(|x| x.0.k()), md.pop_first().map(|x| x.0), "pop_first");
                none("pop_first");
                ensure_eq!(m.pop_last().map(|x| x.0.k()), md.pop_last().map(|x| x.0), "pop_last");
                none("pop_last");
            }
        }
    }
    for _ in 0..src.below(4) {
        sole_bulk(src, &mut m, &mut md);
    }
    let c0 = clones();
    let none = |what: &str| ensure_eq!(clones() - c0, 0, "element clones made by {what} on the only copy");
    lean(heap, "iter_mut()", md.len(), || m.iter_mut().for_each(|(_, v)| v.set(3)));
    none("iter_mut");
    lean(heap, "iter_mut().rev()", md.len(), || m.iter_mut().rev().take(5).for_each(|(_, v)| v.set(4)));
    none("iter_mut().rev()");
    let stop = src.usize(md.len().min(60000) + 1);
    let style = src.below(3);
    let a0 = crate::heap::heap().bytes;
    let mut it = m.into_iter();
    for j in 0..stop {
        let back = style == 1 || (style == 2 && j % 2 == 1);
        let e = if back { md.pop_last() } else { md.pop_first() };
        let g = if back { it.next_back() } else { it.next() };
        ensure_eq!(g.map(|x| x.0.k()), e.map(|x| x.0), "into_iter item {j}");
    }
    drop(it);
    let a = crate::heap::heap().bytes - a0;
    ensure!(a <= heap, "into_iter on the only copy allocates {a} bytes, allowed {heap}");
    none("into_iter");
    ensure_eq!(live(), 0, "live elements at the end");
    ctx.label(if M::AVL { "lazy: AVL" } else { "lazy: B-tree" });
    ctx.label_n("lazy: shared updates", ups);
    ctx.nontrivial = ups >= 2 && n >= 100;
    let _: Option<AMap> = None;
}

/// one whole-collection operation on maps nobody shares: copies nothing
fn sole_bulk<M: MapLike>(src: &mut Src, m: &mut M, md: &mut Mdl) {
    let other = |src: &mut Src, md: &Mdl| {
        let n = [3, 40, md.len() as u32 + 1][src.below(3) as usize];
        let off = if src.chance(128) { src.u16() as i32 } else { -2 * n as i32 - 1 };
        let (mut o, mut omd) = (M::default(), Mdl::new());
        for i in 0..n as i32 {
            o.insert(Tk::new(off + 3 * i, 0), Tv::new(6));
            omd.insert(off + 3 * i, 6);
        }
        (o, omd)
    };
    let c0 = clones();
    let what = match src.below(8) {
        // AvlMap::retain rebuilds the map from copies
        0 if !M::AVL => {
            let d = 2 + src.below(9) as i32;
            m.retain(|k, _| k.k() % d != 0);
            md.retain(|k, _| k % d != 0);
            "retain"
        }
        0 | 1 => {
            let (mut o, mut omd) = other(src, md);
            if src.chance(128) {
                std::mem::swap(m, &mut o);
                std::mem::swap(md, &mut omd);
            }
            m.append(&mut o);
            md.append(&mut omd);
            "append"
        }
        2 => {
            let k = nth_key(src, md).unwrap_or(0);
            let (hi, hmd) = (m.split_off(&Qk(k)), md.split_off(&k));
            if src.chance(128) {
                (*m, *md) = (hi, hmd)
            }
            "split_off"
        }
        3 if M::AVL => {
            let (o, omd) = other(src, md);
            let c = [Combo::Union, Combo::Inter, Combo::Diff, Combo::Sym][src.below(4) as usize];
            let old = md.clone();
            match c {
                Combo::Union => md.extend(omd.iter().map(|(k, v)| (*k, *v))),
                Combo::Inter => md.retain(|k, _| omd.contains_key(k)),
                Combo::Diff => md.retain(|k, _| !omd.contains_key(k)),
                Combo::Sym => {
                    md.retain(|k, _| !omd.contains_key(k));
                    md.extend(omd.iter().filter(|e| !old.contains_key(e.0)).map(|(k, v)| (*k, *v)));
                }
            }
            match M::combo(&c, std::mem::take(m), o) {
                Some(x) => *m = x,
                None => panic!("combo"),
            }
            "combining"
        }
        4 => {
            let k = nth_key(src, md).unwrap_or(0);
            m.range_mut((Bound::Included(Qk(k)), Bound::Unbounded)).take(20).for_each(|(_, v)| v.set(7));
            md.range_mut(k..).take(20).for_each(|(_, v)| *v = 7);
            "range_mut"
        }
        5 => {
            let k = src.u16() as i32;
            m.entry(Tk::new(k, 0)).or_insert(Tv::new(5));
            md.entry(k).or_insert(5);
            "entry"
        }
        6 => {
            m.for_each_mut(|(_, v)| v.set(8));
            md.values_mut().for_each(|v| *v = 8);
            "for_each_mut"
        }
        _ => {
            let (a, b) = (m.first_entry().is_some(), !md.is_empty());
            ensure_eq!(a, b, "first_entry");
            "first_entry"
        }
    };
    // an entry may hold a copy of its key
    let d = clones() - c0;
    let most = if what.ends_with("entry") { 4 } else { 0 };
    ensure!(d <= most, "{what} on maps that nobody shares clones {d} elements");
    ensure_eq!(m.len(), md.len(), "length after {what}");
}

pub fn set_lazy<S: SetLike>(src: &mut Src, ctx: &mut Ctx, max: u32) {
    let n = src.range(100, max);
    let dens = 1 + src.below(3);
    let x = {
        let mut d = SDrv::<S>::empty(src, ctx, n * dens + 8);
        d.build(n, dens)
    };
    let (s0, md0): (S, SMdl) = (x.s, x.md);
    let n = md0.len();
    let bound = clone_bound(S::AVL, n + 64, S::N);
    ensure_eq!(live(), n, "live elements of the only set");
    let c0 = clones();
    let mut s = lean(64, "clone()", n, || s0.clone());
    let heap = heap_bound(S::AVL, n + 64, S::N);
    ensure_eq!(clones() - c0, 0, "element clones made by clone()");
    let mut md = md0.clone();
    src.plan(&[(1, 30)]);
    let mut ups = 0u64;
    while src.next_op() {
        let k = if src.chance(128) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 };
        let op = src.below(9);
        let c0 = clones();
        let mut limit = bound;
        ups += 1;
        match op {
            0 => {
                let x = Tk::new(k, 1);
                ensure_eq!(lean(heap, "insert", md.len(), || s.insert(x)), md.insert(k, 1).is_none(), "insert({k})")
            }
            1 => ensure_eq!(lean(heap, "remove", md.len(), || s.remove(&Qk(k))), md.remove(&k).is_some(), "remove({k})"),
            2 => ensure_eq!(lean(heap, "take", md.len(), || s.take(&Qk(k))).map(|x| x.k()), md.remove(&k).map(|_| k), "take({k})"),
            3 => {
                limit *= 2;
                ensure_eq!(s.replace(Tk::new(k, 1)).map(|x| x.k()), md.insert(k, 1).map(|_| k), "replace({k})")
            }
            4 => ensure_eq!(lean(heap, "pop_first", md.len(), || s.pop_first()).map(|x| x.k()), md.pop_first().map(|x| x.0), "pop_first"),
            5 => ensure_eq!(lean(heap, "pop_last", md.len(), || s.pop_last()).map(|x| x.k()), md.pop_last().map(|x| x.0), "pop_last"),
            6 => {
                limit = 0;
                ensure_eq!(lean(heap, "iter()", md.len(), || s.iter().count()), md.len(), "iter");
                let up = || s.range((Bound::Included(Qk(k)), Bound::Unbounded)).count();
                ensure_eq!(lean(heap, "range", md.len(), up), md.range(k..).count(), "range");
                lean(heap, "lookups", md.len(), || {
                    (s.get(&Qk(k)).is_some(), s.first().is_some(), s.last().is_some(), s.contains(&Qk(k)))
                });
            }
            7 => {
                limit = 0;
                let len = md.len();
                let a = lean(2 * heap, "is_subset, is_superset, is_disjoint", len, || {
                    (s.is_subset(&s0), s.is_superset(&s0), s.is_disjoint(&s0))
                });
                let it = |op| lean(2 * heap, "union(), intersection() or difference()", len, || s.it_op(&s0, op).count());
                let b = it(SOp::Inter);
                let c = it(SOp::Union) - it(SOp::Diff);
                ensure!(a.2 == (b == 0) && c == s0.len(), "set relations");
            }
            _ => {
                limit = 0;
                let _ = (lean(2 * heap, "==", md.len(), || s == s0), lean(2 * heap, "cmp", md.len(), || s.cmp(&s0)), format!("{s:?}").len(), hash_of(&s));
            }
        }
        let d = clones() - c0;
        ensure!(d <= limit, "operation {op} ({k}) on a set of {} elements clones {d}, allowed {limit}", md.len());
    }
    crate::sets::verify_set(&s0, &md0, false, &|| "the untouched copy".into());
    drop(s0);
    ensure_eq!(live(), md.len(), "live elements once a single copy is left");
    let c0 = clones();
    for j in 0..8 {
        let k = if src.chance(150) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 };
        match j % 4 {
            0 => ensure_eq!(s.insert(Tk::new(k, 2)), md.insert(k, 2).is_none(), "insert({k})"),
            1 => ensure_eq!(s.remove(&Qk(k)), md.remove(&k).is_some(), "remove({k})"),
            2 => ensure_eq!(s.pop_last().map(|x| x.k()), md.pop_last().map(|x| x.0), "pop_last"),
            _ => ensure_eq!(s.pop_first().map(|x| x.k()), md.pop_first().map(|x| x.0), "pop_first"),
        }
        ensure_eq!(clones() - c0, 0, "element clones made by update {} on the only copy", j % 4);
    }
    for _ in 0..src.below(4) {
        let k = nth_key(src, &md).unwrap_or(0);
        let n = [3, 40, md.len() as i32 + 1][src.below(3) as usize];
        let off = if src.chance(128) { src.u16() as i32 } else { -2 * n - 1 };
        let (mut o, mut omd) = (S::fresh(), SMdl::new());
        for i in 0..n {
            o.insert(Tk::new(off + 3 * i, 0));
            omd.insert(off + 3 * i, 0);
        }
        let c0 = clones();
        let what = match src.below(4) {
            0 => {
                s.append(&mut o);
                md.append(&mut omd);
                "append"
            }
            1 => {
                s.split_off(&Qk(k));
                md.split_off(&k);
                "split_off"
            }
            // BTreeSet::new_* may rebuild from copies
            2 | 3 if src.chance(128) || !S::AVL => {
                let d = 2 + src.below(9) as i32;
                s.retain(|x| x.k() % d != 0);
                md.retain(|k, _| k % d != 0);
                "retain"
            }
            _ => {
                let op = SOPS[src.below(4) as usize];
                s = S::new_op(std::mem::replace(&mut s, S::fresh()), o, op);
                let old = md.clone();
                match op {
                    SOp::Union => md.extend(omd.iter().map(|(k, v)| (*k, *v))),
                    SOp::Inter => md.retain(|k, _| omd.contains_key(k)),
                    SOp::Diff => md.retain(|k, _| !omd.contains_key(k)),
                    SOp::Sym => {
                        md.retain(|k, _| !omd.contains_key(k));
                        md.extend(omd.iter().filter(|e| !old.contains_key(e.0)).map(|(k, v)| (*k, *v)));
                    }
                }
                "combining"
            }
        };
        ensure_eq!(clones() - c0, 0, "element clones made by {what} on sets that nobody shares");
        ensure_eq!(s.len(), md.len(), "length after {what}");
    }
    let c0 = clones();
    let k = lean(heap, "into_iter on the only copy", md.len(), || s.into_iter().count());
    ensure_eq!(k, md.len(), "into_iter");
    ensure_eq!(clones() - c0, 0, "element clones made by into_iter on the only copy");
    ctx.label("lazy: set");
    ctx.nontrivial = ups >= 2;
}

pub fn fixed_lazy<K: FKey>(src: &mut Src, ctx: &mut Ctx, max: u32) {
    let n = src.range(50, max);
    let mut m: Fixed<K, Tv> = Fixed::new();
    let mut md = Mdl::new();
    for i in order(src, n) {
        m.insert(K::mk(i as i32 * 2), Tv::new(i));
        md.insert(i as i32 * 2, i);
    }
    ensure_eq!(clones(), 0, "element clones while building");
    let m0 = lean(64, "clone()", md.len(), || m.clone());
    ensure_eq!(clones(), 0, "element clones made by clone()");
    let md0 = md.clone();
    let bound = clone_bound(false, md.len() + 64, 5);
    let heap = heap_bound(false, md.len() + 64, 5);
    src.plan(&[(1, 30)]);
    let mut ups = 0;
    while src.next_op() {
        ups += 1;
        let k = if src.chance(128) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 };
        let (op, c0) = (src.below(5), clones());
        let mut limit = bound;
        match op {
            0 => {
                let (a, b) = (K::mk(k), Tv::new(4));
                ensure_eq!(lean(heap, "insert", md.len(), || m.insert(a, b)).map(|v| v.v()), md.insert(k, 4), "insert({k})")
            }
            1 => ensure_eq!(lean(heap, "remove", md.len(), || m.remove(&K::mk(k))).map(|v| v.v()), md.remove(&k), "remove({k})"),
            2 => ensure_eq!(lean(heap, "get_mut", md.len(), || m.get_mut(&K::mk(k))).map(|v| v.v()), md.get(&k).copied(), "get_mut({k})"),
            3 => {
                limit = 0;
                ensure_eq!(lean(heap, "get", md.len(), || m.get(&K::mk(k))).map(|v| v.v()), md.get(&k).copied(), "get({k})")
            }
            _ => {
                limit = 0;
                ensure_eq!(lean(heap, "iter()", md.len(), || m.iter().count()), md.len(), "iter")
            }
        }
        let d = clones() - c0;
        ensure!(d <= limit, "operation {op} ({k}) on {} entries clones {d} elements, allowed {limit}", md.len());
    }
    crate::fixed::verify_fixed(&m0, &md0, &|| "the untouched copy".into());
    drop(m0);
    let c0 = clones();
    for j in 0..9 {
        let k = if src.chance(150) { nth_key(src, &md).unwrap_or(0) } else { src.u16() as i32 };
        match j % 3 {
            0 => ensure_eq!(m.insert(K::mk(k), Tv::new(4)).map(|v| v.v()), md.insert(k, 4), "insert({k})"),
            1 => ensure_eq!(m.remove(&K::mk(k)).map(|v| v.v()), md.remove(&k), "remove({k})"),
            _ => ensure_eq!(m.get_mut(&K::mk(k)).map(|v| v.v()), md.get(&k).copied(), "get_mut({k})"),
        }
        ensure_eq!(clones() - c0, 0, "element clones made by update {} on the only copy", j % 3);
    }
    ensure_eq!(lean(heap, "iter_mut()", md.len(), || m.iter_mut().count()), md.len(), "iter_mut");
    ensure_eq!(clones() - c0, 0, "element clones made by iter_mut on the only copy");
    ensure_eq!(lean(heap, "into_iter on the only copy", md.len(), || m.into_iter().count()), md.len(), "into_iter");
    ensure_eq!(clones() - c0, 0, "element clones made by into_iter on the only copy");
    ctx.label("lazy: fixed");
    ctx.nontrivial = ups >= 2;
}
