//! C21: user code that breaks its contract.
//!
//! Histories over small families of copies while `Ord` answers arbitrarily
//! (random, constant, reversed, cyclic, incomparable keys), `Clone` makes keys
//! that are not equal to the original, and iterators given to the library
//! report absurd sizes.  Results are then unspecified and operations may panic;
//! what is required is that no element is dropped twice or used after its drop,
//! that none is lost unless an operation panicked, that the copies an operation
//! does not touch keep exactly their contents, and that everything terminates.

use crate::engine::{mini, Ctx, Src};
use crate::fixed::{FKey, FVal, Tk8, Zt};
use crate::maps::{AMap, BMap, Combo, MapLike};
use crate::quiet;
use crate::sets::{ASet, BSet, SetLike, SOPS};
use crate::track::{check_errs, reg, Lie, Qk, Tk, Tv};
use crate::{ensure, fail};
use lazy_clone_collections::btree::fixed::BTreeMap as Fixed;
use std::cmp::Ordering::*;
use std::ops::Bound;

/// an iterator whose size hint is wrong
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn hint(src: &mut Src, n: usize) -> (usize, Option<usize>) {
    match src.below(5) {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (usize::MAX, None),
        3 => (usize::MAX, Some(usize::MAX)),
        _ => (n + 7, Some(n / 2)),
    }
}

fn lie(src: &mut Src) -> Lie {
    match src.weighted(&[6, 4, 4, 1, 1, 1, 2, 2, 3, 3]) {
        0 => Lie::Honest,
        1 => Lie::Random(4),
        2 => Lie::Random(60),
        3 => Lie::Random(255),
        4 => Lie::Always([Less, Greater][src.usize(2)]),
        5 => Lie::Always(Equal),
        6 => Lie::Reversed,
        7 => Lie::Mod(src.range(2, 9) as i32),
        8 => Lie::Odd(src.range(2, 9) as i32),
        _ => Lie::Cycle,
    }
}

/// a collection as this module uses it
trait Zoo: Clone + Default {
    const NAME: &'static str;
    /// contents, in the order of iteration; compares nothing
    fn seq(&self) -> Vec<(i32, u32)>;
    fn fill(&mut self, ks: &[i32]);
    /// one operation, on self and possibly others; returns what it made
    fn act(&mut self, other: &mut Self, src: &mut Src, span: i32) -> Option<Self>;
}

/// more than any collection here may hold
const MANY: usize = 200_000;
fn bounded<T>(mut n: usize, it: impl Iterator<Item = T>, mut f: impl FnMut(T)) {
    for x in it {
        if n == 0 {
            return;
        }
        n -= 1;
        f(x)
    }
}
fn whole<T>(it: impl Iterator<Item = T>, mut f: impl FnMut(T)) {
    let mut n = 0;
    for x in it {
        n += 1;
        if n > MANY {
            fail!("iteration does not end: {MANY} elements so far");
        }
        f(x)
    }
}
/// part of a double-ended iteration, from both ends
fn ends<T>(src: &mut Src, mut it: impl DoubleEndedIterator<Item = T>, mut f: impl FnMut(T)) {
    let (n, pat) = ([3, 20, 300, 2000][src.usize(4)], src.byte());
    for i in 0..n {
        let x = if pat >> (i % 8) & 1 == 1 { it.next_back() } else { it.next() };
        match x {
            Some(x) => f(x),
            None => return,
        }
    }
}
fn key(src: &mut Src, span: i32) -> i32 {
    src.below(span as u32 + 4) as i32 - 2
}
fn keys(src: &mut Src, span: i32) -> Vec<i32> {
    let (n, k, d) = (src.below(20), key(src, span), src.range(0, 3) as i32);
    (0..n as i32).map(|i| k + i * d).collect()
}
fn bound(src: &mut Src, span: i32) -> Bound<Qk> {
    let q = Qk(key(src, span));
    match src.below(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(q),
        _ => Bound::Excluded(q),
    }
}

struct MapZ<M>(M);
impl<M: MapLike> Clone for MapZ<M> {
    fn clone(&self) -> Self {
        MapZ(self.0.clone())
    }
}
impl<M: MapLike> Default for MapZ<M> {
    fn default() -> Self {
        MapZ(M::default())
    }
}
impl<M: MapLike> Zoo for MapZ<M> {
    const NAME: &'static str = M::NAME;
    fn seq(&self) -> Vec<(i32, u32)> {
        let mut v = vec![];
        whole(self.0.iter(), |(k, x)| v.push((k.k(), x.v())));
        v
    }
    fn fill(&mut self, ks: &[i32]) {
        for &k in ks {
            self.0.insert(Tk::new(k, 0), Tv::new(k as u32));
        }
    }
    fn act(&mut self, other: &mut Self, src: &mut Src, span: i32) -> Option<Self> {
        let m = &mut self.0;
        let take = |m: &mut M, src: &mut Src| if src.chance(100) { std::mem::take(m) } else { m.clone() };
        match src.below(26) {
            0 | 1 => drop(m.insert(Tk::new(key(src, span), 1), Tv::new(1)).map(|v| v.v())),
            2 | 3 => drop(m.remove(&Qk(key(src, span))).map(|v| v.v())),
            4 => {
                for k in keys(src, span) {
                    m.insert(Tk::new(k, 1), Tv::new(2)).map(|v| v.v());
                }
            }
            5 => {
                for k in keys(src, span) {
                    m.remove(&Qk(k)).map(|v| v.v());
                }
            }
            6 => {
                let q = Qk(key(src, span));
                m.get(&q).map(|v| v.v());
                m.contains_key(&q);
                m.get_key_value(&q).map(|x| x.0.k());
                m.get_mut(&q).map(|v| v.set(3));
            }
            7 => {
                m.pop_first().map(|x| x.0.k());
                m.pop_last().map(|x| x.0.k());
                (m.len(), m.is_empty());
                m.first_key_value().map(|x| x.0.k());
                m.last_key_value().map(|x| x.0.k());
            }
            8 | 9 => m.append(&mut other.0),
            10 | 11 => return Some(MapZ(m.split_off(&Qk(key(src, span))))),
            12 => {
                let r = src.range(2, 5) as i32;
                m.retain(|k, v| {
                    v.set(4);
                    k.k() % r != 0
                })
            }
            13 => {
                let k = Tk::new(key(src, span), 2);
                match src.below(4) {
                    0 => m.entry(k).or_insert(Tv::new(5)).set(6),
                    1 => drop(m.entry(k).and_modify(|v| v.set(7)).or_default().v()),
                    2 => drop(m.entry(k).or_insert_with_key(|k| Tv::new(k.k() as u32)).v()),
                    _ => {
                        m.entry(k).key().k();
                    }
                }
            }
            14 => {
                m.first_entry().map(|e| e.or_default().set(8));
                m.last_entry().map(|e| e.and_modify(|v| v.set(9)).key().k());
            }
            15 => ends(src, m.iter(), |(k, v)| drop(k.k() as u32 ^ v.v())),
            16 => ends(src, m.iter_mut(), |(k, v)| v.set(k.k() as u32)),
            17 => {
                let b = (bound(src, span), bound(src, span));
                ends(src, m.range(b), |(k, v)| drop(k.k() as u32 ^ v.v()))
            }
            18 => {
                let b = (bound(src, span), bound(src, span));
                ends(src, m.range_mut(b), |(k, v)| v.set(k.k() as u32))
            }
            19 | 20 => {
                let t = take(m, src);
                ends(src, t.into_iter(), |(k, v)| drop(k.k() as u32 ^ v.v()))
            }
            21 => {
                let ks = keys(src, span);
                let h = hint(src, ks.len());
                m.extend(Hinted(ks.iter().map(|&k| (Tk::new(k, 3), Tv::new(10))), h));
            }
            22 => {
                let ks = keys(src, span);
                let h = hint(src, ks.len());
                return Some(MapZ(Hinted(ks.iter().map(|&k| (Tk::new(k, 4), Tv::new(11))), h).collect()));
            }
            23 | 24 => {
                let (l, r) = (take(m, src), take(&mut other.0, src));
                let x = match src.below(5) {
                    0 => M::combo(&Combo::Union, l, r),
                    1 => M::combo(&Combo::Inter, l, r),
                    2 => M::combo(&Combo::Diff, l, r),
                    3 => M::combo(&Combo::Sym, l, r),
                    _ => M::join(l, Tk::new(key(src, span), 5), Tv::new(12), r),
                };
                return x.map(MapZ);
            }
            _ => {
                drop((*m == other.0, (*m).cmp(&other.0), (*m).partial_cmp(&other.0), m.hash_code()));
                let _ = m.check();
            }
        }
        None
    }
}

struct SetZ<S>(S);
impl<S: SetLike> Clone for SetZ<S> {
    fn clone(&self) -> Self {
        SetZ(self.0.clone())
    }
}
impl<S: SetLike> Default for SetZ<S> {
    fn default() -> Self {
        SetZ(S::fresh())
    }
}
impl<S: SetLike> Zoo for SetZ<S> {
    const NAME: &'static str = S::NAME;
    fn seq(&self) -> Vec<(i32, u32)> {
        let mut v = vec![];
        whole(self.0.iter(), |k| v.push(k.pair()));
        v
    }
    fn fill(&mut self, ks: &[i32]) {
        for &k in ks {
            self.0.insert(Tk::new(k, 0));
        }
    }
    fn act(&mut self, other: &mut Self, src: &mut Src, span: i32) -> Option<Self> {
        let m = &mut self.0;
        let take = |m: &mut S, src: &mut Src| if src.chance(100) { std::mem::replace(m, S::fresh()) } else { m.clone() };
        match src.below(22) {
            0 => drop(m.insert(Tk::new(key(src, span), 1))),
            1 => drop(m.remove(&Qk(key(src, span)))),
            2 => drop(m.take(&Qk(key(src, span))).map(|t| t.k())),
            3 => drop(m.replace(Tk::new(key(src, span), 2)).map(|t| t.k())),
            4 => {
                for k in keys(src, span) {
                    m.insert(Tk::new(k, 3));
                }
            }
            5 => {
                for k in keys(src, span) {
                    m.remove(&Qk(k));
                }
            }
            6 => {
                let q = Qk(key(src, span));
                m.get(&q).map(|t| t.k());
                m.contains(&q);
                m.first().map(|t| t.k());
                m.last().map(|t| t.k());
                (m.len(), m.is_empty());
            }
            7 => {
                m.pop_first().map(|x| x.k());
                m.pop_last().map(|x| x.k());
            }
            8 | 9 => m.append(&mut other.0),
            10 | 11 => return Some(SetZ(m.split_off(&Qk(key(src, span))))),
            12 => {
                let r = src.range(2, 5) as i32;
                m.retain(|k| k.k() % r != 0)
            }
            13 => bounded(300, m.iter(), |k| drop(k.k())),
            14 => {
                let b = (bound(src, span), bound(src, span));
                ends(src, m.range(b), |k| drop(k.k()))
            }
            15 => {
                let t = take(m, src);
                bounded([3, 20, 300][src.usize(3)], t.into_iter(), |k| drop(k.k()))
            }
            16 => {
                let ks = keys(src, span);
                let h = hint(src, ks.len());
                m.extend(Hinted(ks.iter().map(|&k| Tk::new(k, 4)), h));
            }
            17 => {
                let ks = keys(src, span);
                let h = hint(src, ks.len());
                return Some(SetZ(Hinted(ks.iter().map(|&k| Tk::new(k, 5)), h).collect()));
            }
            18 => {
                let op = SOPS[src.usize(4)];
                let (l, r) = (take(m, src), take(&mut other.0, src));
                return Some(SetZ(S::new_op(l, r, op)));
            }
            19 => {
                let op = SOPS[src.usize(4)];
                return Some(SetZ(m.ref_op(&other.0, op)));
            }
            20 => {
                let op = SOPS[src.usize(4)];
                whole(m.it_op(&other.0, op), |k| drop(k.k()))
            }
            _ => {
                let o = &other.0;
                drop((m.is_subset(o), m.is_superset(o), m.is_disjoint(o), *m == *o, (*m).cmp(o)))
            }
        }
        None
    }
}

struct FixZ<K: FKey, V: FVal>(Fixed<K, V>);
impl<K: FKey, V: FVal> Clone for FixZ<K, V> {
    fn clone(&self) -> Self {
        FixZ(self.0.clone())
    }
}
impl<K: FKey, V: FVal> Default for FixZ<K, V> {
    fn default() -> Self {
        FixZ(Fixed::new())
    }
}
impl<K: FKey, V: FVal> Zoo for FixZ<K, V> {
    const NAME: &'static str = "type: fixed::BTreeMap";
    fn seq(&self) -> Vec<(i32, u32)> {
        let mut v = vec![];
        whole(self.0.iter(), |(k, x)| v.push((k.key(), x.val())));
        v
    }
    fn fill(&mut self, ks: &[i32]) {
        for &k in ks {
            self.0.insert(K::mk(k), V::mk(k as u32));
        }
    }
    fn act(&mut self, _: &mut Self, src: &mut Src, span: i32) -> Option<Self> {
        let m = &mut self.0;
        match src.below(16) {
            0 | 1 => drop(m.insert(K::mk(key(src, span)), V::mk(1)).map(|v| v.val())),
            2 | 3 | 4 => drop(m.remove(&K::mk(key(src, span))).map(|v| v.val())),
            5 | 6 => {
                for k in keys(src, span) {
                    m.insert(K::mk(k), V::mk(2)).map(|v| v.val());
                }
            }
            7 | 8 | 9 => {
                for k in keys(src, span) {
                    m.remove(&K::mk(k)).map(|v| v.val());
                }
            }
            10 => {
                let q = K::mk(key(src, span));
                m.get(&q).map(|v| v.val());
                m.get_mut(&q).map(|v| v.set(3));
                m.len();
            }
            11 => ends(src, m.iter(), |(k, v)| drop(k.key() as u32 ^ v.val())),
            12 => ends(src, m.iter_mut(), |(k, v)| v.set(k.key() as u32)),
            13 => {
                let t = if src.chance(100) { std::mem::replace(m, Fixed::new()) } else { m.clone() };
                ends(src, t.into_iter(), |(k, v)| drop(k.key() as u32 ^ v.val()))
            }
            14 => {
                let ks = keys(src, span);
                let h = hint(src, ks.len());
                m.extend(Hinted(ks.iter().map(|&k| (K::mk(k), V::mk(10))), h));
            }
            _ => {
                let ks = keys(src, span);
                let h = hint(src, ks.len());
                return Some(FixZ(Hinted(ks.iter().map(|&k| (K::mk(k), V::mk(11))), h).collect()));
            }
        }
        None
    }
}

fn history<Z: Zoo>(src: &mut Src, ctx: &mut Ctx) {
    ctx.label(Z::NAME);
    let n = match src.weighted(&[4, 4, if mini() { 0 } else { 2 }]) {
        0 => src.below(13),
        1 => src.below(if mini() { 40 } else { 80 }),
        _ => src.below(400),
    } as i32;
    let span = n.max(4) + 4;
    reg(|r| r.dice = 0x9E37_79B9_7F4A_7C15 ^ n as u64);
    reg(|r| r.dice ^= (src.u16() as u64) << 20);
    let mut z = Z::default();
    let stride = src.range(1, 7) as i32;
    // start from a lawful collection, or one that was never lawful
    if src.chance(80) {
        let l = lie(src);
        reg(|r| r.lie = l);
        ctx.t(|| format!("while filling, comparisons: {l:?}"));
    }
    let ks: Vec<i32> = (0..n).map(|i| i * stride % span).collect();
    ctx.t(|| format!("{} filled with {n} keys i * {stride} % {span}", Z::NAME));
    let mut panicked = quiet(|| z.fill(&ks)).is_none();
    check_errs("filling");
    let mut slots = vec![z];
    let mut seqs = vec![slots[0].seq()];
    let mut acts = 0;
    src.plan(&[(3, 4), (5, 14), (2, 30)]);
    while src.next_op() {
        // lawful or not, from here on
        if src.chance(90) {
            let l = lie(src);
            let f = [0, 0, 0, 3, 40][src.usize(5)];
            reg(|r| (r.lie, r.forge) = (l, f));
            ctx.t(|| format!("from now on comparisons: {l:?}, clones with another key: {f}/256"));
        }
        let i = src.usize(slots.len());
        if src.chance(60) {
            ctx.t(|| format!("#{i}.clone()"));
            if slots.len() < 4 {
                let c = slots[i].clone();
                slots.push(c);
                seqs.push(seqs[i].clone());
            }
            continue;
        }
        // the other operand; a fresh copy of some slot, or the slot itself
        let j = src.usize(slots.len());
        let apart = j == i || src.chance(128);
        let mut other = if apart { slots[j].clone() } else { std::mem::take(&mut slots[j]) };
        acts += 1;
        reg(|r| r.cmp_limit = r.cmps + 3_000_000);
        let mut made = None;
        ctx.t(|| format!("operation on #{i}, other operand {} #{j}, {} and {} elements", if apart { "a copy of" } else { "is" }, seqs[i].len(), seqs[j].len()));
        match quiet(|| slots[i].act(&mut other, src, span)) {
            Some(m) => made = m,
            None => {
                panicked = true;
                ctx.label("operations that panicked");
                ctx.t(|| "  it panicked".to_string());
            }
        }
        reg(|r| r.cmp_limit = u64::MAX);
        check_errs("operation");
        if !apart {
            slots[j] = other;
            seqs[j] = slots[j].seq();
        } else {
            drop(other);
        }
        seqs[i] = slots[i].seq();
        if let Some(m) = made {
            let s = m.seq();
            if slots.len() < 4 {
                slots.push(m);
                seqs.push(s);
            } else {
                // keep it in the place of a third one
                let t = src.usize(4);
                slots[t] = m;
                seqs[t] = s;
            }
        }
        check_errs("reading the results");
        for (t, (z, s)) in slots.iter().zip(&seqs).enumerate() {
            ensure!(z.seq() == *s, "copy #{t} is not what it was, although the operation was on #{i} and #{j}");
        }
        check_errs("reading the copies");
    }
    let total: usize = seqs.iter().map(|s| s.len()).sum();
    slots.clear();
    check_errs("dropping the collections");
    if panicked {
        reg(|r| r.leak_ok = true);
    }
    let lies = reg(|r| r.lies);
    ctx.label_n("lies told", lies);
    ctx.label_n("elements at the end", total as u64);
    ctx.nontrivial = lies >= 3 && acts >= 2;
}

pub fn run(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[4, 4, 2, 2, 6]) {
        0 => history::<MapZ<AMap>>(src, ctx),
        1 => match src.below(4) {
            0 => history::<MapZ<BMap<1>>>(src, ctx),
            1 => history::<MapZ<BMap<2>>>(src, ctx),
            2 => history::<MapZ<BMap<3>>>(src, ctx),
            _ => history::<MapZ<BMap<5>>>(src, ctx),
        },
        2 => history::<SetZ<ASet>>(src, ctx),
        3 => match src.below(2) {
            0 => history::<SetZ<BSet<1>>>(src, ctx),
            _ => history::<SetZ<BSet<5>>>(src, ctx),
        },
        _ => run_fixed(src, ctx),
    }
}
/// fixed::BTreeMap is where the library manages memory by hand
pub fn run_fixed(src: &mut Src, ctx: &mut Ctx) {
    match src.below(3) {
        0 => history::<FixZ<Tk8, Tv>>(src, ctx),
        1 => history::<FixZ<Tk, Tv>>(src, ctx),
        _ => history::<FixZ<Tk, Zt>>(src, ctx),
    }
}
