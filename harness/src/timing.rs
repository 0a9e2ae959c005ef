//! C09, C10: operations that promise logarithmic or constant time do not walk
//! the collection, even where no key comparison and no copy would show it.
//! CPU time of the calling thread, the median of many calls, on a big
//! collection against a small one; an operation is reported only if it is both
//! slow in absolute terms and out of proportion to the small one, four times
//! in a row.

use crate::engine::{Ctx, Src};
use crate::ensure;
use lazy_clone_collections as l;
use std::hint::black_box;
use std::ops::Bound::*;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // SAFETY: t is valid; 3 is CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

const SLOW: u64 = 15_000; // ns per call
const OUT: u64 = 40; // times the small collection's

fn median<T>(m: &mut T, ks: &[u32], f: &dyn Fn(&mut T, u32)) -> u64 {
    let start = cpu();
    let mut ts = vec![];
    for &k in ks {
        let t = cpu();
        f(m, k);
        ts.push(cpu() - t);
        if cpu() - start > 100_000_000 && ts.len() > 4 {
            break;
        }
    }
    ts.sort_unstable();
    ts[ts.len() / 2]
}

pub struct Pair<T> {
    small: T,
    big: T,
    n: u32,
    ks: (Vec<u32>, Vec<u32>),
}
const SMALL: u32 = 64;

fn keys(src: &mut Src, n: u32) -> Vec<u32> {
    let mut x = src.u16() as u32 | 1;
    let mut ks = vec![];
    for _ in 0..61 {
        x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        ks.push((x >> 4) % (2 * n));
    }
    ks
}

impl<T> Pair<T> {
    fn new(src: &mut Src, max: u32, make: impl Fn(&[u32]) -> T) -> Self {
        let n = max / 2 + src.below(max / 2);
        let how = src.below(3);
        let list = |n: u32| -> Vec<u32> {
            match how {
                0 => (0..n).map(|i| 2 * i).collect(),
                1 => (0..n).rev().map(|i| 2 * i).collect(),
                _ => {
                    let mut v: Vec<u32> = (0..n).map(|i| 2 * i).collect();
                    let mut x = 77u32;
                    for i in (1..v.len()).rev() {
                        x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                        v.swap(i, (x >> 8) as usize % (i + 1));
                    }
                    v
                }
            }
        };
        Self { small: make(&list(SMALL)), big: make(&list(n)), n, ks: (keys(src, SMALL), keys(src, n)) }
    }
    fn tame(&mut self, name: &str, f: impl Fn(&mut T, u32)) {
        let (mut b, mut s) = (0, 0);
        for _ in 0..4 {
            b = median(&mut self.big, &self.ks.1, &f);
            if b < SLOW {
                return;
            }
            s = median(&mut self.small, &self.ks.0, &f).max(1);
            if b < OUT * s {
                return;
            }
        }
        ensure!(false, "{name} takes {b} ns on {} entries but {s} ns on {SMALL}", self.n);
    }
}

macro_rules! map_ops {
    ($p:ident) => {{
        $p.tame("get", |m, k| drop(black_box(m.get(&k))));
        $p.tame("len", |m, _| drop(black_box(m.len())));
        $p.tame("is_empty", |m, _| drop(black_box(m.is_empty())));
        $p.tame("get_mut", |m, k| if let Some(v) = m.get_mut(&k) { *v += 1 });
        $p.tame("remove and insert", |m, k| if let Some(v) = m.remove(&k) { m.insert(k, v); });
        $p.tame("insert and remove", |m, k| if m.get(&k).is_none() { m.insert(k, 1); m.remove(&k); });
        $p.tame("iter().next()", |m, _| drop(black_box(m.iter().next())));
        $p.tame("iter_mut().next()", |m, _| drop(black_box(m.iter_mut().next())));
        $p.tame("clone()", |m, _| drop(black_box(m.clone().len())));
    }};
}
macro_rules! lcc_map {
    ($src:ident, $ty:ty) => { lcc_map!($src, $ty, |_: &mut Pair<$ty>| ()) };
    ($src:ident, $ty:ty, $more:expr) => {{
        let mut p = Pair::new($src, 240_000, |ks: &[u32]| ks.iter().map(|&k| (k, k)).collect::<$ty>());
        if $src.chance(100) {
            let keep = p.big.clone();
            let keep2 = p.small.clone();
            map_ops!(p);
            drop((keep, keep2));
        }
        map_ops!(p);
        p.tame("iter().next_back()", |m, _| drop(black_box(m.iter().next_back())));
        p.tame("iter().len()", |m, _| drop(black_box(m.iter().len())));
        p.tame("iter_mut().next_back()", |m, _| drop(black_box(m.iter_mut().next_back())));
        p.tame("iter_mut().len()", |m, _| drop(black_box(m.iter_mut().len())));
        p.tame("get_key_value", |m, k| drop(black_box(m.get_key_value(&k))));
        p.tame("first_key_value", |m, _| drop(black_box(m.first_key_value())));
        p.tame("last_key_value", |m, _| drop(black_box(m.last_key_value())));
        p.tame("first_entry", |m, _| drop(m.first_entry().map(|e| *e.key())));
        p.tame("last_entry", |m, _| drop(m.last_entry().map(|e| *e.key())));
        p.tame("entry().and_modify()", |m, k| drop(m.entry(k / 2 * 2).and_modify(|v| *v += 1)));
        p.tame("entry().or_insert()", |m, k| { m.entry(k).or_insert(1); if k % 2 == 1 { m.remove(&k); } });
        p.tame("pop_first", |m, _| if let Some((k, v)) = m.pop_first() { m.insert(k, v); });
        p.tame("pop_last", |m, _| if let Some((k, v)) = m.pop_last() { m.insert(k, v); });
        p.tame("keys().next()", |m, _| drop(black_box(m.keys().next())));
        p.tame("values().next_back()", |m, _| drop(black_box(m.values().next_back())));
        p.tame("values_mut().next()", |m, _| drop(black_box(m.values_mut().next())));
        p.tame("range(k..).next()", |m, k| drop(black_box(m.range(k..).next())));
        p.tame("range(..k).next_back()", |m, k| drop(black_box(m.range(..k).next_back())));
        p.tame("range(k..k+9).count()", |m, k| drop(black_box(m.range(k..k + 9).count())));
        p.tame("range((Excluded(k), Unbounded)).next()", |m, k| drop(black_box(m.range((Excluded(k), Unbounded)).next())));
        p.tame("range_mut(k..=k+9)", |m, k| m.range_mut(k..=k + 9).for_each(|(_, v)| *v += 1));
        p.tame("range_mut(..=k).next_back()", |m, k| drop(black_box(m.range_mut(..=k).next_back())));
        p.tame("into_iter().next() of a clone", |m, _| drop(m.clone().into_iter().next()));
        p.tame("into_iter().next_back() of a clone", |m, _| drop(m.clone().into_iter().next_back()));
        p.tame("clear of a clone", |m, _| m.clone().clear());
        $more(&mut p);
        p.tame("contains_key", |m, k| drop(black_box(m.contains_key(&k))));
        p.tame("insert into a clone", |m, k| drop(m.clone().insert(k, 1)));
        p.tame("remove from a clone", |m, k| drop(m.clone().remove(&k)));
    }};
}
macro_rules! lcc_set {
    ($src:ident, $ty:ty) => {{
        let mut p = Pair::new($src, 240_000, |ks: &[u32]| ks.iter().copied().collect::<$ty>());
        p.tame("contains", |m, k| drop(black_box(m.contains(&k))));
        p.tame("get", |m, k| drop(black_box(m.get(&k))));
        p.tame("len", |m, _| drop(black_box(m.len())));
        p.tame("is_empty", |m, _| drop(black_box(m.is_empty())));
        p.tame("first", |m, _| drop(black_box(m.first())));
        p.tame("last", |m, _| drop(black_box(m.last())));
        p.tame("clone()", |m, _| drop(black_box(m.clone().len())));
        p.tame("remove and insert", |m, k| if m.remove(&k) { m.insert(k); });
        p.tame("insert and take", |m, k| if m.insert(k) { m.take(&k); });
        p.tame("pop_first", |m, _| if let Some(k) = m.pop_first() { m.insert(k); });
        p.tame("pop_last", |m, _| if let Some(k) = m.pop_last() { m.insert(k); });
        p.tame("iter().next()", |m, _| drop(black_box(m.iter().next())));
        p.tame("range(k..).next()", |m, k| drop(black_box(m.range(k..).next())));
        p.tame("range(..=k).next_back()", |m, k| drop(black_box(m.range(..=k).next_back())));
        p.tame("into_iter().next() of a clone", |m, _| drop(m.clone().into_iter().next()));
        p.tame("insert into a clone", |m, k| drop(m.clone().insert(k)));
        p.tame("union().next()", |m, _| { let c = m.clone(); drop(black_box(m.union(&c).next())) });
        p.tame("intersection().next()", |m, _| { let c = m.clone(); drop(black_box(m.intersection(&c).next())) });
    }};
}

pub fn trees(src: &mut Src, ctx: &mut Ctx) {
    ctx.label("time per operation on up to 240 000 entries");
    ctx.nontrivial = true;
    match src.below(8) {
        0 | 1 => lcc_map!(src, l::AvlMap<u32, u32>, |p: &mut Pair<l::AvlMap<u32, u32>>| {
            p.tame("remove_entry", |m, k| if let Some((k, v)) = m.remove_entry(&k) { m.insert(k, v); });
        }),
        2 => lcc_map!(src, l::btree::BTreeMap<u32, u32, 1>),
        3 => lcc_map!(src, l::btree::BTreeMap<u32, u32, 2>),
        4 => lcc_map!(src, l::btree::BTreeMap<u32, u32, 6>),
        5 => lcc_set!(src, l::AvlSet<u32>),
        6 => lcc_set!(src, l::btree::btree_set::BTreeSet<u32, 2>),
        _ => {
            type F = l::btree::fixed::BTreeMap<u32, u32>;
            let mut p = Pair::new(src, 240_000, |ks: &[u32]| ks.iter().map(|&k| (k, k)).collect::<F>());
            map_ops!(p);
            p.tame("insert into a clone", |m, k| drop(m.clone().insert(k, 1)));
            p.tame("into_iter().next() of a clone", |m, _| drop(m.clone().into_iter().next()));
        }
    }
}

pub fn stacks(src: &mut Src, ctx: &mut Ctx) {
    ctx.label("time per Stack operation on up to 240 000 elements");
    ctx.nontrivial = true;
    let mut p = Pair::new(src, 240_000, |ks: &[u32]| ks.iter().copied().collect::<l::Stack<u32>>());
    let twice = src.chance(128);
    let keep = twice.then(|| (p.big.clone(), p.small.clone()));
    for _ in 0..1 + twice as u8 {
        p.tame("len", |m, _| drop(black_box(m.len())));
        p.tame("is_empty", |m, _| drop(black_box(m.is_empty())));
        p.tame("top", |m, _| drop(black_box(m.top())));
        p.tame("clone()", |m, _| drop(black_box(m.clone().len())));
        p.tame("push and pop", |m, k| { m.push(k); m.pop(); });
        p.tame("pop and push", |m, _| if let Some(x) = m.pop() { m.push(x) });
        p.tame("top_mut", |m, _| if let Some(x) = m.top_mut() { *x += 1 });
        p.tame("iter().next()", |m, _| drop(black_box(m.iter().next())));
        p.tame("into_iter().next() of a clone", |m, _| drop(m.clone().into_iter().next()));
        p.tame("clear of a clone", |m, _| m.clone().clear());
        p.tame("clone_from", |m, _| { let mut c = l::Stack::new(); c.clone_from(m); drop(c) });
        p.tame("pop from a clone", |m, _| drop(m.clone().pop()));
    }
    drop(keep);
}
