//! Model-based driver for the set types (AvlSet and BTreeSet<_, N>).
//!
//! Elements are `Tk`s: equality looks at the key only, the `tag` tells the
//! instances apart, so that "the stored instance" can be checked.

use crate::engine::{Ctx, Rng, Src};
use crate::iters::{adapters, drive, drive_fwd, loose, ordered, Plan};
use crate::maps::{
    brief, compare_laws, draw_bounds, draw_size, invalid, label_range, len_of, map_bd, nth_key,
    order, shuffle, Keys, RecHasher,
};
use crate::track::{check_errs, on_call, Qk, Tk};
use crate::{ensure, ensure_eq};
use lazy_clone_collections::{AvlSet, Set};
use std::collections::BTreeMap as Std;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::FusedIterator;
use std::ops::{BitAnd, BitOr, BitXor, Bound, Sub};

pub type BSet<const N: usize> = lazy_clone_collections::btree::btree_set::BTreeSet<Tk, N>;
pub type ASet = AvlSet<Tk>;

/// key -> tag
pub type SMdl = Std<i32, u32>;

pub trait SetLike:
    Sized
    + Clone
    + Default
    + Eq
    + Ord
    + Hash
    + Debug
    + FromIterator<Tk>
    + std::iter::Extend<Tk>
    + Set<Value = Tk>
    + IntoIterator<Item = Tk, IntoIter: ExactSizeIterator + FusedIterator>
    + 'static
{
    const NAME: &'static str;
    const AVL: bool;
    const N: usize;
    fn fresh() -> Self;
    fn append(&mut self, o: &mut Self);
    fn clear(&mut self);
    fn contains(&self, q: &Qk) -> bool;
    fn get(&self, q: &Qk) -> Option<&Tk>;
    fn insert(&mut self, t: Tk) -> bool;
    fn first(&self) -> Option<&Tk>;
    fn last(&self) -> Option<&Tk>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_disjoint(&self, o: &Self) -> bool;
    fn is_subset(&self, o: &Self) -> bool;
    fn is_superset(&self, o: &Self) -> bool;
    fn iter(&self) -> impl Iterator<Item = &Tk> + ExactSizeIterator + FusedIterator;
    fn iter_ref(&self) -> impl Iterator<Item = &Tk> + ExactSizeIterator + FusedIterator;
    fn pop_first(&mut self) -> Option<Tk>;
    fn pop_last(&mut self) -> Option<Tk>;
    fn range(
        &self,
        b: (Bound<Qk>, Bound<Qk>),
    ) -> impl DoubleEndedIterator<Item = &Tk> + FusedIterator;
    fn remove(&mut self, q: &Qk) -> bool;
    fn replace(&mut self, t: Tk) -> Option<Tk>;
    fn retain<F: FnMut(&Tk) -> bool>(&mut self, f: F);
    fn split_off(&mut self, q: &Qk) -> Self;
    fn take(&mut self, q: &Qk) -> Option<Tk>;
    fn it_op<'a>(&'a self, o: &'a Self, op: SOp) -> Box<dyn Iterator<Item = &'a Tk> + 'a>;
    fn ref_op(&self, o: &Self, op: SOp) -> Self;
    fn new_op(l: Self, r: Self, op: SOp) -> Self;
    fn extend_refs(&mut self, v: &[Tk]);
    fn from_array<const M: usize>(a: [Tk; M]) -> Self;
    /// double-ended exercise where the type offers it
    fn drive_iter(&self, by_ref: bool, exp: &[(i32, u32)], plan: Plan, ctx: &mut Ctx);
    fn drive_into(self, exp: &[(i32, u32)], plan: Plan, ctx: &mut Ctx);
    fn adapters(&self, n: usize);
    fn debug_string(md: &SMdl) -> String;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SOp {
    Union,
    Inter,
    Diff,
    Sym,
}
pub const SOPS: [SOp; 4] = [SOp::Union, SOp::Inter, SOp::Diff, SOp::Sym];

macro_rules! common {
    () => {
        fn fresh() -> Self {
            Self::new()
        }
        fn append(&mut self, o: &mut Self) {
            self.append(o)
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn contains(&self, q: &Qk) -> bool {
            self.contains(q)
        }
        fn get(&self, q: &Qk) -> Option<&Tk> {
            self.get(q)
        }
        fn insert(&mut self, t: Tk) -> bool {
            self.insert(t)
        }
        fn first(&self) -> Option<&Tk> {
            self.first()
        }
        fn last(&self) -> Option<&Tk> {
            self.last()
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn is_disjoint(&self, o: &Self) -> bool {
            self.is_disjoint(o)
        }
        fn is_subset(&self, o: &Self) -> bool {
            self.is_subset(o)
        }
        fn is_superset(&self, o: &Self) -> bool {
            self.is_superset(o)
        }
        fn iter(&self) -> impl Iterator<Item = &Tk> + ExactSizeIterator + FusedIterator {
            self.iter()
        }
        fn iter_ref(&self) -> impl Iterator<Item = &Tk> + ExactSizeIterator + FusedIterator {
            (&*self).into_iter()
        }
        fn pop_first(&mut self) -> Option<Tk> {
            self.pop_first()
        }
        fn pop_last(&mut self) -> Option<Tk> {
            self.pop_last()
        }
        fn range(
            &self,
            b: (Bound<Qk>, Bound<Qk>),
        ) -> impl DoubleEndedIterator<Item = &Tk> + FusedIterator {
            self.range::<Qk, _>(b)
        }
        fn remove(&mut self, q: &Qk) -> bool {
            self.remove(q)
        }
        fn replace(&mut self, t: Tk) -> Option<Tk> {
            self.replace(t)
        }
        fn retain<F: FnMut(&Tk) -> bool>(&mut self, f: F) {
            self.retain(f)
        }
        fn split_off(&mut self, q: &Qk) -> Self {
            self.split_off(q)
        }
        fn take(&mut self, q: &Qk) -> Option<Tk> {
            self.take(q)
        }
        fn it_op<'a>(&'a self, o: &'a Self, op: SOp) -> Box<dyn Iterator<Item = &'a Tk> + 'a> {
            match op {
                SOp::Union => Box::new(self.union(o)),
                SOp::Inter => Box::new(self.intersection(o)),
                SOp::Diff => Box::new(self.difference(o)),
                SOp::Sym => Box::new(self.symmetric_difference(o)),
            }
        }
        fn ref_op(&self, o: &Self, op: SOp) -> Self {
            match op {
                SOp::Union => self.bitor(o),
                SOp::Inter => self.bitand(o),
                SOp::Diff => self.sub(o),
                SOp::Sym => self.bitxor(o),
            }
        }
        fn new_op(l: Self, r: Self, op: SOp) -> Self {
            match op {
                SOp::Union => Self::new_union(l, r),
                SOp::Inter => Self::new_intersection(l, r),
                SOp::Diff => Self::new_diff(l, r),
                SOp::Sym => Self::new_sym_diff(l, r),
            }
        }
        fn extend_refs(&mut self, v: &[Tk]) {
            self.extend(v.iter())
        }
        fn from_array<const M: usize>(a: [Tk; M]) -> Self {
            Self::from(a)
        }
    };
}

impl SetLike for ASet {
    const NAME: &'static str = "AvlSet";
    const AVL: bool = true;
    const N: usize = 1;
    common!();
    fn drive_iter(&self, by_ref: bool, exp: &[(i32, u32)], plan: Plan, ctx: &mut Ctx) {
        if by_ref {
            drive_fwd((&*self).into_iter(), exp, plan, Some(len_of), "(&set).into_iter()", ctx, |t, _| t.pair())
        } else {
            drive_fwd(self.iter(), exp, plan, Some(len_of), "iter()", ctx, |t, _| t.pair())
        }
    }
    fn drive_into(self, exp: &[(i32, u32)], plan: Plan, ctx: &mut Ctx) {
        drive_fwd(self.into_iter(), exp, plan, Some(len_of), "into_iter()", ctx, |t, _| t.pair())
    }
    fn adapters(&self, n: usize) {
        ordered(&mut || self.iter(), n, "iter()");
        ordered(&mut || self.clone().into_iter(), n, "into_iter()");
        ensure_eq!(self.iter().zip(0..n).len(), n, "iter().zip().len()");
        ensure_eq!(self.iter().enumerate().len(), n, "iter().enumerate().len()");
        ensure_eq!(self.iter().skip(n / 2).len(), n - n / 2, "iter().skip().len()");
        ensure_eq!(self.clone().into_iter().peekable().len(), n, "into_iter().peekable().len()");
        ensure_eq!(self.clone().into_iter().zip(0..n).len(), n, "into_iter().zip().len()");
    }
    fn debug_string(md: &SMdl) -> String {
        format!("AvlSet({:?})", md.keys().collect::<std::collections::BTreeSet<_>>())
    }
}

impl<const N: usize> SetLike for BSet<N> {
    const NAME: &'static str = "BTreeSet";
    const AVL: bool = false;
    const N: usize = N;
    common!();
    fn drive_iter(&self, by_ref: bool, exp: &[(i32, u32)], plan: Plan, ctx: &mut Ctx) {
        if by_ref {
            drive((&*self).into_iter(), exp, plan, Some(len_of), "(&set).into_iter()", ctx, |t, _| t.pair())
        } else {
            drive(self.iter(), exp, plan, Some(len_of), "iter()", ctx, |t, _| t.pair())
        }
    }
    fn drive_into(self, exp: &[(i32, u32)], plan: Plan, ctx: &mut Ctx) {
        drive(self.into_iter(), exp, plan, Some(len_of), "into_iter()", ctx, |t, _| t.pair())
    }
    fn adapters(&self, n: usize) {
        ordered(&mut || self.iter(), n, "iter()");
        ordered(&mut || self.clone().into_iter(), n, "into_iter()");
        adapters(&mut || self.iter(), n, "iter()");
        adapters(&mut || self.clone().into_iter(), n, "into_iter()");
    }
    fn debug_string(md: &SMdl) -> String {
        format!("BTreeSet({:?})", md.keys().collect::<std::collections::BTreeSet<_>>())
    }
}

pub struct SSlot<S> {
    pub s: S,
    pub md: SMdl,
}

pub struct SDrv<'a, S: SetLike> {
    pub src: &'a mut Src,
    pub ctx: &'a mut Ctx,
    pub slots: Vec<SSlot<S>>,
    pub keys: Keys,
    pub next: u32,
    pub check: bool,
    pub max_slots: usize,
    pub step: usize,
    pub max_len: usize,
    pub muts: u32,
    pub last_op: Option<Op>,
    pub algebra: u32,
    pub live: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Op {
    Insert,
    Remove,
    Take,
    Replace,
    Lookup,
    Pops,
    Append,
    SplitOff,
    Retain,
    Clear,
    Extend,
    Rebuild,
    CloneTo,
    DropOne,
    Iter,
    IntoIter,
    Range,
    Algebra,
    Predicates,
    Compare,
    Run,
}
use Op::*;
pub const NOPS: usize = 21;
pub const OPS: [Op; NOPS] = [
    Insert, Remove, Take, Replace, Lookup, Pops, Append, SplitOff, Retain, Clear, Extend, Rebuild,
    CloneTo, DropOne, Iter, IntoIter, Range, Algebra, Predicates, Compare, Run,
];
pub type SWeights = [u32; NOPS];
pub fn sweights(l: &[(Op, u32)]) -> SWeights {
    let mut w = [0; NOPS];
    for &(o, x) in l {
        w[o as usize] = x;
    }
    w
}

impl<'a, S: SetLike> SDrv<'a, S> {
    pub fn new(src: &'a mut Src, ctx: &'a mut Ctx, sizes: &[(u32, u32, u32)]) -> Self {
        let n = draw_size(src, sizes);
        let dens = [1, 2, 3, 8][src.weighted(&[3, 4, 2, 1])];
        let span = (n * dens).max(8) + src.below(8);
        let keys = Keys::draw(src, span);
        let mut d = SDrv {
            src,
            ctx,
            slots: vec![],
            keys,
            next: 1,
            check: false,
            max_slots: 4,
            step: 0,
            max_len: 0,
            muts: 0,
            last_op: None,
            algebra: 0,
            live: false,
        };
        let s = d.build(n, dens);
        d.slots.push(s);
        d
    }

    /// no slots yet
    pub fn empty(src: &'a mut Src, ctx: &'a mut Ctx, span: u32) -> Self {
        SDrv {
            src,
            ctx,
            slots: vec![],
            keys: Keys { base: 0, span },
            next: 1,
            check: false,
            max_slots: 4,
            step: 0,
            max_len: 0,
            muts: 0,
            last_op: None,
            algebra: 0,
            live: false,
        }
    }

    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    pub fn build(&mut self, n: u32, dens: u32) -> SSlot<S> {
        let ord = order(self.src, n);
        let off = self.src.below(dens.max(1)) as i64;
        let how = self.src.weighted(&[6, 3, 2, 2, 1]);
        let mut md = SMdl::new();
        let mut els = Vec::with_capacity(ord.len());
        for &i in &ord {
            let k = self.keys.at(i as i64 * dens as i64 + off);
            let t = self.fresh();
            // the key space may clamp at the extremes: keep the first
            if !md.contains_key(&k) {
                md.insert(k, t);
                els.push((k, t));
            }
        }
        let mk = |p: &[(i32, u32)]| -> Vec<Tk> { p.iter().map(|&(k, t)| Tk::new(k, t)).collect() };
        let mut s: S = match how {
            0 => {
                let mut s = S::fresh();
                for t in mk(&els) {
                    ensure!(s.insert(t), "insert of a new element returns true");
                }
                s
            }
            1 => loose(mk(&els).into_iter(), els.len() as u32).collect(),
            2 => {
                let mut s = S::default();
                for c in els.chunks(17) {
                    s.extend(mk(c));
                }
                s
            }
            3 => {
                let cut = els.len() * self.src.byte() as usize / 256;
                let mut a: S = mk(&els[..cut]).into_iter().collect();
                let mut b: S = mk(&els[cut..]).into_iter().collect();
                a.append(&mut b);
                a
            }
            _ => {
                let mut s = S::fresh();
                for c in els.chunks(4) {
                    let mut x = match mk(c).try_into() {
                        Ok(a) => S::from_array::<4>(a),
                        Err(v) => v.into_iter().collect(),
                    };
                    s.append(&mut x);
                }
                s
            }
        };
        let thin = self.src.weighted(&[6, 2, 2, 2, 2]);
        let seed = if thin > 0 { self.src.byte() as u64 } else { 0 };
        let mut rng = Rng::new(seed + 1);
        let total = md.len();
        let (a, b) = (seed as usize * total / 256, (seed as usize * 3 % 256) * total / 256);
        let mut gone: Vec<i32> = md
            .keys()
            .enumerate()
            .filter(|(i, _)| match thin {
                1 => i % 2 == 1,
                2 => rng.below(4) != 0,
                3 => *i >= a.min(b) && *i < a.max(b),
                4 => rng.below(2) == 0,
                _ => false,
            })
            .map(|x| *x.1)
            .collect();
        match seed % 3 {
            0 => (),
            1 => gone.reverse(),
            _ => shuffle(&mut gone, seed),
        }
        for k in gone {
            ensure!(s.remove(&Qk(k)), "remove({k}) of a stored element returns true");
            md.remove(&k);
        }
        self.ctx.t(|| {
            format!("build {}<N={}> of {n}, method {how}, thinning {thin} -> {}", S::NAME, S::N, sbrief(&md))
        });
        SSlot { s, md }
    }

    pub fn verify(&mut self, i: usize, when: &str) {
        let x = &self.slots[i];
        verify_set(&x.s, &x.md, self.check, &|| format!("set {i} {when}"));
    }
    pub fn verify_all(&mut self, when: &str) {
        for i in 0..self.slots.len() {
            self.max_len = self.max_len.max(self.slots[i].md.len());
            self.verify(i, when);
        }
        if self.live {
            let total: usize = self.slots.iter().map(|s| s.md.len()).sum();
            crate::maps::live_bound(total, self.slots.len(), when);
        }
    }
    pub fn run(&mut self, w: &SWeights) {
        self.verify_all("after building");
        while self.src.next_op() {
            let op = OPS[self.src.weighted(w)];
            let i = self.src.usize(self.slots.len());
            self.step += 1;
            crate::track::reg(|r| r.cmp_limit = r.cmps + 100_000_000);
            self.apply(op, i);
            check_errs("operation");
            let step = self.step;
            // of the largest ones, not after each step
            let all: usize = self.slots.iter().map(|s| s.md.len()).sum();
            if all < 60_000 || step % 4 == 0 {
                self.verify_all(&format!("after step {step} ({op:?} on set {i})"));
            }
            if all > 60_000 && step >= 14 {
                break;
            }
        }
        self.verify_all("at the end");
    }

    fn pick(&mut self, i: usize) -> i32 {
        self.keys.pick(self.src, &self.slots[i].md)
    }
    pub fn push_slot(&mut self, s: SSlot<S>) {
        if self.slots.len() < self.max_slots {
            self.slots.push(s);
        } else {
            let j = self.src.usize(self.slots.len());
            self.slots[j] = s;
        }
    }
    fn dup(&self, i: usize) -> SSlot<S> {
        SSlot { s: self.slots[i].s.clone(), md: self.slots[i].md.clone() }
    }

    /// a set to combine with
    pub fn operand(&mut self, i: usize) -> SSlot<S> {
        match self.src.weighted(&[4, 3, 3, 1, 1]) {
            0 => {
                let n = draw_size(self.src, &[(4, 0, 6), (3, 7, 40), (2, 41, 300)]);
                let dens = (self.keys.span / n.max(1)).clamp(1, 64);
                let dens = 1 + self.src.below(dens);
                self.build(n, dens)
            }
            1 => {
                let j = self.src.usize(self.slots.len());
                self.dup(j)
            }
            2 => {
                // diverged relative
                let mut s = self.dup(i);
                for _ in 0..self.src.below(6) {
                    let k = self.keys.pick(self.src, &s.md);
                    if self.src.chance(128) {
                        let t = self.fresh();
                        s.s.replace(Tk::new(k, t));
                        s.md.insert(k, t);
                    } else {
                        s.s.remove(&Qk(k));
                        s.md.remove(&k);
                    }
                }
                s
            }
            3 => {
                let mut s = self.dup(i);
                let k = self.keys.pick(self.src, &s.md);
                let hi = s.s.split_off(&Qk(k));
                let hmd = s.md.split_off(&k);
                if self.src.chance(128) {
                    SSlot { s: hi, md: hmd }
                } else {
                    s
                }
            }
            _ => {
                // same elements, other structure and instances
                let mut v: Vec<i32> = self.slots[i].md.keys().copied().collect();
                if self.src.chance(100) && !v.is_empty() {
                    let j = self.src.usize(v.len().min(65536));
                    match self.src.below(3) {
                        0 => {
                            v.remove(j);
                        }
                        1 => v[j] = v[j].saturating_add(1),
                        _ => v[j] = v[j].saturating_sub(1),
                    }
                }
                shuffle(&mut v, self.src.byte() as u64);
                let mut md = SMdl::new();
                let mut s = S::default();
                for k in v {
                    if !md.contains_key(&k) {
                        let t = self.fresh();
                        s.insert(Tk::new(k, t));
                        md.insert(k, t);
                    }
                }
                SSlot { s, md }
            }
        }
    }

    pub fn apply(&mut self, op: Op, i: usize) {
        match op {
            Insert => {
                let k = self.pick(i);
                let t = self.fresh();
                self.muts += 1;
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("s{i}.insert({k}#{t})"));
                let r = x.s.insert(Tk::new(k, t));
                ensure_eq!(r, !x.md.contains_key(&k), "insert({k}) return value");
                // which of two equal instances stays is not specified
                adopt(&x.s, &mut x.md, k, t);
            }
            Remove => {
                let k = self.pick(i);
                self.muts += 1;
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("s{i}.remove({k})"));
                ensure_eq!(x.s.remove(&Qk(k)), x.md.remove(&k).is_some(), "remove({k})");
            }
            Take => {
                let k = self.pick(i);
                self.muts += 1;
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("s{i}.take({k})"));
                let r = x.s.take(&Qk(k)).map(|t| t.pair());
                ensure_eq!(r, x.md.remove_entry(&k), "take({k}) (key, instance)");
                ensure_eq!(x.s.len(), x.md.len(), "len after take");
            }
            Replace => {
                let k = self.pick(i);
                let t = self.fresh();
                self.muts += 1;
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("s{i}.replace({k}#{t})"));
                let r = x.s.replace(Tk::new(k, t)).map(|t| t.pair());
                ensure_eq!(r, x.md.insert(k, t).map(|o| (k, o)), "replace({k}) (key, instance)");
                ensure_eq!(x.s.get(&Qk(k)).map(|t| t.pair()), Some((k, t)), "get({k}) after replace");
            }
            Lookup => {
                for _ in 0..1 + self.src.below(6) {
                    let k = self.pick(i);
                    let x = &self.slots[i];
                    let e = x.md.get(&k).map(|t| (k, *t));
                    self.ctx.t(|| format!("s{i}.get({k})"));
                    ensure_eq!(x.s.get(&Qk(k)).map(|t| t.pair()), e, "get({k}) (key, instance)");
                    ensure_eq!(x.s.contains(&Qk(k)), e.is_some(), "contains({k})");
                }
                let x = &self.slots[i];
                let f = |t: Option<&Tk>| t.map(|t| t.pair());
                let e = |t: Option<(&i32, &u32)>| t.map(|t| (*t.0, *t.1));
                ensure_eq!(f(x.s.first()), e(x.md.first_key_value()), "first()");
                ensure_eq!(f(x.s.last()), e(x.md.last_key_value()), "last()");
            }
            Pops => {
                let n = match self.src.weighted(&[4, 3, 1]) {
                    0 => 1,
                    1 => 1 + self.src.below(12),
                    _ => self.src.below(200),
                };
                let mode = self.src.below(3);
                self.muts += 1;
                self.ctx.t(|| format!("s{i} pop x{n} mode {mode}"));
                let x = &mut self.slots[i];
                for j in 0..n {
                    if mode == 0 || (mode == 2 && j % 2 == 0) {
                        ensure_eq!(x.s.pop_first().map(|t| t.pair()), x.md.pop_first(), "pop_first");
                    } else {
                        ensure_eq!(x.s.pop_last().map(|t| t.pair()), x.md.pop_last(), "pop_last");
                    }
                    ensure_eq!(x.s.len(), x.md.len(), "len after pop");
                }
            }
            Append => {
                let mut o = self.operand(i);
                let rev = self.src.chance(48);
                self.muts += 1;
                self.ctx.t(|| format!("s{i}.append({}) rev={rev}", sbrief(&o.md)));
                if rev {
                    std::mem::swap(&mut self.slots[i], &mut o);
                }
                let x = &mut self.slots[i];
                x.s.append(&mut o.s);
                let md = merge(&x.md, &o.md, SOp::Union);
                x.md = adopt_all(&x.s, &md, "append");
                ensure!(o.s.is_empty() && o.s.len() == 0, "append leaves its argument empty");
                ensure!(o.s.iter().next().is_none(), "append leaves its argument empty");
                if self.src.chance(64) {
                    o.s.insert(Tk::new(1, 0));
                    ensure!(o.s.contains(&Qk(1)) && o.s.len() == 1, "emptied argument of append is usable");
                }
            }
            SplitOff => {
                let k = self.pick(i);
                self.muts += 1;
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("s{i}.split_off({k})"));
                let s2 = x.s.split_off(&Qk(k));
                let md2 = x.md.split_off(&k);
                verify_set(&x.s, &x.md, self.check, &|| format!("low part of split_off({k})"));
                verify_set(&s2, &md2, self.check, &|| format!("high part of split_off({k})"));
                let mut y = SSlot { s: s2, md: md2 };
                match self.src.below(4) {
                    0 => (),
                    1 => std::mem::swap(&mut self.slots[i], &mut y),
                    _ => self.push_slot(y),
                }
            }
            Retain => {
                let style = self.src.below(6);
                let seed = self.src.byte() as u64;
                let pivot = self.pick(i);
                self.muts += 1;
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("s{i}.retain(style {style} seed {seed} pivot {pivot})"));
                let len = x.md.len();
                let keep = |n: usize, k: i32| match style {
                    0 => crate::engine::mix(seed ^ (k as u32 as u64) << 8) & 1 == 1,
                    1 => k < pivot,
                    2 => k >= pivot,
                    3 => true,
                    4 => false,
                    _ => n == seed as usize % len.max(1),
                };
                let mut seen = Vec::with_capacity(len);
                x.s.retain(|t| {
                    on_call();
                    let n = seen.len();
                    seen.push(t.pair());
                    keep(n, t.k())
                });
                let exp: Vec<(i32, u32)> = x.md.iter().map(|(k, t)| (*k, *t)).collect();
                ensure!(
                    seen == exp,
                    "retain visited {seen:?} instead of each element once in ascending order {exp:?}"
                );
                let mut n = 0;
                x.md.retain(|k, _| {
                    n += 1;
                    keep(n - 1, *k)
                });
            }
            Clear => {
                self.ctx.t(|| format!("s{i}.clear()"));
                let x = &mut self.slots[i];
                x.s.clear();
                x.md.clear();
            }
            Extend => {
                let n = 1 + self.src.below(30);
                let mut rng = Rng::new(self.src.byte() as u64 * 31 + 7);
                let by_ref = self.src.chance(64);
                let mut md2 = SMdl::new();
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.keys.at(rng.below(self.keys.span as u64) as i64);
                    if !md2.contains_key(&k) {
                        let t = self.fresh();
                        md2.insert(k, t);
                        v.push(Tk::new(k, t));
                    }
                }
                if self.src.chance(64) {
                    // equal elements within the extension
                    if let Some(k) = v.first().map(|t| t.k()) {
                        v.push(Tk::new(k, md2[&k]));
                    }
                }
                self.muts += 1;
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("s{i}.extend({})", sbrief(&md2)));
                if by_ref {
                    x.s.extend_refs(&v);
                } else {
                    let how = v.len() as u32 ^ v.first().map_or(0, |t| t.tag);
                    x.s.extend(loose(v.into_iter(), how).inspect(|_| on_call()));
                }
                let md = merge(&x.md, &md2, SOp::Union);
                x.md = adopt_all(&x.s, &md, "extend");
            }
            Rebuild => {
                self.ctx.t(|| format!("s{i} = s{i}.into_iter().collect()"));
                let x = &mut self.slots[i];
                let s = std::mem::take(&mut x.s);
                x.s = if self.src.chance(128) {
                    let mut v: Vec<Tk> = s.into_iter().collect();
                    v.reverse();
                    v.into_iter().collect()
                } else {
                    let n = s.len() as u32;
                    loose(s.into_iter(), n).collect()
                };
            }
            CloneTo => {
                self.ctx.t(|| format!("clone s{i}"));
                self.ctx.label("op: clone");
                let c = self.dup(i);
                if self.slots.len() < self.max_slots {
                    self.slots.push(c);
                } else {
                    // over an old slot, by assignment or clone_from
                    let j = self.src.usize(self.slots.len());
                    if j % 2 == 1 {
                        self.slots[j].s.clone_from(&c.s);
                        self.slots[j].md = c.md;
                    } else {
                        self.slots[j] = c;
                    }
                }
            }
            DropOne => {
                if self.slots.len() > 1 {
                    self.ctx.t(|| format!("drop s{i}"));
                    self.slots.swap_remove(i);
                }
            }
            Iter => {
                let which = self.src.below(4);
                let x = &self.slots[i];
                let plan = Plan::draw(self.src, x.md.len());
                let exp: Vec<(i32, u32)> = x.md.iter().map(|(k, t)| (*k, *t)).collect();
                match which {
                    0 => x.s.adapters(exp.len()),
                    1 => x.s.drive_iter(true, &exp, plan, self.ctx),
                    _ => x.s.drive_iter(false, &exp, plan, self.ctx),
                }
            }
            IntoIter => {
                let take = self.src.chance(100);
                let x = &mut self.slots[i];
                let plan = Plan::draw(self.src, x.md.len());
                let exp: Vec<(i32, u32)> = x.md.iter().map(|(k, t)| (*k, *t)).collect();
                let s = if take {
                    x.md.clear();
                    std::mem::take(&mut x.s)
                } else {
                    x.s.clone()
                };
                self.ctx.t(|| format!("s{i}: consume {}", if take { "the set" } else { "a clone" }));
                s.drive_into(&exp, plan, self.ctx);
                if take && self.slots.len() == 1 {
                    let mut s = S::default();
                    let mut md = SMdl::new();
                    for (k, t) in exp.iter().take(400) {
                        s.insert(Tk::new(*k, *t));
                        md.insert(*k, *t);
                    }
                    self.slots[0] = SSlot { s, md };
                }
            }
            Range => {
                let b = draw_bounds(self.src, self.keys, &self.slots[i].md);
                let x = &self.slots[i];
                self.ctx.t(|| format!("s{i}.range({b:?})"));
                let qb = (map_bd(b.0), map_bd(b.1));
                if invalid(b) {
                    self.ctx.label("range: inverted or empty-exclusive bounds");
                    let r = crate::quiet(|| {
                        let mut it = x.s.range(qb);
                        let a = it.next().is_some();
                        let b = it.next_back().is_some();
                        a || b
                    });
                    ensure!(r != Some(true), "range({b:?}) yields an element");
                    return;
                }
                let exp: Vec<(i32, u32)> = x.md.range(b).map(|(k, t)| (*k, *t)).collect();
                label_range(self.ctx, b, exp.len(), &x.md);
                let plan = Plan::draw(self.src, exp.len());
                drive(x.s.range(qb), &exp, plan, None, "range()", self.ctx, |t, _| t.pair());
            }
            Algebra => self.op_algebra(i),
            Predicates => {
                let o = self.operand(i);
                let swap = self.src.chance(128);
                let x = &self.slots[i];
                let (a, b) = if swap { (&o, x) } else { (x, &o) };
                self.algebra += 1;
                self.ctx.t(|| format!("predicates on {} and {}", sbrief(&a.md), sbrief(&b.md)));
                predicates(a, b, self.ctx);
                predicates(b, a, self.ctx);
                let when = || "operand of a predicate".to_string();
                verify_set(&o.s, &o.md, false, &when);
            }
            Compare => {
                let o = self.operand(i);
                let x = &self.slots[i];
                self.ctx.t(|| format!("compare {} with {}", sbrief(&x.md), sbrief(&o.md)));
                let ka: Vec<i32> = x.md.keys().copied().collect();
                let kb: Vec<i32> = o.md.keys().copied().collect();
                self.ctx.label(if ka == kb { "compare: equal contents" } else { "compare: different contents" });
                compare_laws(&x.s, &o.s, &ka, &kb, S::NAME);
                let h = |s: &S| {
                    let mut h = RecHasher::default();
                    s.hash(&mut h);
                    h.0
                };
                ensure_eq!(h(&x.s) == h(&o.s), ka == kb, "hash input equal iff contents equal");
                if ka.len() <= 300 {
                    ensure_eq!(format!("{:?}", x.s), S::debug_string(&x.md), "Debug output");
                }
                if ka.len() <= 60 {
                    let t = format!("{:#?}", x.s);
                    let got: Vec<String> = t
                        .lines()
                        .map(|l| l.trim().trim_end_matches(',').to_string())
                        .filter(|l| l.parse::<i64>().is_ok())
                        .collect();
                    let exp: Vec<String> = ka.iter().map(|k| k.to_string()).collect();
                    ensure_eq!(got, exp, "elements in pretty Debug output");
                }
            }
            Run => {
                let k0 = self.pick(i);
                let n = match self.src.weighted(&[4, 3, 1]) {
                    0 => 1 + self.src.below(12),
                    1 => 1 + self.src.below(60),
                    _ => 1 + self.src.below(300),
                };
                let rm = self.src.chance(140);
                let down = self.src.chance(128);
                self.muts += 1;
                self.ctx.t(|| format!("s{i} run of {n} {} from {k0} down={down}", if rm { "removals" } else { "inserts" }));
                if rm {
                    let x = &mut self.slots[i];
                    let ks: Vec<i32> = if down {
                        x.md.range(..=k0).rev().map(|x| *x.0).take(n as usize).collect()
                    } else {
                        x.md.range(k0..).map(|x| *x.0).take(n as usize).collect()
                    };
                    for (j, k) in ks.into_iter().enumerate() {
                        let t = x.md.remove(&k).unwrap();
                        if j % 2 == 0 {
                            ensure!(x.s.remove(&Qk(k)), "remove({k}) of a stored element");
                        } else {
                            ensure_eq!(x.s.take(&Qk(k)).map(|t| t.pair()), Some((k, t)), "take({k})");
                        }
                    }
                } else {
                    for j in 0..n as i64 {
                        let d = if down { -j } else { j };
                        let k = (k0 as i64 + d).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
                        let t = self.fresh();
                        let x = &mut self.slots[i];
                        let r = x.s.insert(Tk::new(k, t));
                        ensure_eq!(r, !x.md.contains_key(&k), "insert({k}) return value");
                        adopt(&x.s, &mut x.md, k, t);
                    }
                }
            }
        }
    }

    fn op_algebra(&mut self, i: usize) {
        let op = SOPS[self.src.usize(4)];
        let form = self.src.below(3);
        let o = self.operand(i);
        let swap = self.src.chance(128);
        self.algebra += 1;
        let x = self.dup(i);
        let (l, r) = if swap { (o, x) } else { (x, o) };
        self.ctx.label(match op {
            SOp::Union => "algebra: union",
            SOp::Inter => "algebra: intersection",
            SOp::Diff => "algebra: difference",
            SOp::Sym => "algebra: symmetric difference",
        });
        let md = merge(&l.md, &r.md, op);
        if !l.md.is_empty() && !r.md.is_empty() && md.len() != l.md.len() && md.len() != r.md.len() {
            self.ctx.label("algebra: proper overlap");
        }
        self.ctx.t(|| format!("{op:?} form {form} of {} and {}", sbrief(&l.md), sbrief(&r.md)));
        match form {
            0 => {
                // lazy iterator
                let mut it = l.s.it_op(&r.s, op);
                let stop = if self.src.chance(64) { self.src.usize(md.len().min(65000) + 1) } else { usize::MAX };
                let mut n = 0;
                for (k, tags) in md.iter() {
                    if n == stop {
                        break;
                    }
                    let (lo, hi) = it.size_hint();
                    let left = md.len() - n;
                    ensure!(
                        lo <= left && hi.map_or(true, |h| h >= left),
                        "{op:?} iterator: size_hint ({lo}, {hi:?}) excludes the {left} items left"
                    );
                    let Some(t) = it.next() else {
                        crate::fail!("{op:?} iterator ends after {n} items, expected {}", md.len())
                    };
                    let (gk, gt) = t.pair();
                    ensure_eq!(gk, *k, "{op:?} iterator, item {n}");
                    ensure!(tags.contains(&gt), "{op:?} iterator yields instance #{gt} of {gk}, which is in no operand");
                    n += 1;
                }
                if stop == usize::MAX {
                    for _ in 0..3 {
                        ensure!(it.next().is_none(), "{op:?} iterator yields an item after its end");
                    }
                }
            }
            1 => {
                let s = l.s.ref_op(&r.s, op);
                let md = adopt_all(&s, &md, "operator");
                verify_set(&s, &md, self.check, &|| format!("result of operator {op:?}"));
                verify_set(&l.s, &l.md, self.check, &|| format!("left operand of {op:?}"));
                verify_set(&r.s, &r.md, self.check, &|| format!("right operand of {op:?}"));
                self.push_slot(SSlot { s, md });
            }
            _ => {
                if self.src.chance(100) {
                    // let the operand be the last owner
                    self.slots[i] = SSlot { s: S::default(), md: SMdl::new() };
                }
                let s = S::new_op(l.s, r.s, op);
                let md = adopt_all(&s, &md, "constructor");
                verify_set(&s, &md, self.check, &|| format!("result of constructor {op:?}"));
                if self.slots[i].md.is_empty() {
                    self.slots[i] = SSlot { s, md };
                } else {
                    self.push_slot(SSlot { s, md });
                }
            }
        }
    }
}

fn predicates<S: SetLike>(a: &SSlot<S>, b: &SSlot<S>, ctx: &mut Ctx) {
    let sub = a.md.keys().all(|k| b.md.contains_key(k));
    let sup = b.md.keys().all(|k| a.md.contains_key(k));
    let dis = a.md.keys().all(|k| !b.md.contains_key(k));
    if sub && a.md.len() == b.md.len() {
        ctx.label("predicates: equal sets");
    } else if sub || sup {
        ctx.label("predicates: strict subset");
    } else if dis {
        ctx.label("predicates: disjoint");
    } else {
        ctx.label("predicates: overlapping");
    }
    let (x, y) = (sbrief(&a.md), sbrief(&b.md));
    ensure_eq!(a.s.is_subset(&b.s), sub, "is_subset of {x} and {y}");
    ensure_eq!(a.s.is_superset(&b.s), sup, "is_superset of {x} and {y}");
    ensure_eq!(a.s.is_disjoint(&b.s), dis, "is_disjoint of {x} and {y}");
}

pub fn sbrief(md: &SMdl) -> String {
    brief(md)
}

/// key -> acceptable instances
pub fn merge(l: &SMdl, r: &SMdl, op: SOp) -> Std<i32, Vec<u32>> {
    let mut m: Std<i32, Vec<u32>> = Std::new();
    for (k, t) in l {
        let c = r.get(k);
        let keep = match op {
            SOp::Union => true,
            SOp::Inter => c.is_some(),
            SOp::Diff | SOp::Sym => c.is_none(),
        };
        if keep {
            let mut v = vec![*t];
            v.extend(c);
            m.insert(*k, v);
        }
    }
    if matches!(op, SOp::Union | SOp::Sym) {
        for (k, t) in r {
            if !l.contains_key(k) {
                m.insert(*k, vec![*t]);
            }
        }
    }
    m
}

/// after an insert of an equal element, whichever instance is stored counts
fn adopt<S: SetLike>(s: &S, md: &mut SMdl, k: i32, t: u32) {
    let got = match s.get(&Qk(k)) {
        Some(x) => x.pair(),
        None => crate::fail!("get({k}) after insert: None"),
    };
    let ok = got.1 == t || md.get(&k) == Some(&got.1);
    ensure!(got.0 == k && ok, "get({k}) after insert: {got:?} is neither the new nor the old instance");
    md.insert(k, got.1);
}

/// check s against a key -> acceptable instances map; returns the model
pub fn adopt_all<S: SetLike>(s: &S, m: &Std<i32, Vec<u32>>, what: &str) -> SMdl {
    let mut md = SMdl::new();
    ensure_eq!(s.len(), m.len(), "{what}: len of the result");
    let mut it = s.iter();
    for (k, tags) in m {
        match it.next() {
            Some(t) => {
                let (gk, gt) = t.pair();
                ensure_eq!(gk, *k, "{what}: element of the result");
                ensure!(tags.contains(&gt), "{what}: instance #{gt} of {gk} comes from no operand");
                md.insert(gk, gt);
            }
            None => crate::fail!("{what}: result lacks {k}"),
        }
    }
    ensure!(it.next().is_none(), "{what}: result has extra elements");
    md
}

pub fn verify_set<S: SetLike>(s: &S, md: &SMdl, check: bool, when: &dyn Fn() -> String) {
    if s.len() != md.len() {
        crate::fail!("{}: len() is {}, expected {}", when(), s.len(), md.len());
    }
    if s.is_empty() != md.is_empty() {
        crate::fail!("{}: is_empty() is {}", when(), s.is_empty());
    }
    let mut it = s.iter();
    for (i, (k, t)) in md.iter().enumerate() {
        match it.next() {
            Some(x) => {
                if x.pair() != (*k, *t) {
                    crate::fail!("{}: element {i} is {:?}, expected {:?} (key, instance)", when(), x.pair(), (k, t));
                }
            }
            None => crate::fail!("{}: only {i} elements, expected {}", when(), md.len()),
        }
    }
    if let Some(x) = it.next() {
        crate::fail!("{}: extra element {}", when(), x.k());
    }
    if check {
        if let Err(e) = s.check() {
            crate::fail!("{}: structural self-check failed: {e}", when());
        }
    }
    check_errs("reading the set");
    let _ = nth_key::<u32>;
}
