//! C17: panics injected into user-supplied Clone, Ord, Drop and closures.
//!
//! A case is a history whose last operation is the target.  It is run once
//! undisturbed, which counts the calls the target makes into user code, and
//! then again from the start once per chosen position, with the call at that
//! position panicking.  Copies taken just before the target must come through
//! untouched and usable; what the target worked on must stay memory safe.

use crate::engine::{mix, Ctx, Failure, Src};
use crate::fixed::{self, fweights, verify_fixed, FDrv, FKey, FVal, FWeights, Tk8};
use crate::maps::{self, verify_map, weights, AMap, BMap, Drv, MapLike, Weights};
use crate::quiet;
use crate::sets::{self, sweights, verify_set, ASet, BSet, SDrv, SMdl, SWeights, SetLike};
use crate::stacks::{self, stweights, verify_stack, StDrv, StWeights};
use crate::track::{arm, check_errs, disarm, reg, Fault, Injected, Qk, Tk, Tv};
use crate::{ensure, ensure_eq};
use lazy_clone_collections::btree::fixed::BTreeMap as Fixed;
use lazy_clone_collections::Stack;
use std::collections::BTreeMap as Std;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const SIZES: &[(u32, u32, u32)] = &[(3, 0, 12), (4, 13, 60), (2, 61, 250)];
const CAP: usize = 100_000;

pub trait Host<'a>: Sized {
    type Snap;
    fn make(src: &'a mut Src, ctx: &'a mut Ctx) -> Self;
    fn src(&mut self) -> &mut Src;
    fn ctx(&mut self) -> &mut Ctx;
    fn slots(&self) -> usize;
    /// draw one operation and apply it
    fn step(&mut self, target: bool);
    /// the last operation was one that promises all or nothing if Ord panics
    /// (clone: also if Clone panics)
    fn atomic(&self, clone: bool) -> bool;
    /// slot i equals its model
    fn same(&self, i: usize, when: &str);
    fn snap(&self, i: usize) -> Self::Snap;
    /// the copy is intact, and stays a working collection
    fn intact(s: &Self::Snap, when: &str);
    fn usable(s: Self::Snap, when: &str);
    /// use slot i, whatever is left of it
    fn exercise(&mut self, i: usize);
    fn verify(&mut self);
    fn max_len(&self) -> usize;
    fn drop_slot(&mut self);
}

fn again(f: Fault, i: usize, guards: u8) -> Option<Fault> {
    let n = match f {
        Fault::Clone(n) | Fault::Cmp(n) | Fault::Call(n) | Fault::Drop(n) => n,
        Fault::None => 0,
    };
    let x = mix(n ^ (i as u64) << 20 ^ (guards as u64) << 32);
    let p = x >> 8 & 15;
    match x % 8 {
        0 => Some(Fault::Clone(p)),
        1 => Some(Fault::Cmp(p)),
        2 => Some(Fault::Drop(p)),
        _ => None,
    }
}

fn pass<'a, H: Host<'a>>(src: &'a mut Src, ctx: &'a mut Ctx, fault: Option<Fault>) -> ([u64; 4], bool) {
    let guards = src.byte();
    let mut h = H::make(src, ctx);
    h.src().plan(&[(3, 3), (3, 8)]);
    let mut counts = [0; 4];
    let mut fired = false;
    while h.src().next_op() {
        if h.src().ops_left() > 0 {
            h.step(false);
            continue;
        }
        let mut snaps = vec![];
        for i in 0..h.slots() {
            if guards >> i & 1 == 1 {
                snaps.push(h.snap(i));
            }
        }
        let c0 = reg(|r| [r.clones, r.cmps, r.calls, r.drops]);
        let Some(f) = fault else {
            h.step(true);
            let c1 = reg(|r| [r.clones, r.cmps, r.calls, r.drops]);
            counts = std::array::from_fn(|i| c1[i] - c0[i]);
            check_errs("target operation");
            h.verify();
            for s in &snaps {
                H::intact(s, "a copy after the target operation");
            }
            break;
        };
        arm(f);
        let r = catch_unwind(AssertUnwindSafe(|| h.step(true)));
        fired = disarm();
        if let Err(e) = r {
            if !fired && !e.is::<Injected>() {
                resume_unwind(e);
            }
        }
        let when = format!("after a panic in user code ({f:?})");
        check_errs(&when);
        for s in &snaps {
            H::intact(s, &format!("{when}: another copy"));
        }
        if fired && h.atomic(matches!(f, Fault::Clone(_))) && !matches!(f, Fault::Call(_) | Fault::Drop(_)) {
            for i in 0..h.slots() {
                h.same(i, &when);
            }
            check_errs(&when);
        }
        for i in 0..h.slots() {
            reg(|r| r.cmp_limit = r.cmps + 2_000_000);
            // now and then user code panics again
            if let Some(g) = again(f, i, guards) {
                arm(g);
            }
            let _ = catch_unwind(AssertUnwindSafe(|| h.exercise(i)));
            disarm();
            check_errs(&format!("{when}: using the collection"));
        }
        reg(|r| r.cmp_limit = u64::MAX);
        for s in &snaps {
            H::intact(s, &format!("{when}: another copy, later"));
        }
        for s in snaps {
            H::usable(s, &format!("{when}: another copy"));
        }
        while h.slots() > 0 {
            let _ = catch_unwind(AssertUnwindSafe(|| h.drop_slot()));
        }
        check_errs(&format!("{when}: dropping the collection"));
    }
    (counts, fired)
}

/// up to `k` of `n` positions: the first, the last, some in between
fn positions(n: u64, k: u64, seed: u64) -> Vec<u64> {
    if n <= k {
        return (0..n).collect();
    }
    let mut v: Vec<u64> = (0..k / 3).chain(n - k / 3..n).collect();
    for j in 0..k - 2 * (k / 3) {
        v.push(mix(seed ^ j.wrapping_mul(0x9E37)) % n);
    }
    v.sort();
    v.dedup();
    v
}

macro_rules! scenario {
    ($src:expr, $ctx:expr, $h:ty) => {{
        let (src, ctx): (&mut Src, &mut Ctx) = ($src, $ctx);
        let skip = src.mark();
        let (counts, _) = pass::<$h>(src, ctx, None);
        let case = src.case.clone();
        let seed = case.hash();
        let mut n = 0;
        for (j, kind) in [Fault::Clone as fn(u64) -> Fault, Fault::Cmp, Fault::Call, Fault::Drop].iter().enumerate() {
            for p in positions(counts[j], 9, seed + j as u64) {
                let f = kind(p);
                ctx.t(|| format!("again, with a panic injected: {f:?} of {}", counts[j]));
                let mut src2 = Src::replay(case.clone());
                src2.seek(skip);
                let mut ctx2 = Ctx::default();
                crate::track::restart();
                let (_, fired) = pass::<$h>(&mut src2, &mut ctx2, Some(f));
                n += fired as u64;
                ctx.label_n(["panics injected: Clone", "panics injected: Ord", "panics injected: closure", "panics injected: Drop"][j], fired as u64);
            }
        }
        ctx.nontrivial = n >= 1;
    }};
}

impl<'a, M: MapLike> Host<'a> for Drv<'a, M> {
    type Snap = (M, maps::Mdl);
    fn make(src: &'a mut Src, ctx: &'a mut Ctx) -> Self {
        Drv::new(src, ctx, SIZES)
    }
    fn src(&mut self) -> &mut Src {
        self.src
    }
    fn ctx(&mut self) -> &mut Ctx {
        self.ctx
    }
    fn slots(&self) -> usize {
        self.slots.len()
    }
    fn step(&mut self, target: bool) {
        let w = w_maps(target);
        let op = maps::OPS[self.src.weighted(&w)];
        self.last_op = Some(op);
        let i = self.src.usize(self.slots.len());
        self.apply(op, i);
    }
    fn atomic(&self, clone: bool) -> bool {
        use maps::Op::*;
        match self.last_op {
            Some(Lookup | GetMut) => true,
            Some(Insert | Remove | RemoveEntry) => !clone,
            _ => false,
        }
    }
    fn same(&self, i: usize, when: &str) {
        let s = &self.slots[i];
        verify_map(&s.m, &s.md, true, &|| format!("{when}: the collection itself"));
    }
    fn snap(&self, i: usize) -> Self::Snap {
        (self.slots[i].m.clone(), self.slots[i].md.clone())
    }
    fn intact(s: &Self::Snap, when: &str) {
        verify_map(&s.0, &s.1, false, &|| when.to_string());
        if let Err(e) = s.0.check() {
            crate::fail!("{when}: self-check fails: {e}");
        }
    }
    fn usable(s: Self::Snap, when: &str) {
        let (mut m, mut md) = s;
        let ks: Vec<i32> = md.keys().copied().collect();
        for (j, &k) in ks.iter().enumerate().filter(|x| x.0 % 5 == 0) {
            if j % 2 == 0 {
                ensure_eq!(m.remove(&Qk(k)).map(|v| v.v()), md.remove(&k), "{when}: remove({k})");
            } else {
                ensure_eq!(m.insert(Tk::new(k, 0), Tv::new(7)).map(|v| v.v()), md.insert(k, 7), "{when}: insert({k})");
            }
        }
        for k in -3..3 {
            ensure_eq!(m.insert(Tk::new(k, 0), Tv::new(8)).map(|v| v.v()), md.insert(k, 8), "{when}: insert({k})");
        }
        verify_map(&m, &md, true, &|| format!("{when}, after further updates"));
    }
    fn exercise(&mut self, i: usize) {
        let ks: Vec<i32> = self.slots[i].md.keys().copied().step_by(3).take(12).collect();
        let m = &mut self.slots[i].m;
        exercise_map(m, &ks);
    }
    fn verify(&mut self) {
        self.verify_all("after the target operation");
    }
    fn max_len(&self) -> usize {
        self.max_len
    }
    fn drop_slot(&mut self) {
        self.slots.pop();
    }
}
fn exercise_map<M: MapLike>(m: &mut M, ks: &[i32]) {
    quiet(|| m.iter().take(CAP).map(|(k, v)| k.k() as i64 + v.v() as i64).sum::<i64>());
    quiet(|| m.iter().rev().take(CAP).map(|(k, v)| k.k() as i64 + v.v() as i64).sum::<i64>());
    let mut c = quiet(|| m.clone());
    for &k in ks {
        quiet(|| m.get(&Qk(k)).map(|v| v.v()));
        quiet(|| m.insert(Tk::new(k + 1, 0), Tv::new(1)).map(|v| v.v()));
        quiet(|| m.remove(&Qk(k)).map(|v| v.v()));
        quiet(|| m.get_mut(&Qk(k + 1)).map(|v| v.set(2)));
    }
    quiet(|| m.iter_mut().take(CAP).for_each(|(k, v)| v.set(k.k() as u32)));
    quiet(|| m.pop_first().map(|x| x.0.k()));
    quiet(|| m.pop_last().map(|x| x.0.k()));
    quiet(|| m.iter().take(CAP).map(|(k, v)| k.k() as i64 + v.v() as i64).sum::<i64>());
    if let Some(c) = c.take() {
        quiet(|| c.into_iter().take(CAP).map(|(k, v)| k.k() as i64 + v.v() as i64).sum::<i64>());
    }
}

impl<'a, S: SetLike> Host<'a> for SDrv<'a, S> {
    type Snap = (S, SMdl);
    fn make(src: &'a mut Src, ctx: &'a mut Ctx) -> Self {
        SDrv::new(src, ctx, SIZES)
    }
    fn src(&mut self) -> &mut Src {
        self.src
    }
    fn ctx(&mut self) -> &mut Ctx {
        self.ctx
    }
    fn slots(&self) -> usize {
        self.slots.len()
    }
    fn step(&mut self, target: bool) {
        let w = w_sets(target);
        let op = sets::OPS[self.src.weighted(&w)];
        self.last_op = Some(op);
        let i = self.src.usize(self.slots.len());
        self.apply(op, i);
    }
    fn atomic(&self, clone: bool) -> bool {
        use sets::Op::*;
        match self.last_op {
            Some(Lookup) => true,
            Some(Remove | Take) => !clone,
            _ => false,
        }
    }
    fn same(&self, i: usize, when: &str) {
        let s = &self.slots[i];
        verify_set(&s.s, &s.md, true, &|| format!("{when}: the collection itself"));
    }
    fn snap(&self, i: usize) -> Self::Snap {
        (self.slots[i].s.clone(), self.slots[i].md.clone())
    }
    fn intact(s: &Self::Snap, when: &str) {
        verify_set(&s.0, &s.1, true, &|| when.to_string());
    }
    fn usable(s: Self::Snap, when: &str) {
        let (mut s, mut md) = s;
        let ks: Vec<i32> = md.keys().copied().step_by(5).collect();
        for k in ks {
            ensure_eq!(s.remove(&Qk(k)), md.remove(&k).is_some(), "{when}: remove({k})");
        }
        for k in -3..3 {
            ensure_eq!(s.insert(Tk::new(k, 9)), !md.contains_key(&k), "{when}: insert({k})");
            md.insert(k, 9);
        }
        let (a, b): (Vec<i32>, Vec<i32>) = (s.iter().map(|t| t.k()).collect(), md.keys().copied().collect());
        ensure_eq!(a, b, "{when}, after further updates");
    }
    fn exercise(&mut self, i: usize) {
        let ks: Vec<i32> = self.slots[i].md.keys().copied().step_by(3).take(12).collect();
        let s = &mut self.slots[i].s;
        quiet(|| s.iter().take(CAP).map(|k| k.k() as i64).sum::<i64>());
        let c = quiet(|| s.clone());
        for k in ks {
            quiet(|| s.get(&Qk(k)).map(|v| v.k()));
            quiet(|| s.insert(Tk::new(k + 1, 0)));
            quiet(|| s.remove(&Qk(k)));
        }
        quiet(|| s.pop_first().map(|x| x.k()));
        quiet(|| s.pop_last().map(|x| x.k()));
        quiet(|| s.iter().take(CAP).map(|k| k.k() as i64).sum::<i64>());
        if let Some(c) = c {
            quiet(|| c.into_iter().take(CAP).map(|k| k.k() as i64).sum::<i64>());
        }
    }
    fn verify(&mut self) {
        self.verify_all("after the target operation");
    }
    fn max_len(&self) -> usize {
        self.max_len
    }
    fn drop_slot(&mut self) {
        self.slots.pop();
    }
}

impl<'a> Host<'a> for StDrv<'a> {
    type Snap = (Stack<Tv>, Vec<u32>);
    fn make(src: &'a mut Src, ctx: &'a mut Ctx) -> Self {
        StDrv::new(src, ctx, 120)
    }
    fn src(&mut self) -> &mut Src {
        self.src
    }
    fn ctx(&mut self) -> &mut Ctx {
        self.ctx
    }
    fn slots(&self) -> usize {
        self.slots.len()
    }
    fn step(&mut self, target: bool) {
        let w = w_stacks(target);
        let op = stacks::OPS[self.src.weighted(&w)];
        self.last_op = Some(op);
        let i = self.src.usize(self.slots.len());
        self.apply(op, i);
    }
    fn atomic(&self, clone: bool) -> bool {
        use stacks::Op::*;
        match self.last_op {
            Some(TopMut | Contains) => true,
            _ => false,
        }
    }
    fn same(&self, i: usize, when: &str) {
        let s = &self.slots[i];
        verify_stack(&s.s, &s.md, &|| format!("{when}: the collection itself"));
    }
    fn snap(&self, i: usize) -> Self::Snap {
        (self.slots[i].s.clone(), self.slots[i].md.clone())
    }
    fn intact(s: &Self::Snap, when: &str) {
        verify_stack(&s.0, &s.1, &|| when.to_string());
    }
    fn usable(s: Self::Snap, when: &str) {
        let (mut s, mut md) = s;
        for j in 0..4 {
            ensure_eq!(s.pop().map(|v| v.v()), md.pop(), "{when}: pop");
            s.push(Tv::new(j));
            s.push(Tv::new(j));
            md.push(j);
            md.push(j);
        }
        verify_stack(&s, &md, &|| format!("{when}, after further updates"));
    }
    fn exercise(&mut self, i: usize) {
        let s = &mut self.slots[i].s;
        quiet(|| s.iter().take(CAP).map(|v| v.v() as u64).sum::<u64>());
        let c = quiet(|| s.clone());
        quiet(|| (s.len(), s.is_empty(), s.top().map(|v| v.v())));
        for _ in 0..4 {
            quiet(|| s.pop().map(|v| v.v()));
            quiet(|| s.push(Tv::new(1)));
            quiet(|| s.top_mut().map(|v| v.set(3)));
        }
        quiet(|| s.iter_mut().take(CAP).for_each(|v| v.set(1)));
        quiet(|| s.remove(0).v());
        if let Some(c) = c {
            quiet(|| c.into_iter().take(CAP).map(|v| v.v() as u64).sum::<u64>());
        }
    }
    fn verify(&mut self) {
        self.verify_all("after the target operation");
    }
    fn max_len(&self) -> usize {
        self.max_len
    }
    fn drop_slot(&mut self) {
        self.slots.pop();
    }
}

impl<'a, K: FKey, V: FVal> Host<'a> for FDrv<'a, K, V> {
    type Snap = (Fixed<K, V>, Std<i32, u32>);
    fn make(src: &'a mut Src, ctx: &'a mut Ctx) -> Self {
        FDrv::new(src, ctx, SIZES)
    }
    fn src(&mut self) -> &mut Src {
        self.src
    }
    fn ctx(&mut self) -> &mut Ctx {
        self.ctx
    }
    fn slots(&self) -> usize {
        self.slots.len()
    }
    fn step(&mut self, target: bool) {
        let w = w_fixed(target);
        let op = fixed::OPS[self.src.weighted(&w)];
        self.last_op = Some(op);
        let i = self.src.usize(self.slots.len());
        self.apply(op, i);
    }
    fn atomic(&self, clone: bool) -> bool {
        use fixed::Op::*;
        match self.last_op {
            Some(Get | GetMut) => true,
            Some(Insert | Remove) => !clone,
            _ => false,
        }
    }
    fn same(&self, i: usize, when: &str) {
        let s = &self.slots[i];
        verify_fixed(&s.m, &s.md, &|| format!("{when}: the collection itself"));
    }
    fn snap(&self, i: usize) -> Self::Snap {
        (self.slots[i].m.clone(), self.slots[i].md.clone())
    }
    fn intact(s: &Self::Snap, when: &str) {
        verify_fixed(&s.0, &s.1, &|| when.to_string());
    }
    fn usable(s: Self::Snap, when: &str) {
        let (mut m, mut md) = s;
        let ks: Vec<i32> = md.keys().copied().step_by(5).collect();
        for k in ks {
            ensure_eq!(m.remove(&K::mk(k)).map(|v| v.val()), md.remove(&k), "{when}: remove({k})");
        }
        for k in 0..4 {
            ensure_eq!(m.insert(K::mk(k), V::mk(8)).map(|v| v.val()), md.insert(k, V::norm(8)), "{when}: insert({k})");
        }
        verify_fixed(&m, &md, &|| format!("{when}, after further updates"));
    }
    fn exercise(&mut self, i: usize) {
        let ks: Vec<i32> = self.slots[i].md.keys().copied().step_by(3).take(12).collect();
        let m = &mut self.slots[i].m;
        quiet(|| m.iter().take(CAP).map(|(k, v)| k.key() as i64 + v.val() as i64).sum::<i64>());
        quiet(|| m.iter().rev().take(CAP).map(|(k, v)| k.key() as i64 + v.val() as i64).sum::<i64>());
        let c = quiet(|| m.clone());
        for k in ks {
            quiet(|| m.get(&K::mk(k)).map(|v| v.val()));
            quiet(|| m.insert(K::mk(k + 1), V::mk(1)).map(|v| v.val()));
            quiet(|| m.remove(&K::mk(k)).map(|v| v.val()));
            quiet(|| m.get_mut(&K::mk(k + 1)).map(|v| v.set(2)));
        }
        quiet(|| m.iter_mut().take(CAP).for_each(|(_, v)| v.set(3)));
        quiet(|| m.iter().take(CAP).map(|(k, v)| k.key() as i64 + v.val() as i64).sum::<i64>());
        if let Some(c) = c {
            quiet(|| c.into_iter().take(CAP).map(|(k, v)| k.key() as i64 + v.val() as i64).sum::<i64>());
        }
    }
    fn verify(&mut self) {
        self.verify_all("after the target operation");
    }
    fn max_len(&self) -> usize {
        self.max_len
    }
    fn drop_slot(&mut self) {
        self.slots.pop();
    }
}

fn w_maps(target: bool) -> Weights {
    use maps::Op::*;
    if target {
        weights(&[
            (Insert, 12), (Remove, 14), (Lookup, 2), (Pops, 6), (Append, 8), (SplitOff, 8),
            (Retain, 8), (Clear, 1), (Entry, 6), (Extend, 5), (Rebuild, 3), (IterMut, 5),
            (Range, 1), (RangeMut, 5), (IntoIter, 5), (Combine, 10), (EndEntry, 3), (Compare, 1),
            (Run, 4), (GetMut, 6), (RemoveEntry, 4), (IntoVec, 2),
        ])
    } else {
        weights(&[(CloneTo, 30), (Insert, 10), (Remove, 10), (DropOne, 6), (Run, 8), (GetMut, 5), (SplitOff, 3), (Append, 3), (Retain, 2)])
    }
}
fn w_sets(target: bool) -> SWeights {
    use sets::Op::*;
    if target {
        sweights(&[
            (Insert, 12), (Remove, 12), (Take, 6), (Replace, 8), (Lookup, 1), (Pops, 5), (Append, 8),
            (SplitOff, 8), (Retain, 8), (Clear, 1), (Extend, 5), (Rebuild, 3), (IntoIter, 5),
            (Range, 1), (Algebra, 12), (Predicates, 2), (Compare, 1), (Run, 4),
        ])
    } else {
        sweights(&[(CloneTo, 30), (Insert, 10), (Remove, 10), (DropOne, 6), (Run, 8), (SplitOff, 3), (Append, 3), (Retain, 2)])
    }
}
fn w_stacks(target: bool) -> StWeights {
    use stacks::Op::*;
    if target {
        stweights(&[
            (Push, 6), (Pop, 10), (TopMut, 8), (Remove, 14), (SplitOff, 14), (IterMut, 10),
            (IntoIter, 10), (Contains, 2), (Clear, 2), (Extend, 4), (Compare, 2), (DropOne, 2),
        ])
    } else {
        stweights(&[(CloneTo, 30), (Push, 12), (Pop, 8), (DropOne, 6), (Remove, 4), (SplitOff, 4), (IterMut, 2), (Join, 3)])
    }
}
fn w_fixed(target: bool) -> FWeights {
    use fixed::Op::*;
    if target {
        fweights(&[
            (Insert, 18), (Remove, 26), (Get, 2), (GetMut, 8), (IterMut, 10), (IntoIter, 14),
            (Extend, 6), (Collect, 4), (Clear, 1), (Run, 12),
        ])
    } else {
        fweights(&[(CloneTo, 30), (Insert, 10), (Remove, 10), (DropOne, 6), (Run, 10), (GetMut, 3)])
    }
}

pub fn run(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[2, 4, 2, 2, 2, 6]) {
        0 => {
            ctx.label("type: AvlMap");
            scenario!(src, ctx, Drv<'_, AMap>)
        }
        1 => {
            ctx.label("type: BTreeMap");
            match src.below(4) {
                0 => scenario!(src, ctx, Drv<'_, BMap<1>>),
                1 => scenario!(src, ctx, Drv<'_, BMap<2>>),
                2 => scenario!(src, ctx, Drv<'_, BMap<3>>),
                _ => scenario!(src, ctx, Drv<'_, BMap<5>>),
            }
        }
        2 => {
            ctx.label("type: AvlSet");
            scenario!(src, ctx, SDrv<'_, ASet>)
        }
        3 => {
            ctx.label("type: BTreeSet");
            match src.below(2) {
                0 => scenario!(src, ctx, SDrv<'_, BSet<1>>),
                _ => scenario!(src, ctx, SDrv<'_, BSet<5>>),
            }
        }
        4 => {
            ctx.label("type: Stack");
            scenario!(src, ctx, StDrv<'_>)
        }
        _ => {
            ctx.label("type: fixed::BTreeMap");
            match src.below(4) {
                0 => scenario!(src, ctx, FDrv<'_, Tk8, Tv>),
                1 => scenario!(src, ctx, FDrv<'_, Tk, Tv>),
                2 => scenario!(src, ctx, FDrv<'_, Tk, fixed::Zt>),
                _ => scenario!(src, ctx, FDrv<'_, Tk8, fixed::Big>),
            }
        }
    }
}
