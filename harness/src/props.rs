//! The listed properties: weights, sizes and case counts.

use crate::ensure_eq;
use crate::engine::{Ctx, Prop, Src};
use crate::fixed::{self, fweights, FWeights, Tk8};
use crate::maps::{weights, AMap, BMap, Drv, MapLike, Op::*, Weights, BIG, SIZES, SMALL};
use crate::sets::{self, sweights, ASet, BSet, SDrv, SWeights, SetLike};
use crate::stacks::{self, stweights, StDrv, StWeights};
use crate::track::Tk;
use std::sync::OnceLock;

type Sizes = [(u32, u32, u32)];
const LENS: &[(u32, u32)] = &[(3, 6), (5, 25), (2, 70)];

/// what a history over maps, sets, stacks or fixed maps is drawn from
struct Hist {
    check: bool,
    live: bool,
    shared: bool, // non-trivial cases need operations while copies exist
    sizes: &'static Sizes,
}
const PLAIN: Hist = Hist { check: false, live: false, shared: false, sizes: SIZES };

pub fn label_size(ctx: &mut Ctx, n: usize) {
    ctx.label(match n {
        0..=12 => "size: <=12",
        13..=80 => "size: 13-80",
        81..=400 => "size: 81-400",
        401..=2000 => "size: 401-2000",
        2001..=60_000 => "size: 2001-60000",
        _ => "size: >60000",
    });
}

fn map_case<M: MapLike>(src: &mut Src, ctx: &mut Ctx, w: &Weights, h: &Hist) {
    let mut d = Drv::<M>::new(src, ctx, h.sizes);
    d.check = h.check;
    d.live = h.live;
    d.src.plan(LENS);
    d.run(w);
    let (muts, max, sh) = (d.muts, d.max_len, d.shared_ops);
    label_size(ctx, max);
    ctx.nontrivial = muts >= 2 && max >= 4 && (!h.shared || sh >= 2);
}
fn set_case<S: SetLike>(src: &mut Src, ctx: &mut Ctx, w: &SWeights, h: &Hist, algebra: bool) {
    let mut d = SDrv::<S>::new(src, ctx, h.sizes);
    d.check = h.check;
    d.live = h.live;
    d.src.plan(LENS);
    d.run(w);
    let (muts, max, al) = (d.muts, d.max_len, d.algebra);
    label_size(ctx, max);
    ctx.nontrivial = max >= 4 && if algebra { al >= 1 } else { muts >= 2 };
}
fn stack_case(src: &mut Src, ctx: &mut Ctx, w: &StWeights, h: &Hist) {
    let mut d = StDrv::new(src, ctx, 400);
    d.live = h.live;
    d.src.plan(LENS);
    d.run(w);
    let (muts, max, sh) = (d.muts, d.max_len, d.shared);
    label_size(ctx, max);
    ctx.nontrivial = muts >= 2 && max >= 2 && (!h.shared || sh >= 2);
}

/// dispatch on the branching parameter
macro_rules! with_n {
    ($src:expr, $t:ident, $f:ident ( $($a:expr),* )) => {
        match $src.weighted(&[4, 3, 3, 2, 5, 2, 1, 1]) {
            0 => $f::<$t<1>>($($a),*),
            1 => $f::<$t<2>>($($a),*),
            2 => $f::<$t<3>>($($a),*),
            3 => $f::<$t<4>>($($a),*),
            4 => $f::<$t<5>>($($a),*),
            5 => $f::<$t<6>>($($a),*),
            6 => $f::<$t<9>>($($a),*),
            _ => match $src.below(4) {
                0 => $f::<$t<33>>($($a),*),
                1 => $f::<$t<130>>($($a),*),
                _ => $f::<$t<16>>($($a),*),
            },
        }
    };
}
/// fewer parameters, for the expensive ones
macro_rules! with_n3 {
    ($src:expr, $t:ident, $f:ident ( $($a:expr),* )) => {
        match $src.weighted(&[3, 2, 3]) {
            0 => $f::<$t<1>>($($a),*),
            1 => $f::<$t<2>>($($a),*),
            _ => $f::<$t<5>>($($a),*),
        }
    };
}
pub(crate) use with_n3;

/// AvlMap or BTreeMap
fn any_map(src: &mut Src, ctx: &mut Ctx, w: &Weights, h: &Hist) {
    if src.below(5) < 2 {
        ctx.label("type: AvlMap");
        map_case::<AMap>(src, ctx, w, h)
    } else {
        ctx.label("type: BTreeMap");
        with_n!(src, BMap, map_case(src, ctx, w, h))
    }
}
fn any_set(src: &mut Src, ctx: &mut Ctx, w: &SWeights, h: &Hist, algebra: bool) {
    if src.below(5) < 2 {
        ctx.label("type: AvlSet");
        set_case::<ASet>(src, ctx, w, h, algebra)
    } else {
        ctx.label("type: BTreeSet");
        with_n!(src, BSet, set_case(src, ctx, w, h, algebra))
    }
}
fn any_fixed(src: &mut Src, ctx: &mut Ctx, w: &FWeights, h: &Hist) {
    ctx.label("type: fixed::BTreeMap");
    fixed::tracked(src, ctx, w, h.sizes, h.live)
}
fn any_stack(src: &mut Src, ctx: &mut Ctx, w: &StWeights, h: &Hist) {
    ctx.label("type: Stack");
    stack_case(src, ctx, w, h)
}

// ------------------------------------------------------------- C01, C02, C03

fn w_history() -> Weights {
    weights(&[
        (Insert, 16), (Remove, 16), (Lookup, 6), (Ends, 2), (Pops, 5), (Append, 4),
        (SplitOff, 4), (Retain, 4), (Clear, 1), (Entry, 4), (Extend, 3), (Rebuild, 2),
        (CloneTo, 5), (DropOne, 2), (EndEntry, 1), (Run, 9), (GetMut, 3), (RemoveEntry, 3),
        (IntoVec, 1),
    ])
}
fn c01(src: &mut Src, ctx: &mut Ctx) {
    map_case::<AMap>(src, ctx, &w_history(), &PLAIN)
}
fn c02(src: &mut Src, ctx: &mut Ctx) {
    let w = w_history();
    with_n!(src, BMap, map_case(src, ctx, &w, &PLAIN))
}
fn c03(src: &mut Src, ctx: &mut Ctx) {
    use sets::Op::*;
    let w = sweights(&[
        (Insert, 14), (Remove, 12), (Take, 5), (Replace, 6), (Lookup, 6), (Pops, 5), (Append, 4),
        (SplitOff, 4), (Retain, 4), (Clear, 1), (Extend, 3), (Rebuild, 2), (CloneTo, 5),
        (DropOne, 2), (Iter, 2), (IntoIter, 1), (Range, 4), (Run, 8),
    ]);
    any_set(src, ctx, &w, &PLAIN, false)
}

// ---------------------------------------------------------------------- C04

/// every operation, with many clones
fn w_all_maps() -> Weights {
    weights(&[
        (Insert, 10), (Remove, 10), (Lookup, 1), (Ends, 1), (Pops, 4), (Append, 5), (SplitOff, 5),
        (Retain, 4), (Clear, 1), (Entry, 4), (Extend, 3), (Rebuild, 2), (CloneTo, 14),
        (DropOne, 4), (Iter, 2), (IterMut, 4), (Range, 1), (RangeMut, 4), (IntoIter, 4),
        (Combine, 6), (EndEntry, 2), (Compare, 1), (Run, 5), (GetMut, 4), (RemoveEntry, 2),
        (IntoVec, 2),
    ])
}
fn w_all_sets() -> SWeights {
    use sets::Op::*;
    sweights(&[
        (Insert, 10), (Remove, 8), (Take, 3), (Replace, 4), (Lookup, 1), (Pops, 4), (Append, 5),
        (SplitOff, 5), (Retain, 4), (Clear, 1), (Extend, 3), (Rebuild, 2), (CloneTo, 14),
        (DropOne, 4), (Iter, 2), (IntoIter, 4), (Range, 2), (Algebra, 6), (Predicates, 2),
        (Compare, 1), (Run, 5),
    ])
}
fn w_all_stacks() -> StWeights {
    use stacks::Op::*;
    stweights(&[
        (Push, 12), (Pop, 10), (Top, 2), (TopMut, 5), (Remove, 8), (SplitOff, 8), (BadIndex, 2),
        (Iter, 2), (IterMut, 6), (IntoIter, 5), (Contains, 2), (Clear, 1), (Extend, 4),
        (Build, 2), (CloneTo, 14), (DropOne, 5), (Compare, 2), (Join, 3),
    ])
}
fn w_all_fixed() -> FWeights {
    use fixed::Op::*;
    fweights(&[
        (Insert, 14), (Remove, 14), (Get, 3), (GetMut, 6), (Iter, 3), (IterMut, 5), (IntoIter, 5),
        (Extend, 3), (Collect, 2), (Clear, 1), (CloneTo, 14), (DropOne, 4), (Run, 8),
    ])
}
fn all_types(src: &mut Src, ctx: &mut Ctx, h: &Hist) {
    match src.weighted(&[5, 3, 2, 3]) {
        0 => any_map(src, ctx, &w_all_maps(), h),
        1 => any_set(src, ctx, &w_all_sets(), h, false),
        2 => any_stack(src, ctx, &w_all_stacks(), h),
        _ => any_fixed(src, ctx, &w_all_fixed(), h),
    }
}
fn c04(src: &mut Src, ctx: &mut Ctx) {
    all_types(src, ctx, &Hist { shared: true, ..PLAIN })
}

// ----------------------------------------------------------------- C05, C06

fn c05(src: &mut Src, ctx: &mut Ctx) {
    use sets::Op::*;
    let w = sweights(&[
        (Algebra, 30), (Predicates, 20), (Insert, 6), (Remove, 6), (CloneTo, 8), (DropOne, 2),
        (SplitOff, 3), (Append, 2), (Retain, 2), (Run, 4), (Clear, 1),
    ]);
    any_set(src, ctx, &w, &PLAIN, true)
}
fn c06(src: &mut Src, ctx: &mut Ctx) {
    let w = weights(&[
        (Combine, 40), (Append, 20), (SplitOff, 20), (Insert, 6), (Remove, 6), (CloneTo, 8),
        (DropOne, 2), (Retain, 2), (Run, 4), (GetMut, 2), (Pops, 2),
    ]);
    let h = Hist { sizes: &[(3, 0, 12), (5, 13, 80), (4, 81, 400), (2, 401, 3000)], ..PLAIN };
    if src.below(3) < 2 {
        ctx.label("type: AvlMap");
        map_case::<AMap>(src, ctx, &w, &h)
    } else {
        ctx.label("type: BTreeMap");
        let w = weights(&[
            (Append, 30), (SplitOff, 30), (Insert, 6), (Remove, 6), (CloneTo, 8), (DropOne, 2),
            (Retain, 2), (Run, 4), (GetMut, 2), (Pops, 2),
        ]);
        with_n!(src, BMap, map_case(src, ctx, &w, &h))
    }
}

// ----------------------------------------------------------------- C07, C08

fn c07(src: &mut Src, ctx: &mut Ctx) {
    let h = &PLAIN;
    match src.weighted(&[6, 3, 3, 1]) {
        0 => {
            let w = weights(&[
                (Iter, 30), (IterMut, 20), (IntoIter, 20), (Insert, 4), (Remove, 5), (CloneTo, 6),
                (DropOne, 2), (Pops, 2), (Append, 2), (SplitOff, 2), (Run, 4), (Clear, 1),
            ]);
            any_map(src, ctx, &w, h)
        }
        1 => {
            use sets::Op::*;
            let w = sweights(&[
                (Iter, 30), (IntoIter, 20), (Insert, 4), (Remove, 5), (CloneTo, 6), (DropOne, 2),
                (Pops, 2), (Append, 2), (SplitOff, 2), (Run, 4), (Clear, 1),
            ]);
            any_set(src, ctx, &w, h, false)
        }
        2 => {
            use fixed::Op::*;
            let w = fweights(&[
                (Iter, 20), (IterMut, 15), (IntoIter, 15), (Insert, 5), (Remove, 6), (CloneTo, 6),
                (DropOne, 2), (Run, 4), (Clear, 1),
            ]);
            any_fixed(src, ctx, &w, h)
        }
        _ => {
            use stacks::Op::*;
            let w = stweights(&[
                (Iter, 20), (IterMut, 15), (IntoIter, 15), (Push, 5), (Pop, 5), (CloneTo, 6),
                (DropOne, 2), (Remove, 3), (SplitOff, 3),
            ]);
            any_stack(src, ctx, &w, h)
        }
    }
    ctx.nontrivial = ctx.labels.iter().any(|l| l.0.starts_with("iter")) || ctx.nontrivial;
}
fn c08(src: &mut Src, ctx: &mut Ctx) {
    if src.weighted(&[3, 1]) == 0 {
        let w = weights(&[
            (Range, 40), (RangeMut, 30), (Insert, 4), (Remove, 6), (CloneTo, 6), (DropOne, 2),
            (Pops, 2), (Append, 2), (SplitOff, 2), (Run, 5), (Clear, 1),
        ]);
        any_map(src, ctx, &w, &PLAIN)
    } else {
        use sets::Op::*;
        let w = sweights(&[
            (Range, 40), (Insert, 4), (Remove, 6), (CloneTo, 6), (DropOne, 2), (Pops, 2),
            (Append, 2), (SplitOff, 2), (Run, 5), (Clear, 1),
        ]);
        any_set(src, ctx, &w, &PLAIN, false)
    }
}

// ----------------------------------------------------------------- C09, C10

fn c09(src: &mut Src, ctx: &mut Ctx) {
    const H: Hist = Hist { check: true, ..PLAIN };
    const HB: Hist = Hist { check: true, sizes: BIG, ..PLAIN };
    match src.weighted(&[10, 5, 2, 2, 1, 1]) {
        0 => any_map(src, ctx, &w_all_maps(), &H),
        1 => any_set(src, ctx, &w_all_sets(), &H, false),
        2 => {
            use crate::costs::map_costs;
            if src.below(256) == 255 && !crate::engine::mini() {
                crate::timing::trees(src, ctx)
            } else if src.below(5) < 2 {
                map_costs::<AMap>(src, ctx, 12_000)
            } else {
                with_n3!(src, BMap, map_costs(src, ctx, 12_000))
            }
        }
        3 => {
            use crate::costs::set_costs;
            if src.below(5) < 2 {
                set_costs::<ASet>(src, ctx, 8_000)
            } else {
                with_n3!(src, BSet, set_costs(src, ctx, 8_000))
            }
        }
        4 => {
            if src.chance(128) {
                crate::costs::fixed_costs::<Tk8>(src, ctx, 12_000)
            } else {
                crate::costs::fixed_costs::<Tk>(src, ctx, 12_000)
            }
        }
        _ => any_map(src, ctx, &w_all_maps(), &HB),
    }
}
fn c10(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[5, 2, 2, 1]) {
        0 => {
            use crate::costs::map_lazy;
            if src.below(5) < 2 {
                map_lazy::<AMap>(src, ctx, 5_000)
            } else {
                with_n!(src, BMap, map_lazy(src, ctx, 5_000))
            }
        }
        1 => {
            use crate::costs::set_lazy;
            if src.below(5) < 2 {
                set_lazy::<ASet>(src, ctx, 4_000)
            } else {
                with_n3!(src, BSet, set_lazy(src, ctx, 4_000))
            }
        }
        2 => {
            if src.chance(128) {
                crate::costs::fixed_lazy::<Tk8>(src, ctx, 4_000)
            } else {
                crate::costs::fixed_lazy::<Tk>(src, ctx, 4_000)
            }
        }
        _ => {
            if src.below(256) == 255 && !crate::engine::mini() {
                crate::timing::stacks(src, ctx);
                return;
            }
            ctx.label("lazy: Stack");
            stacks::lazy(src, ctx)
        }
    }
}

// ---------------------------------------------------------------------- C11

fn c11(src: &mut Src, ctx: &mut Ctx) {
    all_types(src, ctx, &Hist { live: true, ..PLAIN })
}

// ----------------------------------------------------------- C13, C14, C15, C16

/// elements whose own comparison is partial: NaN-like values, against Vec
fn c13_partial(src: &mut Src, ctx: &mut Ctx) {
    use lazy_clone_collections as l;
    const VALS: [f64; 6] = [0.0, 1.0, -0.0, 2.0, f64::NAN, f64::INFINITY];
    type P = Vec<(i32, f64)>;
    fn laws<T: PartialOrd>(a: &T, b: &T, x: &impl ParEq, y: &impl ParEq, what: &str) {
        let (eq, ord) = (x.eq_to(y.seq()), x.cmp_to(y.seq()));
        ensure_eq!(a == b, eq, "{what}: == with partially ordered elements");
        ensure_eq!(a != b, !eq, "{what}: != with partially ordered elements");
        ensure_eq!(a.partial_cmp(b), ord, "{what}: partial_cmp with partially ordered elements");
        use std::cmp::Ordering::*;
        ensure_eq!(a < b, ord == Some(Less), "{what}: < with partially ordered elements");
        ensure_eq!(a <= b, matches!(ord, Some(Less | Equal)), "{what}: <= with partially ordered elements");
        ensure_eq!(a > b, ord == Some(Greater), "{what}: > with partially ordered elements");
        ensure_eq!(a >= b, matches!(ord, Some(Greater | Equal)), "{what}: >= with partially ordered elements");
    }
    trait ParEq {
        fn seq(&self) -> &P;
        fn eq_to(&self, o: &P) -> bool {
            self.seq() == o
        }
        fn cmp_to(&self, o: &P) -> Option<std::cmp::Ordering> {
            self.seq().partial_cmp(o)
        }
    }
    impl ParEq for P {
        fn seq(&self) -> &P {
            self
        }
    }
    fn go<M>(ps: &[P], share: bool, edits: &[(i32, f64)], what: &str, set: impl Fn(&mut M, i32, f64))
    where
        M: Clone + PartialOrd + FromIterator<(i32, f64)>,
    {
        let mut ms: Vec<(M, P)> = ps.iter().map(|p| (p.iter().copied().collect(), p.clone())).collect();
        if share {
            // a changed copy that still shares structure
            let (m, p) = &ms[0];
            let (mut m, mut p) = (m.clone(), p.clone());
            for &(k, v) in edits {
                if let Some(e) = p.iter_mut().find(|e| e.0 == k) {
                    e.1 = v;
                    set(&mut m, k, v);
                }
            }
            ms.push((m, p));
            let c = (ms[0].0.clone(), ms[0].1.clone());
            ms.push(c);
        }
        for (a, x) in &ms {
            for (b, y) in &ms {
                laws(a, b, x, y, what);
            }
        }
    }
    ctx.label("partially ordered elements");
    let n = src.below(40) as i32;
    let mut ps: Vec<P> = vec![];
    let base: P = (0..n).map(|k| (k, VALS[[0, 1, 1, 2, 3, 5][src.below(6) as usize]])).collect();
    for _ in 0..3 {
        let mut p = base.clone();
        for _ in 0..src.below(3) {
            let v = VALS[src.below(6) as usize];
            if !p.is_empty() {
                let i = src.usize(p.len());
                match src.below(4) {
                    0 => drop(p.remove(i)),
                    _ => p[i].1 = v,
                }
            }
        }
        p.truncate(p.len() - src.below(3).min(p.len() as u32) as usize);
        ps.push(p);
    }
    let edits: P = (0..1 + src.below(2)).map(|_| (src.below(n.max(1) as u32) as i32, VALS[src.below(6) as usize])).collect();
    let share = src.chance(128);
    ctx.t(|| format!("{ps:?}, edits {edits:?} of a clone: {share}"));
    go::<l::AvlMap<i32, f64>>(&ps, share, &edits, "AvlMap", |m, k, v| *m.get_mut(&k).unwrap() = v);
    go::<l::BTreeMap<i32, f64>>(&ps, share, &edits, "BTreeMap", |m, k, v| *m.get_mut(&k).unwrap() = v);
    go::<l::btree::BTreeMap<i32, f64, 1>>(&ps, share, &edits, "BTreeMap<1>", |m, k, v| *m.get_mut(&k).unwrap() = v);
    // stacks compare from the top
    let mut ss: Vec<(l::Stack<f64>, P)> = vec![];
    for p in &ps {
        let s: l::Stack<f64> = p.iter().rev().map(|e| e.1).collect();
        ss.push((s, p.iter().map(|e| (0, e.1)).collect()));
    }
    if share {
        let (mut s, mut p) = (ss[0].0.clone(), ss[0].1.clone());
        if let Some(t) = s.top_mut() {
            *t = edits[0].1;
            p[0].1 = edits[0].1;
        }
        ss.push((s, p));
    }
    for (a, x) in &ss {
        for (b, y) in &ss {
            laws(a, b, x, y, "Stack");
        }
    }
    ctx.nontrivial = n >= 4;
}

fn c13(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[5, 4, 2, 1]) {
        3 => c13_partial(src, ctx),
        0 => {
            let w = weights(&[
                (Compare, 40), (Insert, 4), (Remove, 4), (CloneTo, 8), (DropOne, 2), (GetMut, 4),
                (SplitOff, 2), (Append, 2), (Run, 3), (Clear, 1), (Rebuild, 4),
            ]);
            any_map(src, ctx, &w, &Hist { sizes: SMALL, ..PLAIN })
        }
        1 => {
            use sets::Op::*;
            let w = sweights(&[
                (Compare, 40), (Insert, 4), (Remove, 4), (CloneTo, 8), (DropOne, 2), (SplitOff, 2),
                (Append, 2), (Run, 3), (Clear, 1), (Rebuild, 4), (Replace, 3),
            ]);
            any_set(src, ctx, &w, &Hist { sizes: SMALL, ..PLAIN }, false)
        }
        _ => {
            use stacks::Op::*;
            let w = stweights(&[
                (Compare, 40), (Push, 6), (Pop, 6), (TopMut, 4), (Remove, 4), (SplitOff, 4),
                (CloneTo, 8), (DropOne, 2), (Build, 4), (Join, 3), (IterMut, 2), (Clear, 1),
            ]);
            any_stack(src, ctx, &w, &PLAIN)
        }
    }
}
fn c14(src: &mut Src, ctx: &mut Ctx) {
    stack_case(src, ctx, &w_all_stacks(), &PLAIN)
}
fn c15(src: &mut Src, ctx: &mut Ctx) {
    stacks::deep(src, ctx)
}
fn c16(src: &mut Src, ctx: &mut Ctx) {
    use fixed::Op::*;
    let w = fweights(&[
        (Insert, 16), (Remove, 18), (Get, 4), (GetMut, 4), (Iter, 3), (IterMut, 3), (IntoIter, 5),
        (Extend, 3), (Collect, 2), (Clear, 1), (CloneTo, 7), (DropOne, 3), (Run, 12),
    ]);
    fixed::by_type(src, ctx, &w, SIZES)
}

// ----------------------------------------------------------------- C18, C19

fn c18(src: &mut Src, ctx: &mut Ctx) {
    let w = weights(&[
        (Entry, 50), (EndEntry, 20), (Insert, 3), (Remove, 5), (CloneTo, 8), (DropOne, 3),
        (Pops, 2), (Run, 4), (Clear, 2),
    ]);
    any_map(src, ctx, &w, &PLAIN)
}
fn c19(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[6, 2, 2]) {
        0 => {
            let w = weights(&[
                (GetMut, 20), (IterMut, 20), (RangeMut, 20), (Retain, 8), (Entry, 6), (EndEntry, 3),
                (Insert, 4), (Remove, 4), (CloneTo, 14), (DropOne, 3), (Append, 2), (SplitOff, 2),
                (Combine, 2), (Run, 3), (Pops, 2),
            ]);
            any_map(src, ctx, &w, &PLAIN)
        }
        1 => {
            use fixed::Op::*;
            let w = fweights(&[
                (GetMut, 20), (IterMut, 20), (Insert, 5), (Remove, 6), (CloneTo, 14), (DropOne, 3),
                (Run, 4), (IntoIter, 2),
            ]);
            any_fixed(src, ctx, &w, &PLAIN)
        }
        _ => {
            use stacks::Op::*;
            let w = stweights(&[
                (TopMut, 20), (IterMut, 20), (Push, 6), (Pop, 5), (Remove, 4), (SplitOff, 4),
                (CloneTo, 14), (DropOne, 3), (Join, 2),
            ]);
            any_stack(src, ctx, &w, &PLAIN)
        }
    }
}

// -------------------------------------------------------------------- table

const R_HIST: &str = "at least 2 updating operations on a collection that held at least 4 entries (2 for a Stack) at some point";

pub fn all() -> &'static [Prop] {
    static P: OnceLock<Vec<Prop>> = OnceLock::new();
    P.get_or_init(|| {
        let p = |id, run, quick, thorough, rule| Prop { id, run, quick, thorough, rule, leaks: matches!(id, "C11" | "C16" | "C20" | "C21") };
        vec![
            #[cfg(feature = "C12")]
            p("C12", crate::serdes::run, 800_000, 20_000_000, "a stream or a collection of at least 4 entries"),
            #[cfg(feature = "C01")]
            p("C01", c01, 600_000, 20_000_000, R_HIST),
            #[cfg(feature = "C02")]
            p("C02", c02, 800_000, 20_000_000, R_HIST),
            #[cfg(feature = "C03")]
            p("C03", c03, 800_000, 20_000_000, R_HIST),
            #[cfg(feature = "C04")]
            p("C04", c04, 800_000, 20_000_000, "at least 2 updating operations and at least 2 operations made while several copies of a non-empty collection existed"),
            #[cfg(feature = "C05")]
            p("C05", c05, 400_000, 10_000_000, "at least one algebra or predicate operation on a set that held at least 4 elements"),
            #[cfg(feature = "C06")]
            p("C06", c06, 800_000, 20_000_000, R_HIST),
            #[cfg(feature = "C07")]
            p("C07", c07, 800_000, 20_000_000, "at least one iterator driven over a collection, or 2 updating operations on one that held at least 4 entries"),
            #[cfg(feature = "C08")]
            p("C08", c08, 800_000, 20_000_000, R_HIST),
            #[cfg(feature = "C09")]
            p("C09", c09, 200_000, 5_000_000, "histories: 2 updating operations on a collection that held at least 4 entries; cost measurements: at least 3 operations measured on a collection of at least 300 entries"),
            #[cfg(feature = "C10")]
            p("C10", c10, 100_000, 2_000_000, "at least 2 updates of a copy that shares structure, on a collection of at least 100 entries (50 for fixed, any Stack)"),
            #[cfg(feature = "C11")]
            p("C11", c11, 800_000, 20_000_000, R_HIST),
            #[cfg(feature = "C13")]
            p("C13", c13, 800_000, 20_000_000, R_HIST),
            #[cfg(feature = "C14")]
            p("C14", c14, 2_000_000, 40_000_000, R_HIST),
            #[cfg(feature = "C15")]
            p("C15", c15, 5000, 200_000, "at least 2 operations on stacks of at least 60000 elements"),
            #[cfg(feature = "C16")]
            p("C16", c16, 800_000, 20_000_000, R_HIST),
            // small cases for Miri; not properties of their own
            #[cfg(feature = "C16")]
            p("C16m", crate::interp::run, 0, 0, "at least 2 updating operations"),
            #[cfg(feature = "C17")]
            p("C17m", crate::interp::run_faults, 0, 0, "at least 2 updating operations"),
            #[cfg(feature = "C21")]
            p("C21m", crate::lawless::run_fixed, 0, 0, "at least 3 lies and 2 operations"),
            #[cfg(feature = "C20")]
            p("C20m", crate::threads::run_mini, 0, 0, "a step other than clear"),
            #[cfg(feature = "C17")]
            p("C17", crate::panics::run, 300_000, 8_000_000, "at least one panic was actually injected into the target operation"),
            #[cfg(feature = "C18")]
            p("C18", c18, 800_000, 20_000_000, R_HIST),
            #[cfg(feature = "C20")]
            p("C20", crate::threads::run, 100_000, 3_000_000, "at least 2 updating operations over all threads and (scheduled threads) at least 4 switches between threads; for a stampede, a step other than clear"),
            #[cfg(feature = "C21")]
            p("C21", crate::lawless::run, 2_000_000, 40_000_000, "at least 3 comparisons or clones that lied, and at least 2 operations"),
            #[cfg(feature = "C19")]
            p("C19", c19, 800_000, 20_000_000, R_HIST),
        ]
    })
}
