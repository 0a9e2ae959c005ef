//! Lean histories on fixed::BTreeMap (whose node storage is hand-managed, the
//! library's only unsafe code) for runs under Miri, which sees every invalid
//! access: outside the initialised part of a node, after free, through a stale
//! or too narrow pointer.  Miri is slow, so the model is an array and the
//! contents are compared at the end of a history.  Variant `faults` injects
//! panics into Clone and Ord.

use crate::engine::{Ctx, Src};
use crate::{ensure, ensure_eq};
use lazy_clone_collections::btree::fixed::BTreeMap as Fixed;
use std::cell::Cell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SPAN: usize = 160;

trait Lk: Ord + Clone {
    const SPAN: usize = SPAN;
    fn mk(i: usize) -> Self;
    fn id(&self) -> usize;
}
impl Lk for () {
    const SPAN: usize = 1;
    fn mk(_: usize) {}
    fn id(&self) -> usize {
        0
    }
}
impl Lk for u8 {
    fn mk(i: usize) -> u8 {
        i as u8
    }
    fn id(&self) -> usize {
        *self as usize
    }
}
impl Lk for (u64, u64) {
    fn mk(i: usize) -> (u64, u64) {
        (i as u64 / 16, i as u64 % 16)
    }
    fn id(&self) -> usize {
        (self.0 * 16 + self.1) as usize
    }
}
impl Lk for String {
    fn mk(i: usize) -> String {
        format!("{i:03}")
    }
    fn id(&self) -> usize {
        self.parse().unwrap()
    }
}

thread_local! {
    /// calls of Clone and Ord left until one panics
    static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
}
fn burn() {
    FUSE.with(|f| {
        let k = f.get();
        if k != u32::MAX {
            if k == 0 {
                f.set(u32::MAX);
                std::panic::resume_unwind(Box::new(crate::track::Injected));
            }
            f.set(k - 1);
        }
    })
}
/// heap-owning, 8 bytes: linear search
#[derive(PartialEq, Eq)]
struct Pk(Box<u32>);
/// heap-owning, over 8 bytes: binary search
#[derive(PartialEq, Eq)]
struct Pw(Box<u32>, u8);
macro_rules! fused {
    ($t:ident, |$s:ident| $c:expr, |$i:ident| $mk:expr) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                burn();
                let $s = self;
                $c
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                burn();
                self.0.cmp(&o.0)
            }
        }
        impl Lk for $t {
            fn mk($i: usize) -> Self {
                $mk
            }
            fn id(&self) -> usize {
                *self.0 as usize
            }
        }
    };
}
fused!(Pk, |s| Pk(s.0.clone()), |i| Pk(Box::new(i as u32)));
fused!(Pw, |s| Pw(s.0.clone(), s.1), |i| Pw(Box::new(i as u32), 7));

trait Lv: Clone {
    fn mk(x: u32) -> Self;
    fn get(&self) -> u32;
    fn set(&mut self, x: u32);
}
impl Lv for u32 {
    fn mk(x: u32) -> u32 {
        x
    }
    fn get(&self) -> u32 {
        *self
    }
    fn set(&mut self, x: u32) {
        *self = x
    }
}
impl Lv for Box<u32> {
    fn mk(x: u32) -> Box<u32> {
        Box::new(x)
    }
    fn get(&self) -> u32 {
        **self
    }
    fn set(&mut self, x: u32) {
        **self = x
    }
}

struct Sl<K, V> {
    m: Fixed<K, V>,
    md: Vec<Option<u32>>,
    /// a panic went through an operation on it
    hurt: bool,
}

fn same<K: Lk, V: Lv>(s: &Sl<K, V>, when: &str) {
    let e: Vec<(usize, u32)> = s.md.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i, v))).collect();
    ensure_eq!(s.m.len(), e.len(), "{when}: len()");
    let mut n = 0;
    for (k, v) in s.m.iter() {
        ensure!(n < e.len() && (k.id(), v.get()) == e[n], "{when}: entry {n} is {:?}, expected {:?}", (k.id(), v.get()), e.get(n));
        n += 1;
    }
    ensure_eq!(n, e.len(), "{when}: entries");
}

fn go<K: Lk, V: Lv>(src: &mut Src, ctx: &mut Ctx, faults: bool) {
    let n = [3, 12, 40, 110][src.weighted(&[1, 2, 4, 4])] as usize % (SPAN + 1);
    let mut next = 0u32;
    let mut slots = vec![Sl::<K, V> { m: Fixed::new(), md: vec![None; K::SPAN], hurt: false }];
    let (mut at, step) = (src.byte() as usize, [1, 3, 7, 159][src.usize(4)]);
    for _ in 0..n {
        at = (at + step) % SPAN;
        let k = at % K::SPAN;
        slots[0].m.insert(K::mk(k), V::mk(next));
        slots[0].md[k] = Some(next);
        next += 1;
    }
    ctx.t(|| format!("{n} inserts, step {step}"));
    src.plan(&[(1, 10)]);
    let mut muts = 0;
    while src.next_op() {
        let op = src.weighted(&[4, 8, 2, 4, 2, 3, 3, 1]);
        let i = src.usize(slots.len());
        let (a, b) = (src.byte() as usize, src.byte() as usize);
        let step = [1, 2, 5, SPAN - 1][src.usize(4)];
        let fuse = if faults && src.chance(190) { src.below(if op < 2 { 40 } else { 20 }) } else { u32::MAX };
        ctx.t(|| format!("op {op} on copy {i} of {}: {a} {b} step {step} fuse {fuse}", slots.len()));
        muts += 1;
        if op == 3 {
            let c = Sl { m: slots[i].m.clone(), md: slots[i].md.clone(), hurt: slots[i].hurt };
            slots.push(c);
            if slots.len() > 4 {
                slots.remove(0);
            }
            continue;
        }
        if op == 4 {
            if slots.len() > 1 {
                slots.remove(i);
            }
            continue;
        }
        let mut gone = false;
        FUSE.with(|f| f.set(fuse));
        let r = {
            let (s, next, gone) = (&mut slots[i], &mut next, &mut gone);
            catch_unwind(AssertUnwindSafe(|| match op {
                0 | 1 => {
                    let mut k = a % K::SPAN;
                    for _ in 0..1 + b % 48 {
                        if op == 0 {
                            *next += 1;
                            let r = s.m.insert(K::mk(k), V::mk(*next)).map(|v| v.get());
                            ensure!(s.hurt || r == s.md[k], "insert({k}) gives {r:?}, expected {:?}", s.md[k]);
                            s.md[k] = Some(*next);
                        } else {
                            let r = s.m.remove(&K::mk(k)).map(|v| v.get());
                            ensure!(s.hurt || r == s.md[k], "remove({k}) gives {r:?}, expected {:?}", s.md[k]);
                            s.md[k] = None;
                        }
                        k = (k + step) % K::SPAN;
                    }
                }
                2 => {
                    let k = a % K::SPAN;
                    ensure!(s.hurt || s.m.get(&K::mk(k)).map(|v| v.get()) == s.md[k], "get({k})");
                    *next += 1;
                    if let Some(v) = s.m.get_mut(&K::mk(k)) {
                        v.set(*next);
                        s.md[k] = Some(*next);
                    }
                }
                5 => {
                    let mut it = s.m.iter_mut();
                    for j in 0..a % (K::SPAN + 2) {
                        let x = if b >> (j % 8) & 1 == 0 { it.next() } else { it.next_back() };
                        let Some((k, v)) = x else { break };
                        *next += 1;
                        v.set(*next);
                        s.md[k.id()] = Some(*next);
                    }
                }
                6 => {
                    let m = if b & 1 == 0 {
                        *gone = true;
                        std::mem::replace(&mut s.m, Fixed::new())
                    } else {
                        s.m.clone()
                    };
                    let mut it = m.into_iter();
                    for j in 0..a % (K::SPAN + 2) {
                        let x = if b >> (j % 7 + 1) & 1 == 0 { it.next() } else { it.next_back() };
                        let Some((k, v)) = x else { break };
                        ensure!(s.hurt || s.md[k.id()] == Some(v.get()), "into_iter() yields {:?}", (k.id(), v.get()));
                    }
                }
                _ => {
                    let mut it = s.m.iter();
                    for j in 0..a {
                        let x = if b >> (j % 8) & 1 == 0 { it.next() } else { it.next_back() };
                        let Some((k, v)) = x else { break };
                        ensure!(s.hurt || s.md[k.id()] == Some(v.get()), "iter() yields {:?}", (k.id(), v.get()));
                    }
                }
            }))
        };
        FUSE.with(|f| f.set(u32::MAX));
        if gone {
            slots[i].md = vec![None; K::SPAN];
            slots[i].hurt = false;
        }
        if let Err(e) = r {
            if e.is::<crate::track::Injected>() {
                ctx.label("Miri: panics injected");
                slots[i].hurt |= !gone;
            } else if !slots[i].hurt || e.is::<crate::engine::Failure>() {
                std::panic::resume_unwind(e);
            } else {
                // it has lost its shape in an earlier panic, and may say so
                slots.remove(i);
                if slots.is_empty() {
                    break;
                }
            }
        }
    }
    for s in &slots {
        if s.hurt {
            crate::quiet(|| s.m.iter().map(|(k, v)| k.id() + v.get() as usize).sum::<usize>());
        } else {
            same(s, "at the end");
        }
    }
    ctx.nontrivial = muts >= 2;
}

pub fn run(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[1, 4, 3, 3, 3, 3]) {
        0 => go::<(), Box<u32>>(src, ctx, false),
        1 => go::<u8, Box<u32>>(src, ctx, false),
        2 => go::<(u64, u64), u32>(src, ctx, false),
        3 => go::<String, Box<u32>>(src, ctx, false),
        4 => go::<Pk, u32>(src, ctx, false),
        _ => go::<Pw, Box<u32>>(src, ctx, false),
    }
}

pub fn run_faults(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[3, 3]) {
        0 => go::<Pk, Box<u32>>(src, ctx, true),
        _ => go::<Pw, u32>(src, ctx, true),
    }
}
