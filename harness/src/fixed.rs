//! Model-based driver for btree::fixed::BTreeMap over many element types.

use crate::engine::{Ctx, Rng, Src};
use crate::iters::{adapters, drive, loose, Plan};
use crate::maps::{draw_size, len_of, nth_key, order, shuffle};
use crate::track::{check_errs, reg_add, reg_chk, reg_del, Tk, Tv};
use crate::{ensure, ensure_eq};
use lazy_clone_collections::btree::fixed::BTreeMap as Fixed;
use std::collections::BTreeMap as Std;
use std::fmt::Debug;

pub trait FKey: Clone + Ord + Debug + 'static {
    /// 1 if the registry counts it
    const COUNT: usize = 0;
    const NAME: &'static str;
    fn mk(i: i32) -> Self;
    fn key(&self) -> i32;
    /// the key actually represented
    fn norm(i: i32) -> i32 {
        i
    }
}
pub trait FVal: Clone + 'static {
    const COUNT: usize = 0;
    const NAME: &'static str;
    fn mk(v: u32) -> Self;
    fn val(&self) -> u32;
    fn set(&mut self, v: u32);
    fn norm(v: u32) -> u32 {
        v
    }
}

/// tracked key of eight bytes (linear search inside nodes)
pub struct Tk8 {
    k: i32,
    id: u32,
}
impl Tk8 {
    fn chk(&self, what: &str) {
        reg_chk(what, self.id)
    }
}
impl Clone for Tk8 {
    fn clone(&self) -> Self {
        self.chk("cloning a key");
        crate::track::on_clone();
        Tk8 { k: self.k, id: reg_add() }
    }
}
impl Drop for Tk8 {
    fn drop(&mut self) {
        reg_del("dropping a key", self.id)
    }
}
impl PartialEq for Tk8 {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o).is_eq()
    }
}
impl Eq for Tk8 {}
impl PartialOrd for Tk8 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tk8 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.chk("comparing a key");
        o.chk("comparing a key");
        crate::track::on_cmp();
        crate::track::compare(self.k, o.k)
    }
}
impl Debug for Tk8 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.k)
    }
}
impl FKey for Tk8 {
    const NAME: &'static str = "8-byte tracked";
    const COUNT: usize = 1;
    fn mk(i: i32) -> Self {
        Tk8 { k: i, id: reg_add() }
    }
    fn key(&self) -> i32 {
        self.chk("reading a key");
        self.k
    }
}
impl FKey for Tk {
    const NAME: &'static str = "16-byte tracked";
    const COUNT: usize = 1;
    fn mk(i: i32) -> Self {
        Tk::new(i, 0)
    }
    fn key(&self) -> i32 {
        self.k()
    }
}
impl FKey for u8 {
    const NAME: &'static str = "u8";
    fn mk(i: i32) -> Self {
        i as u8
    }
    fn key(&self) -> i32 {
        *self as i32
    }
    fn norm(i: i32) -> i32 {
        i as u8 as i32
    }
}
impl FKey for i64 {
    const NAME: &'static str = "i64";
    fn mk(i: i32) -> Self {
        i as i64
    }
    fn key(&self) -> i32 {
        *self as i32
    }
}
impl FKey for String {
    const NAME: &'static str = "String";
    fn mk(i: i32) -> Self {
        format!("key-{:010}-with-a-tail", i as i64 - i32::MIN as i64)
    }
    fn key(&self) -> i32 {
        (self[4..14].parse::<i64>().unwrap() + i32::MIN as i64) as i32
    }
}
impl FKey for Box<i32> {
    const NAME: &'static str = "Box<i32>";
    fn mk(i: i32) -> Self {
        Box::new(i)
    }
    fn key(&self) -> i32 {
        **self
    }
}
impl FKey for [i32; 5] {
    const NAME: &'static str = "[i32; 5]";
    fn mk(i: i32) -> Self {
        [7, i, i ^ 3, 1, i]
    }
    fn key(&self) -> i32 {
        assert!(self[4] == self[1] && self[2] == self[1] ^ 3);
        self[1]
    }
}
/// zero-sized key: at most one entry
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Zk;
impl FKey for Zk {
    const NAME: &'static str = "zero-sized";
    fn mk(_: i32) -> Self {
        Zk
    }
    fn key(&self) -> i32 {
        0
    }
    fn norm(_: i32) -> i32 {
        0
    }
}

impl FVal for Tv {
    const NAME: &'static str = "tracked";
    const COUNT: usize = 1;
    fn mk(v: u32) -> Self {
        Tv::new(v)
    }
    fn val(&self) -> u32 {
        self.v()
    }
    fn set(&mut self, v: u32) {
        Tv::set(self, v)
    }
}
impl FVal for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u32) -> Self {
        v as u8
    }
    fn val(&self) -> u32 {
        *self as u32
    }
    fn set(&mut self, v: u32) {
        *self = v as u8
    }
    fn norm(v: u32) -> u32 {
        v as u8 as u32
    }
}
impl FVal for [u64; 16] {
    const NAME: &'static str = "[u64; 16]";
    fn mk(v: u32) -> Self {
        [v as u64; 16]
    }
    fn val(&self) -> u32 {
        assert!(self.iter().all(|x| *x == self[0]));
        self[0] as u32
    }
    fn set(&mut self, v: u32) {
        *self = [v as u64; 16]
    }
}
impl FVal for String {
    const NAME: &'static str = "String";
    fn mk(v: u32) -> Self {
        format!("a value on the heap {v}")
    }
    fn val(&self) -> u32 {
        self[20..].parse().unwrap()
    }
    fn set(&mut self, v: u32) {
        *self = <Self as FVal>::mk(v)
    }
}
/// zero-sized value whose instances are counted
pub struct Zt(());
impl Clone for Zt {
    fn clone(&self) -> Self {
        crate::track::on_clone();
        Zt::mk(0)
    }
}
impl Drop for Zt {
    fn drop(&mut self) {
        crate::track::zst(-1)
    }
}
impl FVal for Zt {
    const NAME: &'static str = "zero-sized";
    fn mk(_: u32) -> Self {
        crate::track::zst(1);
        Zt(())
    }
    fn val(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
    fn norm(_: u32) -> u32 {
        0
    }
}
/// tracked, over-aligned and large
#[derive(Clone)]
#[repr(align(32))]
pub struct Big {
    a: u64,
    t: Tv,
    b: [u32; 21],
}
impl FVal for Big {
    const NAME: &'static str = "large tracked";
    const COUNT: usize = 1;
    fn mk(v: u32) -> Self {
        Big { a: v as u64, t: Tv::new(v), b: [v; 21] }
    }
    fn val(&self) -> u32 {
        let v = self.t.v();
        ensure!(
            self.a == v as u64 && self.b.iter().all(|x| *x == v),
            "a stored value is torn: {} / {v} / {:?}",
            self.a,
            self.b
        );
        v
    }
    fn set(&mut self, v: u32) {
        self.a = v as u64;
        self.t.set(v);
        self.b = [v; 21];
    }
}

pub struct FSlot<K, V> {
    pub m: Fixed<K, V>,
    pub md: Std<i32, u32>,
}

pub struct FDrv<'a, K, V> {
    pub src: &'a mut Src,
    pub ctx: &'a mut Ctx,
    pub slots: Vec<FSlot<K, V>>,
    pub next: u32,
    pub span: u32,
    pub step: usize,
    pub muts: u32,
    pub last_op: Option<Op>,
    pub max_len: usize,
    pub max_slots: usize,
    pub live: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Op {
    Insert,
    Remove,
    Get,
    GetMut,
    Iter,
    IterMut,
    IntoIter,
    Extend,
    Collect,
    Clear,
    CloneTo,
    DropOne,
    Run,
}
use Op::*;
pub const NOPS: usize = 13;
pub const OPS: [Op; NOPS] = [
    Insert, Remove, Get, GetMut, Iter, IterMut, IntoIter, Extend, Collect, Clear, CloneTo, DropOne,
    Run,
];
pub type FWeights = [u32; NOPS];
pub fn fweights(l: &[(Op, u32)]) -> FWeights {
    let mut w = [0; NOPS];
    for &(o, x) in l {
        w[o as usize] = x;
    }
    w
}

pub fn verify_fixed<K: FKey, V: FVal>(m: &Fixed<K, V>, md: &Std<i32, u32>, when: &dyn Fn() -> String) {
    if m.len() != md.len() {
        crate::fail!("{}: len() is {}, expected {}", when(), m.len(), md.len());
    }
    if m.is_empty() != md.is_empty() {
        crate::fail!("{}: is_empty() is {}", when(), m.is_empty());
    }
    let mut it = m.iter();
    for (i, (k, v)) in md.iter().enumerate() {
        match it.next() {
            Some((a, b)) => {
                if (a.key(), b.val()) != (*k, *v) {
                    crate::fail!("{}: entry {i} is ({}, {}), expected ({k}, {v})", when(), a.key(), b.val());
                }
            }
            None => crate::fail!("{}: only {i} entries, expected {}", when(), md.len()),
        }
    }
    if let Some((a, _)) = it.next() {
        crate::fail!("{}: extra entry {}", when(), a.key());
    }
    check_errs("reading the map");
}

impl<'a, K: FKey, V: FVal> FDrv<'a, K, V> {
    pub fn new(src: &'a mut Src, ctx: &'a mut Ctx, sizes: &[(u32, u32, u32)]) -> Self {
        let n = draw_size(src, sizes);
        let dens = 1 + src.below(3);
        let span = (n * dens).max(8) + src.below(8);
        let mut d = FDrv {
            src,
            ctx,
            slots: vec![],
            next: 1,
            span,
            step: 0,
            muts: 0,
            last_op: None,
            max_len: 0,
            max_slots: 4,
            live: false,
        };
        let s = d.build(n, dens);
        d.slots.push(s);
        d
    }
    /// no slots yet
    pub fn empty(src: &'a mut Src, ctx: &'a mut Ctx, span: u32) -> Self {
        FDrv {
            src,
            ctx,
            slots: vec![],
            next: 1,
            span,
            step: 0,
            muts: 0,
            last_op: None,
            max_len: 0,
            max_slots: 4,
            live: false,
        }
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn at(&self, i: u32) -> i32 {
        K::norm(i as i32)
    }
    fn build(&mut self, n: u32, dens: u32) -> FSlot<K, V> {
        let ord = order(self.src, n);
        let how = self.src.below(3);
        let mut md = Std::new();
        let mut v = vec![];
        for i in ord {
            let k = self.at(i * dens);
            let x = self.fresh();
            md.insert(k, V::norm(x));
            v.push((K::mk(k), V::mk(x)));
        }
        let mut m = match how {
            0 => {
                let mut m = Fixed::new();
                for (k, v) in v {
                    m.insert(k, v);
                }
                m
            }
            1 => {
                let n = v.len() as u32;
                loose(v.into_iter(), n).collect()
            }
            _ => {
                let mut m = Fixed::new();
                m.extend(v);
                m
            }
        };
        let thin = self.src.weighted(&[5, 2, 2, 2]);
        let seed = if thin > 0 { self.src.byte() as u64 } else { 0 };
        let mut rng = Rng::new(seed);
        let total = md.len();
        let (a, b) = (seed as usize * total / 256, (seed as usize * 3 % 256) * total / 256);
        let mut gone: Vec<i32> = md
            .keys()
            .enumerate()
            .filter(|(i, _)| match thin {
                1 => i % 2 == 1,
                2 => rng.below(4) != 0,
                3 => *i >= a.min(b) && *i < a.max(b),
                _ => false,
            })
            .map(|x| *x.1)
            .collect();
        match seed % 3 {
            0 => (),
            1 => gone.reverse(),
            _ => shuffle(&mut gone, seed),
        }
        for k in gone {
            let e = md.remove(&k);
            ensure_eq!(m.remove(&K::mk(k)).map(|v| v.val()), e, "remove({k}) while thinning");
        }
        self.ctx.t(|| {
            format!(
                "build fixed::BTreeMap<{}, {}> of {n}, method {how}, thinning {thin} -> {} entries",
                K::NAME,
                V::NAME,
                md.len()
            )
        });
        FSlot { m, md }
    }
    fn pick(&mut self, i: usize) -> i32 {
        let k = match self.src.weighted(&[5, 5, 2]) {
            0 => self.src.below(self.span) as i32,
            1 => nth_key(self.src, &self.slots[i].md).unwrap_or(0),
            _ => nth_key(self.src, &self.slots[i].md).unwrap_or(0) + 1,
        };
        K::norm(k)
    }
    pub fn verify_all(&mut self, when: &str) {
        for (i, s) in self.slots.iter().enumerate() {
            self.max_len = self.max_len.max(s.md.len());
            verify_fixed(&s.m, &s.md, &|| format!("map {i} {when}"));
        }
        if self.live {
            let total: usize = self.slots.iter().map(|s| (K::COUNT + V::COUNT) * s.md.len()).sum();
            crate::maps::live_bound(total, self.slots.len(), when);
        }
    }
    pub fn run(&mut self, w: &FWeights) {
        self.verify_all("after building");
        while self.src.next_op() {
            let op = OPS[self.src.weighted(w)];
            let i = self.src.usize(self.slots.len());
            self.step += 1;
            crate::track::reg(|r| r.cmp_limit = r.cmps + 100_000_000);
            self.apply(op, i);
            check_errs("operation");
            let st = self.step;
            // of the largest ones, not after each step
            let all: usize = self.slots.iter().map(|s| s.md.len()).sum();
            if all < 60_000 || st % 4 == 0 {
                self.verify_all(&format!("after step {st} ({op:?} on map {i})"));
            }
            if all > 60_000 && st >= 14 {
                break;
            }
        }
        self.verify_all("at the end");
    }
    fn insert(&mut self, i: usize, k: i32) {
        let x = self.fresh();
        let s = &mut self.slots[i];
        self.ctx.t(|| format!("m{i}.insert({k}, {x})"));
        let r = s.m.insert(K::mk(k), V::mk(x)).map(|v| v.val());
        ensure_eq!(r, s.md.insert(k, V::norm(x)), "insert({k})");
    }
    fn remove(&mut self, i: usize, k: i32) {
        let s = &mut self.slots[i];
        self.ctx.t(|| format!("m{i}.remove({k})"));
        let r = s.m.remove(&K::mk(k)).map(|v| v.val());
        ensure_eq!(r, s.md.remove(&k), "remove({k})");
    }
    pub fn apply(&mut self, op: Op, i: usize) {
        match op {
            Insert => {
                self.muts += 1;
                let k = self.pick(i);
                self.insert(i, k);
            }
            Remove => {
                self.muts += 1;
                let k = self.pick(i);
                self.remove(i, k);
            }
            Get => {
                for _ in 0..1 + self.src.below(6) {
                    let k = self.pick(i);
                    let s = &self.slots[i];
                    let e = s.md.get(&k).copied();
                    ensure_eq!(s.m.get(&K::mk(k)).map(|v| v.val()), e, "get({k})");
                }
            }
            GetMut => {
                self.muts += 1;
                for _ in 0..1 + self.src.below(3) {
                    let k = self.pick(i);
                    let x = self.fresh();
                    let s = &mut self.slots[i];
                    self.ctx.t(|| format!("m{i}.get_mut({k}) = {x}"));
                    match (s.m.get_mut(&K::mk(k)), s.md.get_mut(&k)) {
                        (Some(a), Some(b)) => {
                            ensure_eq!(a.val(), *b, "get_mut({k}) before writing");
                            a.set(x);
                            *b = V::norm(x);
                        }
                        (None, None) => (),
                        (a, b) => crate::fail!("get_mut({k}): is_some {}, expected {b:?}", a.is_some()),
                    }
                }
            }
            Iter => {
                let which = self.src.below(4);
                let s = &self.slots[i];
                let n = s.md.len();
                let plan = Plan::draw(self.src, n);
                let exp: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
                if which == 0 {
                    adapters(&mut || s.m.iter(), n, "fixed iter()");
                    adapters(&mut || s.m.clone().into_iter(), n, "fixed into_iter()");
                    let mut c = s.m.clone();
                    ensure_eq!(c.iter_mut().zip(0..n).len(), n, "fixed iter_mut().zip().len()");
                } else {
                    drive(s.m.iter(), &exp, plan, Some(len_of), "fixed iter()", self.ctx, |(k, v), _| {
                        (k.key(), v.val())
                    });
                }
            }
            IterMut => {
                self.muts += 1;
                let every = self.src.usize(3);
                let base = self.next;
                let s = &mut self.slots[i];
                let n = s.md.len();
                self.next += n as u32 + 2;
                let plan = Plan::draw(self.src, n);
                let exp: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
                let mut written = vec![];
                drive(s.m.iter_mut(), &exp, plan, Some(len_of), "fixed iter_mut()", self.ctx, |(k, v), j| {
                    let old = v.val();
                    if every > 0 && j % every == 0 {
                        v.set(base + j as u32 + 1);
                        written.push(j);
                    }
                    (k.key(), old)
                });
                for j in written {
                    s.md.insert(exp[j].0, V::norm(base + j as u32 + 1));
                }
            }
            IntoIter => {
                let take = self.src.chance(110);
                let s = &mut self.slots[i];
                let plan = Plan::draw(self.src, s.md.len());
                let exp: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
                let m = if take {
                    s.md.clear();
                    std::mem::replace(&mut s.m, Fixed::new())
                } else {
                    s.m.clone()
                };
                self.ctx.t(|| format!("m{i}: consume {}", if take { "the map" } else { "a clone" }));
                drive(m.into_iter(), &exp, plan, Some(len_of), "fixed into_iter()", self.ctx, |(k, v), _| {
                    (k.key(), v.val())
                });
                if take && self.slots.len() == 1 {
                    let mut m = Fixed::new();
                    let mut md = Std::new();
                    for (k, v) in exp.iter().take(300) {
                        m.insert(K::mk(*k), V::mk(*v));
                        md.insert(*k, *v);
                    }
                    self.slots[0] = FSlot { m, md };
                }
            }
            Extend => {
                self.muts += 1;
                let n = 1 + self.src.below(30);
                let mut rng = Rng::new(self.src.byte() as u64 * 31 + 7);
                let mut v = vec![];
                for _ in 0..n {
                    let k = K::norm(rng.below(self.span as u64) as i32);
                    let x = self.fresh();
                    v.push((k, x));
                }
                self.ctx.t(|| format!("m{i}.extend({v:?})"));
                let s = &mut self.slots[i];
                s.md.extend(v.iter().map(|&(k, x)| (k, V::norm(x))));
                let how = v.len() as u32 ^ v.first().map_or(0, |x| x.1);
                s.m.extend(loose(v.iter(), how).map(|&(k, x)| {
                    crate::track::on_call();
                    (K::mk(k), V::mk(x))
                }));
            }
            Collect => {
                let rev = self.src.chance(128);
                self.ctx.t(|| format!("m{i} = m{i}.into_iter().collect()"));
                let s = &mut self.slots[i];
                let m = std::mem::replace(&mut s.m, Fixed::new());
                let mut v: Vec<(K, V)> = m.into_iter().collect();
                if rev {
                    v.reverse();
                }
                let n = v.len() as u32;
                s.m = loose(v.into_iter(), n).collect();
            }
            Clear => {
                self.ctx.t(|| format!("m{i}.clear()"));
                let s = &mut self.slots[i];
                s.m.clear();
                s.md.clear();
            }
            CloneTo => {
                self.ctx.t(|| format!("clone m{i}"));
                self.ctx.label("op: clone");
                let s = &self.slots[i];
                let c = FSlot { m: s.m.clone(), md: s.md.clone() };
                if self.slots.len() < self.max_slots {
                    self.slots.push(c);
                } else {
                    // over an old slot, by assignment or clone_from
                    let j = self.src.usize(self.slots.len());
                    if j % 2 == 1 {
                        self.slots[j].m.clone_from(&c.m);
                        self.slots[j].md = c.md;
                    } else {
                        self.slots[j] = c;
                    }
                }
            }
            DropOne => {
                if self.slots.len() > 1 {
                    self.ctx.t(|| format!("drop m{i}"));
                    self.slots.swap_remove(i);
                }
            }
            Run => {
                self.muts += 1;
                let k0 = self.pick(i);
                let n = match self.src.weighted(&[4, 3, 1]) {
                    0 => 1 + self.src.below(12),
                    1 => 1 + self.src.below(60),
                    _ => 1 + self.src.below(300),
                } as i32;
                let rm = self.src.chance(140);
                let down = self.src.chance(128);
                if rm {
                    let s = &self.slots[i];
                    let ks: Vec<i32> = if down {
                        s.md.range(..=k0).rev().map(|x| *x.0).take(n as usize).collect()
                    } else {
                        s.md.range(k0..).map(|x| *x.0).take(n as usize).collect()
                    };
                    for k in ks {
                        self.remove(i, k);
                    }
                } else {
                    for j in 0..n {
                        let k = K::norm(if down { k0 - j } else { k0 + j });
                        self.insert(i, k);
                    }
                }
            }
        }
    }
}

pub fn by_type(src: &mut Src, ctx: &mut Ctx, w: &FWeights, sizes: &[(u32, u32, u32)]) {
    fn go<K: FKey, V: FVal>(src: &mut Src, ctx: &mut Ctx, w: &FWeights, sizes: &[(u32, u32, u32)], l: &'static str) {
        ctx.label(l);
        let mut d = FDrv::<K, V>::new(src, ctx, sizes);
        d.src.plan(&[(3, 6), (5, 25), (2, 60)]);
        d.run(w);
        let (m, n) = (d.muts, d.max_len);
        crate::props::label_size(ctx, n);
        ctx.nontrivial = m >= 2 && n >= 4;
    }
    match src.weighted(&[5, 5, 2, 2, 2, 2, 1, 1, 1, 1, 1, 2]) {
        0 => go::<Tk8, Tv>(src, ctx, w, sizes, "types: 8-byte key, tracked value"),
        1 => go::<Tk, Tv>(src, ctx, w, sizes, "types: 16-byte key, tracked value"),
        2 => go::<Tk, Zt>(src, ctx, w, sizes, "types: 16-byte key, zero-sized value"),
        3 => go::<Tk8, Zt>(src, ctx, w, sizes, "types: 8-byte key, zero-sized value"),
        4 => go::<Tk, Big>(src, ctx, w, sizes, "types: 16-byte key, large aligned value"),
        5 => go::<Tk8, Big>(src, ctx, w, sizes, "types: 8-byte key, large aligned value"),
        6 => go::<u8, Tv>(src, ctx, w, sizes, "types: u8 key, tracked value"),
        7 => go::<i64, [u64; 16]>(src, ctx, w, sizes, "types: i64 key, array value"),
        8 => go::<Box<i32>, String>(src, ctx, w, sizes, "types: boxed key, String value"),
        9 => go::<[i32; 5], u8>(src, ctx, w, sizes, "types: array key, u8 value"),
        10 => go::<Zk, Tv>(src, ctx, w, sizes, "types: zero-sized key"),
        _ => go::<String, String>(src, ctx, w, sizes, "types: String key and value"),
    }
}

/// tracked types only, for properties which are about those
pub fn tracked(src: &mut Src, ctx: &mut Ctx, w: &FWeights, sizes: &[(u32, u32, u32)], live: bool) {
    fn go<K: FKey, V: FVal>(src: &mut Src, ctx: &mut Ctx, w: &FWeights, sizes: &[(u32, u32, u32)], live: bool) {
        let mut d = FDrv::<K, V>::new(src, ctx, sizes);
        d.live = live;
        d.src.plan(&[(3, 6), (5, 25), (2, 60)]);
        d.run(w);
        let (m, n) = (d.muts, d.max_len);
        crate::props::label_size(ctx, n);
        ctx.nontrivial = m >= 2 && n >= 4;
    }
    match src.weighted(&[5, 5, 5, 1, 1, 1, 1]) {
        0 => go::<Tk8, Tv>(src, ctx, w, sizes, live),
        1 => go::<Tk, Tv>(src, ctx, w, sizes, live),
        3 => go::<i64, Tv>(src, ctx, w, sizes, live),
        4 => go::<String, Tv>(src, ctx, w, sizes, live),
        5 => go::<Tk8, [u64; 16]>(src, ctx, w, sizes, live),
        6 => go::<Tk, u8>(src, ctx, w, sizes, live),
        _ => go::<Tk, Big>(src, ctx, w, sizes, live),
    }
}
