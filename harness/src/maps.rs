//! Model-based driver for the map types (AvlMap and BTreeMap<_, _, N>).

use crate::engine::{Ctx, Rng, Src};
use crate::iters::{adapters, drive, loose, ordered, Plan};
use crate::track::{check_errs, on_call, Qk, Tk, Tv};
use crate::{ensure, ensure_eq};
use lazy_clone_collections::{AvlMap, Entry, Map};
use std::collections::BTreeMap as Std;
use std::fmt::Debug;
use std::iter::FusedIterator;
use std::ops::Bound;

pub type BMap<const N: usize> = lazy_clone_collections::btree::BTreeMap<Tk, Tv, N>;
pub type AMap = AvlMap<Tk, Tv>;

/// key -> value; every value written is unique within a case
pub type Mdl = Std<i32, u32>;

#[derive(Clone, Copy)]
pub enum Combo {
    Union,
    Inter,
    Diff,
    Sym,
}

pub trait MapLike:
    Sized
    + Clone
    + Default
    + Eq
    + Ord
    + Debug
    + FromIterator<(Tk, Tv)>
    + std::iter::Extend<(Tk, Tv)>
    + IntoIterator<
        Item = (Tk, Tv),
        IntoIter: DoubleEndedIterator + ExactSizeIterator + FusedIterator,
    > + Map<Key = Tk, Value = Tv>
    + 'static
{
    const NAME: &'static str;
    const AVL: bool;
    const N: usize;

    fn insert(&mut self, k: Tk, v: Tv) -> Option<Tv>;
    fn remove(&mut self, k: &Qk) -> Option<Tv>;
    fn remove_tk(&mut self, k: &Tk) -> Option<Tv>;
    fn get(&self, k: &Qk) -> Option<&Tv>;
    fn get_key_value(&self, k: &Qk) -> Option<(&Tk, &Tv)>;
    fn get_mut(&mut self, k: &Qk) -> Option<&mut Tv>;
    fn contains_key(&self, k: &Qk) -> bool;
    fn first_key_value(&self) -> Option<(&Tk, &Tv)>;
    fn last_key_value(&self) -> Option<(&Tk, &Tv)>;
    fn pop_first(&mut self) -> Option<(Tk, Tv)>;
    fn pop_last(&mut self) -> Option<(Tk, Tv)>;
    fn append(&mut self, o: &mut Self);
    fn split_off(&mut self, k: &Qk) -> Self;
    fn retain<F: FnMut(&Tk, &mut Tv) -> bool>(&mut self, f: F);
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn entry(&mut self, k: Tk) -> Entry<'_, Self>;
    fn first_entry(&mut self) -> Option<Entry<'_, Self>>;
    fn last_entry(&mut self) -> Option<Entry<'_, Self>>;
    fn iter(
        &self,
    ) -> impl DoubleEndedIterator<Item = (&Tk, &Tv)> + ExactSizeIterator + FusedIterator;
    fn iter_mut(
        &mut self,
    ) -> impl DoubleEndedIterator<Item = (&Tk, &mut Tv)> + ExactSizeIterator + FusedIterator;
    fn iter_ref(
        &self,
    ) -> impl DoubleEndedIterator<Item = (&Tk, &Tv)> + ExactSizeIterator + FusedIterator;
    fn iter_ref_mut(
        &mut self,
    ) -> impl DoubleEndedIterator<Item = (&Tk, &mut Tv)> + ExactSizeIterator + FusedIterator;
    fn keys(&self) -> impl DoubleEndedIterator<Item = &Tk> + ExactSizeIterator + FusedIterator;
    fn values(&self) -> impl DoubleEndedIterator<Item = &Tv> + ExactSizeIterator + FusedIterator;
    fn values_mut(
        &mut self,
    ) -> impl DoubleEndedIterator<Item = &mut Tv> + ExactSizeIterator + FusedIterator;
    fn into_keys(self) -> impl DoubleEndedIterator<Item = Tk> + ExactSizeIterator + FusedIterator;
    fn into_values(self)
        -> impl DoubleEndedIterator<Item = Tv> + ExactSizeIterator + FusedIterator;
    fn range(
        &self,
        b: (Bound<Qk>, Bound<Qk>),
    ) -> impl DoubleEndedIterator<Item = (&Tk, &Tv)> + FusedIterator;
    fn range_mut(
        &mut self,
        b: (Bound<Qk>, Bound<Qk>),
    ) -> impl DoubleEndedIterator<Item = (&Tk, &mut Tv)> + FusedIterator;
    fn from_array<const M: usize>(a: [(Tk, Tv); M]) -> Self;

    // AvlMap only
    fn combo(_c: &Combo, _l: Self, _r: Self) -> Option<Self> {
        None
    }
    fn join(_l: Self, _k: Tk, _v: Tv, _r: Self) -> Option<Self> {
        None
    }
    fn remove_entry(&mut self, k: &Qk) -> Option<(Tk, Tv)> {
        let k2 = self.get_key_value(k)?.0.clone();
        let v = self.remove(k)?;
        Some((k2, v))
    }
    fn index(&self, k: &Qk) -> &Tv {
        self.get(k).unwrap()
    }
    fn for_each<F: FnMut((&Tk, &Tv))>(&self, f: F) {
        self.iter().for_each(f)
    }
    fn for_each_mut<F: FnMut((&Tk, &mut Tv))>(&mut self, f: F) {
        self.iter_mut().for_each(f)
    }
    fn hash_code(&self) -> Option<Vec<u8>> {
        None
    }
    fn extend_refs(&mut self, v: &[(Tk, Tv)]) {
        self.extend(v.iter().map(|(k, v)| (k.clone(), v.clone())))
    }
    fn into_vec(self) -> Vec<(Tk, Tv)> {
        self.into_iter().collect()
    }
    fn debug_string(md: &Mdl) -> String;
}

macro_rules! common {
    () => {
        fn insert(&mut self, k: Tk, v: Tv) -> Option<Tv> {
            self.insert(k, v)
        }
        fn remove(&mut self, k: &Qk) -> Option<Tv> {
            self.remove(k)
        }
        fn remove_tk(&mut self, k: &Tk) -> Option<Tv> {
            self.remove(k)
        }
        fn get(&self, k: &Qk) -> Option<&Tv> {
            self.get(k)
        }
        fn get_key_value(&self, k: &Qk) -> Option<(&Tk, &Tv)> {
            self.get_key_value(k)
        }
        fn get_mut(&mut self, k: &Qk) -> Option<&mut Tv> {
            self.get_mut(k)
        }
        fn contains_key(&self, k: &Qk) -> bool {
            self.contains_key(k)
        }
        fn first_key_value(&self) -> Option<(&Tk, &Tv)> {
            self.first_key_value()
        }
        fn last_key_value(&self) -> Option<(&Tk, &Tv)> {
            self.last_key_value()
        }
        fn pop_first(&mut self) -> Option<(Tk, Tv)> {
            self.pop_first()
        }
        fn pop_last(&mut self) -> Option<(Tk, Tv)> {
            self.pop_last()
        }
        fn append(&mut self, o: &mut Self) {
            self.append(o)
        }
        fn split_off(&mut self, k: &Qk) -> Self {
            self.split_off(k)
        }
        fn retain<F: FnMut(&Tk, &mut Tv) -> bool>(&mut self, f: F) {
            self.retain(f)
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn entry(&mut self, k: Tk) -> Entry<'_, Self> {
            self.entry(k)
        }
        fn first_entry(&mut self) -> Option<Entry<'_, Self>> {
            self.first_entry()
        }
        fn last_entry(&mut self) -> Option<Entry<'_, Self>> {
            self.last_entry()
        }
        fn iter(
            &self,
        ) -> impl DoubleEndedIterator<Item = (&Tk, &Tv)> + ExactSizeIterator + FusedIterator
        {
            self.iter()
        }
        fn iter_mut(
            &mut self,
        ) -> impl DoubleEndedIterator<Item = (&Tk, &mut Tv)> + ExactSizeIterator + FusedIterator
        {
            self.iter_mut()
        }
        fn iter_ref(
            &self,
        ) -> impl DoubleEndedIterator<Item = (&Tk, &Tv)> + ExactSizeIterator + FusedIterator
        {
            (&*self).into_iter()
        }
        fn iter_ref_mut(
            &mut self,
        ) -> impl DoubleEndedIterator<Item = (&Tk, &mut Tv)> + ExactSizeIterator + FusedIterator
        {
            (&mut *self).into_iter()
        }
        fn keys(
            &self,
        ) -> impl DoubleEndedIterator<Item = &Tk> + ExactSizeIterator + FusedIterator {
            self.keys()
        }
        fn values(
            &self,
        ) -> impl DoubleEndedIterator<Item = &Tv> + ExactSizeIterator + FusedIterator {
            self.values()
        }
        fn values_mut(
            &mut self,
        ) -> impl DoubleEndedIterator<Item = &mut Tv> + ExactSizeIterator + FusedIterator {
            self.values_mut()
        }
        fn into_keys(
            self,
        ) -> impl DoubleEndedIterator<Item = Tk> + ExactSizeIterator + FusedIterator {
            self.into_keys()
        }
        fn into_values(
            self,
        ) -> impl DoubleEndedIterator<Item = Tv> + ExactSizeIterator + FusedIterator {
            self.into_values()
        }
        fn range(
            &self,
            b: (Bound<Qk>, Bound<Qk>),
        ) -> impl DoubleEndedIterator<Item = (&Tk, &Tv)> + FusedIterator {
            self.range::<Qk, _>(b)
        }
        fn range_mut(
            &mut self,
            b: (Bound<Qk>, Bound<Qk>),
        ) -> impl DoubleEndedIterator<Item = (&Tk, &mut Tv)> + FusedIterator {
            self.range_mut::<Qk, _>(b)
        }
        fn from_array<const M: usize>(a: [(Tk, Tv); M]) -> Self {
            Self::from(a)
        }
    };
}

/// hasher that records what it is fed
#[derive(Default)]
pub struct RecHasher(pub Vec<u8>);
impl std::hash::Hasher for RecHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

impl MapLike for AMap {
    const NAME: &'static str = "AvlMap";
    const AVL: bool = true;
    const N: usize = 1;
    common!();

    fn combo(c: &Combo, l: Self, r: Self) -> Option<Self> {
        Some(match c {
            Combo::Union => AvlMap::new_union(l, r),
            Combo::Inter => AvlMap::new_intersect(l, r),
            Combo::Diff => AvlMap::new_diff(l, r),
            Combo::Sym => AvlMap::new_sym_diff(l, r),
        })
    }
    fn join(l: Self, k: Tk, v: Tv, r: Self) -> Option<Self> {
        Some(AvlMap::new_join(l, k, v, r))
    }
    fn remove_entry(&mut self, k: &Qk) -> Option<(Tk, Tv)> {
        self.remove_entry(k)
    }
    fn index(&self, k: &Qk) -> &Tv {
        &self[k]
    }
    fn for_each<F: FnMut((&Tk, &Tv))>(&self, f: F) {
        self.for_each(f)
    }
    fn for_each_mut<F: FnMut((&Tk, &mut Tv))>(&mut self, f: F) {
        self.for_each_mut(f)
    }
    fn hash_code(&self) -> Option<Vec<u8>> {
        use std::hash::Hash;
        let mut h = RecHasher::default();
        self.hash(&mut h);
        Some(h.0)
    }
    fn extend_refs(&mut self, v: &[(Tk, Tv)]) {
        self.extend(v.iter().map(|(k, v)| (k, v)))
    }
    fn debug_string(md: &Mdl) -> String {
        format!("AvlMap({md:?})")
    }
}

impl<const N: usize> MapLike for BMap<N> {
    const NAME: &'static str = "BTreeMap";
    const AVL: bool = false;
    const N: usize = N;
    common!();
    fn into_vec(self) -> Vec<(Tk, Tv)> {
        Vec::from(self)
    }
    fn debug_string(md: &Mdl) -> String {
        format!("{md:?}")
    }
}

/// where keys come from
#[derive(Clone, Copy, Debug)]
pub struct Keys {
    pub base: i64,
    pub span: u32,
}

impl Keys {
    pub fn draw(src: &mut Src, span: u32) -> Keys {
        let base = match src.weighted(&[6, 1, 1, 1]) {
            0 => 0,
            1 => i32::MIN as i64,
            2 => i32::MAX as i64 - span as i64,
            _ => -(span as i64) / 2,
        };
        Keys { base, span }
    }
    pub fn at(&self, i: i64) -> i32 {
        (self.base + i).clamp(i32::MIN as i64, i32::MAX as i64) as i32
    }
    pub fn any(&self, src: &mut Src) -> i32 {
        let i = src.below(self.span) as i64;
        self.at(i)
    }
    /// a key biased towards those stored, their neighbours and the extremes
    pub fn pick<V>(&self, src: &mut Src, md: &Std<i32, V>) -> i32 {
        match src.weighted(&[6, 6, 3, 1]) {
            0 => self.any(src),
            1 => nth_key(src, md).unwrap_or(self.at(0)),
            2 => {
                let k = nth_key(src, md).unwrap_or(self.at(0));
                if src.chance(128) {
                    k.saturating_add(1)
                } else {
                    k.saturating_sub(1)
                }
            }
            _ => match src.below(6) {
                0 => md.keys().next().copied().unwrap_or(0),
                1 => md.keys().next_back().copied().unwrap_or(0),
                2 => md.keys().next().copied().unwrap_or(0).saturating_sub(1),
                3 => md.keys().next_back().copied().unwrap_or(0).saturating_add(1),
                4 => i32::MIN,
                _ => i32::MAX,
            },
        }
    }
}

pub fn nth_key<V>(src: &mut Src, md: &Std<i32, V>) -> Option<i32> {
    if md.is_empty() {
        return None;
    }
    let r = src.usize(md.len().min(65536));
    if r < md.len() / 2 {
        md.keys().nth(r).copied()
    } else {
        md.keys().nth_back(md.len() - 1 - r).copied()
    }
}

/// size of the initial contents, by class
pub fn draw_size(src: &mut Src, classes: &[(u32, u32, u32)]) -> u32 {
    // three levels of fixed::BTreeMap need over 70 entries
    let classes = if crate::engine::mini() { &[(3, 0, 12), (4, 13, 40), (2, 41, 110)] } else { classes };
    let w: Vec<u32> = classes.iter().map(|c| c.0).collect();
    let i = src.weighted(&w);
    let c = classes[i];
    if i + 1 == classes.len() && c.2 > 1000 && src.byte() == 1 {
        // more than 16 bits can count
        return src.range(65_500, 72_000);
    }
    src.range(c.1, c.2)
}

pub const SIZES: &[(u32, u32, u32)] =
    &[(3, 0, 12), (5, 13, 80), (4, 81, 400), (1, 401, 1500)];
pub const SMALL: &[(u32, u32, u32)] = &[(4, 0, 12), (4, 13, 60), (2, 61, 250)];
pub const BIG: &[(u32, u32, u32)] =
    &[(1, 0, 60), (3, 61, 400), (4, 401, 2000), (2, 2001, 6000)];

/// a sequence of distinct indices 0..n in some order
pub fn order(src: &mut Src, n: u32) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n).collect();
    match src.weighted(&[4, 3, 5, 2, 2]) {
        0 => (),
        1 => v.reverse(),
        2 => shuffle(&mut v, src.byte() as u64),
        3 => {
            // outside in
            let mut w = Vec::with_capacity(v.len());
            let (mut a, mut b) = (0usize, v.len());
            while a < b {
                w.push(v[a]);
                a += 1;
                if a < b {
                    b -= 1;
                    w.push(v[b]);
                }
            }
            v = w;
        }
        _ => {
            // shuffled ascending blocks
            let blk = src.range(2, 40) as usize;
            let mut bs: Vec<Vec<u32>> = v.chunks(blk).map(|c| c.to_vec()).collect();
            shuffle(&mut bs, src.byte() as u64);
            v = bs.concat();
        }
    }
    v
}
pub fn shuffle<T>(v: &mut [T], seed: u64) {
    let mut r = Rng::new(seed.wrapping_mul(0xABCD_1234_5));
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

pub struct Slot<M> {
    pub m: M,
    pub md: Mdl,
}

pub struct Drv<'a, M: MapLike> {
    pub src: &'a mut Src,
    pub ctx: &'a mut Ctx,
    pub slots: Vec<Slot<M>>,
    pub keys: Keys,
    pub next: u32,
    pub check: bool, // call the structural self-check
    pub max_slots: usize,
    pub step: usize,
    pub max_len: usize,
    pub shared_ops: u32,
    pub muts: u32,
    pub last_op: Option<Op>,
    pub live: bool, // compare the number of live elements with what is reachable
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Op {
    Insert,
    Remove,
    Lookup,
    Ends,
    Pops,
    Append,
    SplitOff,
    Retain,
    Clear,
    Entry,
    Extend,
    Rebuild,
    CloneTo,
    DropOne,
    Iter,
    IterMut,
    Range,
    RangeMut,
    IntoIter,
    Combine,
    EndEntry,
    Compare,
    Run,
    GetMut,
    RemoveEntry,
    IntoVec,
}
use Op::*;
pub const OPS: [Op; 26] = [
    Insert, Remove, Lookup, Ends, Pops, Append, SplitOff, Retain, Clear, Entry, Extend,
    Rebuild, CloneTo, DropOne, Iter, IterMut, Range, RangeMut, IntoIter, Combine, EndEntry,
    Compare, Run, GetMut, RemoveEntry, IntoVec,
];
pub type Weights = [u32; 26];

pub fn weights(l: &[(Op, u32)]) -> Weights {
    let mut w = [0; 26];
    for &(o, x) in l {
        w[o as usize] = x;
    }
    w
}

impl<'a, M: MapLike> Drv<'a, M> {
    pub fn new(src: &'a mut Src, ctx: &'a mut Ctx, sizes: &[(u32, u32, u32)]) -> Self {
        let n = draw_size(src, sizes);
        let dens = [1, 2, 3, 8][src.weighted(&[3, 4, 2, 1])];
        let span = (n * dens).max(8) + src.below(8);
        let keys = Keys::draw(src, span);
        let mut d = Drv {
            src,
            ctx,
            slots: vec![],
            keys,
            next: 1,
            check: false,
            max_slots: 4,
            step: 0,
            max_len: 0,
            shared_ops: 0,
            muts: 0,
            last_op: None,
            live: false,
        };
        let s = d.build(n, dens);
        d.slots.push(s);
        d
    }

    /// no slots yet
    pub fn empty(src: &'a mut Src, ctx: &'a mut Ctx, span: u32) -> Self {
        Drv {
            src,
            ctx,
            slots: vec![],
            keys: Keys { base: 0, span },
            next: 1,
            check: false,
            max_slots: 4,
            step: 0,
            max_len: 0,
            shared_ops: 0,
            muts: 0,
            last_op: None,
            live: false,
        }
    }

    pub fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    pub fn tv(&mut self) -> (Tv, u32) {
        let v = self.fresh();
        (Tv::new(v), v)
    }

    /// a map built in one of several ways, then thinned out
    pub fn build(&mut self, n: u32, dens: u32) -> Slot<M> {
        let ord = order(self.src, n);
        let off = self.src.below(dens.max(1)) as i64;
        let ks: Vec<i32> = ord.iter().map(|&i| self.keys.at(i as i64 * dens as i64 + off)).collect();
        let how = self.src.weighted(&[6, 3, 2, 2, 1]);
        let mut md = Mdl::new();
        let mut pairs = Vec::with_capacity(ks.len());
        for &k in &ks {
            let v = self.fresh();
            md.insert(k, v);
            pairs.push((k, v));
        }
        let mk = |p: &[(i32, u32)]| -> Vec<(Tk, Tv)> {
            p.iter().map(|&(k, v)| (Tk::new(k, v), Tv::new(v))).collect()
        };
        let mut m: M = match how {
            0 => {
                let mut m = M::default();
                for (k, v) in mk(&pairs) {
                    m.insert(k, v);
                }
                m
            }
            1 => loose(mk(&pairs).into_iter(), pairs.len() as u32).collect(),
            2 => {
                let mut m = M::default();
                for c in pairs.chunks(17) {
                    m.extend(mk(c));
                }
                m
            }
            3 => {
                let cut = if pairs.is_empty() { 0 } else { pairs.len() * self.src.byte() as usize / 256 };
                let mut a: M = mk(&pairs[..cut]).into_iter().collect();
                let mut b: M = mk(&pairs[cut..]).into_iter().collect();
                a.append(&mut b);
                a
            }
            _ => {
                let mut m = M::new_();
                for c in pairs.chunks(4) {
                    let mut x = match mk(c).try_into() {
                        Ok(a) => M::from_array::<4>(a),
                        Err(v) => {
                            let mut m = M::default();
                            m.extend(v);
                            m
                        }
                    };
                    m.append(&mut x);
                }
                m
            }
        };
        let thin = self.src.weighted(&[6, 2, 2, 2, 2, 1, 1]);
        let seed = if thin > 0 { self.src.byte() as u64 } else { 0 };
        let mut rng = Rng::new(seed + 1);
        let keys: Vec<i32> = md.keys().copied().collect();
        let total = keys.len();
        let (a, b) = (seed as usize * total / 256, (seed as usize * 3 % 256) * total / 256);
        let mut gone: Vec<i32> = keys
            .iter()
            .enumerate()
            .filter(|(i, _)| match thin {
                1 => i % 2 == 1,
                2 => rng.below(4) != 0,
                3 => *i >= a.min(b) && *i < a.max(b),
                4 => rng.below(2) == 0,
                5 => *i < a,
                6 => *i >= a,
                _ => false,
            })
            .map(|x| *x.1)
            .collect();
        match seed % 3 {
            0 => (),
            1 => gone.reverse(),
            _ => shuffle(&mut gone, seed),
        }
        for k in gone {
            let r = m.remove(&Qk(k)).map(|v| v.v());
            let e = md.remove(&k);
            ensure_eq!(r, e, "remove({k}) while thinning");
        }
        self.ctx.t(|| {
            format!(
                "build {}<N={}> of {n} keys ({}..), method {how}, thinning {thin} -> {} entries",
                M::NAME,
                M::N,
                ks.first().copied().unwrap_or(0),
                md.len()
            )
        });
        Slot { m, md }
    }

    /// full comparison of slot i with its model
    pub fn verify(&mut self, i: usize, when: &str) {
        let s = &self.slots[i];
        verify_map(&s.m, &s.md, self.check, &|| format!("map {i} {when}"));
    }

    pub fn verify_all(&mut self, when: &str) {
        for i in 0..self.slots.len() {
            self.max_len = self.max_len.max(self.slots[i].md.len());
            self.verify(i, when);
        }
        if self.live {
            let total: usize = self.slots.iter().map(|s| 2 * s.md.len()).sum();
            live_bound(total, self.slots.len(), when);
        }
    }

    pub fn run(&mut self, w: &Weights) {
        self.verify_all("after building");
        while self.src.next_op() {
            let op = OPS[self.src.weighted(w)];
            let i = self.src.usize(self.slots.len());
            self.step += 1;
            if self.slots.len() > 1 {
                self.shared_ops += 1;
            }
            crate::track::reg(|r| r.cmp_limit = r.cmps + 100_000_000);
            self.apply(op, i);
            check_errs("operation");
            let step = self.step;
            // of the largest ones, not after each step
            let all: usize = self.slots.iter().map(|s| s.md.len()).sum();
            if all < 60_000 || step % 4 == 0 {
                self.verify_all(&format!("after step {step} ({op:?} on map {i})"));
            }
            if all > 60_000 && step >= 14 {
                break;
            }
        }
        self.verify_all("at the end");
    }

    fn pick(&mut self, i: usize) -> i32 {
        self.keys.pick(self.src, &self.slots[i].md)
    }

    pub fn other(&mut self, i: usize) -> Option<usize> {
        if self.slots.len() < 2 {
            return None;
        }
        let j = self.src.usize(self.slots.len() - 1);
        Some(if j >= i { j + 1 } else { j })
    }

    pub fn push_slot(&mut self, s: Slot<M>) {
        if self.slots.len() < self.max_slots {
            self.slots.push(s);
        } else {
            let j = self.src.usize(self.slots.len());
            self.slots[j] = s;
        }
    }

    /// a map to combine with: another slot (by clone or taken), a clone of the
    /// same slot, or a freshly built one
    pub fn operand(&mut self, i: usize) -> Slot<M> {
        match self.src.weighted(&[3, 3, 2, 1]) {
            0 => {
                // small or large fresh map over the same key space
                let n = draw_size(self.src, &[(4, 0, 6), (3, 7, 40), (2, 41, 300)]);
                let dens = (self.keys.span / n.max(1)).clamp(1, 64);
                let dens = 1 + self.src.below(dens);
                self.build(n, dens)
            }
            1 => match self.other(i) {
                Some(j) => {
                    if self.src.chance(64) {
                        std::mem::replace(
                            &mut self.slots[j],
                            Slot { m: M::default(), md: Mdl::new() },
                        )
                    } else {
                        Slot { m: self.slots[j].m.clone(), md: self.slots[j].md.clone() }
                    }
                }
                None => Slot { m: self.slots[i].m.clone(), md: self.slots[i].md.clone() },
            },
            2 => {
                // a diverged clone of the same slot
                let mut s = Slot { m: self.slots[i].m.clone(), md: self.slots[i].md.clone() };
                for _ in 0..self.src.below(6) {
                    let k = self.keys.pick(self.src, &s.md);
                    if self.src.chance(128) {
                        let v = self.fresh();
                        s.m.insert(Tk::new(k, v), Tv::new(v));
                        s.md.insert(k, v);
                    } else {
                        s.m.remove(&Qk(k));
                        s.md.remove(&k);
                    }
                }
                s
            }
            _ => {
                // a contiguous piece of the same map
                let mut s = Slot { m: self.slots[i].m.clone(), md: self.slots[i].md.clone() };
                let k = self.keys.pick(self.src, &s.md);
                let hi = s.m.split_off(&Qk(k));
                let hmd = s.md.split_off(&k);
                if self.src.chance(128) {
                    Slot { m: hi, md: hmd }
                } else {
                    s
                }
            }
        }
    }

    pub fn draw_bounds(&mut self, i: usize) -> (Bound<i32>, Bound<i32>) {
        draw_bounds(self.src, self.keys, &self.slots[i].md)
    }

    pub fn apply(&mut self, op: Op, i: usize) {
        match op {
            Insert => {
                let k = self.pick(i);
                let (tv, v) = self.tv();
                self.muts += 1;
                let s = &mut self.slots[i];
                self.ctx.t(|| format!("m{i}.insert({k}, {v})"));
                let r = s.m.insert(Tk::new(k, v), tv).map(|x| x.v());
                ensure_eq!(r, s.md.insert(k, v), "insert({k})");
            }
            Remove => {
                let k = self.pick(i);
                self.muts += 1;
                let by_tk = self.src.chance(64);
                let s = &mut self.slots[i];
                self.ctx.t(|| format!("m{i}.remove({k})"));
                let r = if by_tk {
                    s.m.remove_tk(&Tk::new(k, 0)).map(|x| x.v())
                } else {
                    s.m.remove(&Qk(k)).map(|x| x.v())
                };
                ensure_eq!(r, s.md.remove(&k), "remove({k})");
            }
            RemoveEntry => {
                let k = self.pick(i);
                self.muts += 1;
                let s = &mut self.slots[i];
                self.ctx.t(|| format!("m{i}.remove_entry({k})"));
                let r = s.m.remove_entry(&Qk(k)).map(|(a, b)| (a.k(), b.v()));
                ensure_eq!(r, s.md.remove_entry(&k), "remove_entry({k})");
            }
            Lookup => {
                for _ in 0..1 + self.src.below(8) {
                    let k = self.pick(i);
                    let s = &mut self.slots[i];
                    let e = s.md.get(&k).copied();
                    self.ctx.t(|| format!("m{i}.get({k})"));
                    ensure_eq!(s.m.get(&Qk(k)).map(|v| v.v()), e, "get({k})");
                    ensure_eq!(s.m.contains_key(&Qk(k)), e.is_some(), "contains_key({k})");
                    ensure_eq!(
                        s.m.get_key_value(&Qk(k)).map(|(a, b)| (a.k(), b.v())),
                        e.map(|v| (k, v)),
                        "get_key_value({k})"
                    );
                    if e.is_some() {
                        ensure_eq!(Some(s.m.index(&Qk(k)).v()), e, "index [{k}]");
                    }
                    if self.src.chance(32) {
                        ensure_eq!(s.m.get_mut(&Qk(k)).map(|v| v.v()), e, "get_mut({k})");
                    }
                }
            }
            GetMut => {
                for _ in 0..1 + self.src.below(5) {
                    let k = self.pick(i);
                    let v = self.fresh();
                    self.muts += 1;
                    let s = &mut self.slots[i];
                    self.ctx.t(|| format!("m{i}.get_mut({k}) = {v}"));
                    match (s.m.get_mut(&Qk(k)), s.md.get_mut(&k)) {
                        (Some(a), Some(b)) => {
                            ensure_eq!(a.v(), *b, "get_mut({k}) before writing");
                            a.set(v);
                            *b = v;
                        }
                        (None, None) => (),
                        (a, b) => crate::fail!("get_mut({k}): got {a:?}, expected {b:?}"),
                    }
                }
            }
            Ends => {
                let s = &self.slots[i];
                self.ctx.t(|| format!("m{i} first/last"));
                let f = |x: Option<(&Tk, &Tv)>| x.map(|(k, v)| (k.k(), v.v()));
                ensure_eq!(
                    f(s.m.first_key_value()),
                    s.md.first_key_value().map(|(k, v)| (*k, *v)),
                    "first_key_value"
                );
                ensure_eq!(
                    f(s.m.last_key_value()),
                    s.md.last_key_value().map(|(k, v)| (*k, *v)),
                    "last_key_value"
                );
            }
            Pops => {
                let n = match self.src.weighted(&[4, 3, 1]) {
                    0 => 1,
                    1 => 1 + self.src.below(12),
                    _ => self.src.below(200),
                };
                let mode = self.src.below(3);
                self.muts += 1;
                self.ctx.t(|| format!("m{i} pop x{n} mode {mode}"));
                let s = &mut self.slots[i];
                for j in 0..n {
                    let first = mode == 0 || (mode == 2 && j % 2 == 0);
                    if first {
                        let r = s.m.pop_first().map(|(k, v)| (k.k(), v.v()));
                        ensure_eq!(r, s.md.pop_first(), "pop_first");
                    } else {
                        let r = s.m.pop_last().map(|(k, v)| (k.k(), v.v()));
                        ensure_eq!(r, s.md.pop_last(), "pop_last");
                    }
                    ensure_eq!(s.m.len(), s.md.len(), "len after pop");
                }
            }
            Append => {
                let mut o = self.operand(i);
                self.muts += 1;
                let rev = self.src.chance(48);
                self.ctx.t(|| format!("m{i}.append({:?}) rev={rev}", brief(&o.md)));
                if rev {
                    std::mem::swap(&mut self.slots[i], &mut o);
                }
                let s = &mut self.slots[i];
                s.m.append(&mut o.m);
                s.md.append(&mut o.md);
                ensure!(o.m.is_empty() && o.m.len() == 0, "append leaves its argument empty");
                ensure!(o.m.iter().next().is_none(), "append leaves its argument empty");
                verify_map(&o.m, &o.md, false, &|| "argument of append".to_string());
                if self.src.chance(64) {
                    // the emptied argument stays usable
                    let v = self.fresh();
                    o.m.insert(Tk::new(1, v), Tv::new(v));
                    o.md.insert(1, v);
                    verify_map(&o.m, &o.md, self.check, &|| "reused argument of append".into());
                }
            }
            SplitOff => {
                let k = self.pick(i);
                self.muts += 1;
                let s = &mut self.slots[i];
                self.ctx.t(|| format!("m{i}.split_off({k})"));
                let m2 = s.m.split_off(&Qk(k));
                let md2 = s.md.split_off(&k);
                verify_map(&s.m, &s.md, self.check, &|| format!("low part of split_off({k})"));
                verify_map(&m2, &md2, self.check, &|| format!("high part of split_off({k})"));
                let mut s2 = Slot { m: m2, md: md2 };
                match self.src.below(4) {
                    0 => (),
                    1 => std::mem::swap(&mut self.slots[i], &mut s2),
                    _ => self.push_slot(s2),
                }
            }
            Retain => self.op_retain(i),
            Clear => {
                self.ctx.t(|| format!("m{i}.clear()"));
                let s = &mut self.slots[i];
                s.m.clear();
                s.md.clear();
            }
            Entry => self.op_entry(i),
            EndEntry => self.op_end_entry(i),
            Extend => {
                let n = 1 + self.src.below(30);
                let seed = self.src.byte() as u64;
                let mut rng = Rng::new(seed * 31 + 7);
                let by_ref = self.src.chance(64);
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.keys.at(rng.below(self.keys.span as u64) as i64);
                    let x = self.fresh();
                    v.push((k, x));
                }
                self.muts += 1;
                self.ctx.t(|| format!("m{i}.extend({v:?})"));
                let s = &mut self.slots[i];
                s.md.extend(v.iter().copied());
                let tv: Vec<(Tk, Tv)> =
                    v.iter().map(|&(k, x)| (Tk::new(k, x), Tv::new(x))).collect();
                if by_ref {
                    s.m.extend_refs(&tv);
                } else {
                    let how = tv.len() as u32 ^ tv.first().map_or(0, |x| x.1.v());
                    s.m.extend(loose(tv.into_iter(), how).inspect(|_| on_call()));
                }
            }
            Rebuild => {
                // collect from own iterator (in forward or reverse order)
                let rev = self.src.chance(128);
                self.ctx.t(|| format!("m{i} = m{i}.into_iter().collect() rev={rev}"));
                let s = &mut self.slots[i];
                let m = std::mem::take(&mut s.m);
                let how = s.md.len() as u32;
                s.m = if rev { loose(m.into_iter().rev(), how).collect() } else { loose(m.into_iter(), how).collect() };
            }
            CloneTo => {
                self.ctx.t(|| format!("clone m{i}"));
                self.ctx.label("op: clone");
                let s = &self.slots[i];
                let c = Slot { m: s.m.clone(), md: s.md.clone() };
                if self.slots.len() < self.max_slots {
                    self.slots.push(c);
                } else {
                    // over an old slot, by assignment or clone_from
                    let j = self.src.usize(self.slots.len());
                    if j % 2 == 1 {
                        self.slots[j].m.clone_from(&c.m);
                        self.slots[j].md = c.md;
                    } else {
                        self.slots[j] = c;
                    }
                }
            }
            DropOne => {
                if self.slots.len() > 1 {
                    self.ctx.t(|| format!("drop m{i}"));
                    self.slots.swap_remove(i);
                }
            }
            Iter => self.op_iter(i),
            IterMut => self.op_iter_mut(i),
            Range => self.op_range(i),
            RangeMut => self.op_range_mut(i),
            IntoIter => self.op_into_iter(i),
            Combine => self.op_combine(i),
            Compare => self.op_compare(i),
            Run => self.op_run(i),
            IntoVec => {
                self.ctx.t(|| format!("Vec::from(m{i}.clone())"));
                let s = &mut self.slots[i];
                let m = if self.src.chance(64) {
                    let m = std::mem::take(&mut s.m);
                    let c = m.clone();
                    s.m = c;
                    m
                } else {
                    s.m.clone()
                };
                let v: Vec<(i32, u32)> =
                    m.into_vec().into_iter().map(|(k, v)| (k.k(), v.v())).collect();
                let e: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
                ensure!(v == e, "Vec::from(map): got {v:?}, expected {e:?}");
            }
        }
    }

    /// a run of inserts or removals over consecutive keys
    fn op_run(&mut self, i: usize) {
        let k0 = self.pick(i) as i64;
        let n = match self.src.weighted(&[4, 3, 1]) {
            0 => 1 + self.src.below(12),
            1 => 1 + self.src.below(60),
            _ => 1 + self.src.below(300),
        };
        let rm = self.src.chance(140);
        let down = self.src.chance(128);
        let stride = [1i64, 1, 2, 3][self.src.usize(4)];
        self.muts += 1;
        self.ctx.t(|| {
            format!("m{i} run of {n} {} from {k0} stride {stride} down={down}", if rm { "removals" } else { "inserts" })
        });
        if rm {
            // remove the n stored keys starting at k0
            let s = &mut self.slots[i];
            let k0 = k0 as i32;
            let ks: Vec<i32> = if down {
                s.md.range(..=k0).rev().map(|x| *x.0).step_by(stride as usize).take(n as usize).collect()
            } else {
                s.md.range(k0..).map(|x| *x.0).step_by(stride as usize).take(n as usize).collect()
            };
            for k in ks {
                let r = s.m.remove(&Qk(k)).map(|x| x.v());
                ensure_eq!(r, s.md.remove(&k), "remove({k})");
            }
        } else {
            for j in 0..n as i64 {
                let d = if down { -j } else { j } * stride;
                let k = (k0 + d).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
                let (tv, v) = self.tv();
                let s = &mut self.slots[i];
                let r = s.m.insert(Tk::new(k, v), tv).map(|x| x.v());
                ensure_eq!(r, s.md.insert(k, v), "insert({k})");
            }
        }
    }

    fn op_retain(&mut self, i: usize) {
        let style = self.src.below(7);
        let seed = self.src.byte() as u64;
        let write = self.src.chance(128);
        let pivot = self.pick(i);
        self.muts += 1;
        let base = self.next;
        let s = &mut self.slots[i];
        let keep = |n: usize, k: i32, len: usize| -> bool {
            match style {
                0 => crate::engine::mix(seed ^ (k as u32 as u64) << 8) & 1 == 1,
                1 => k < pivot,
                2 => k >= pivot,
                3 => true,
                4 => false,
                5 => n == seed as usize % len.max(1),
                _ => crate::engine::mix(seed ^ (k as u32 as u64) << 8) % 8 != 0,
            }
        };
        self.ctx.t(|| format!("m{i}.retain(style {style} seed {seed} pivot {pivot} write {write})"));
        let len = s.md.len();
        let mut seen: Vec<(i32, u32)> = Vec::with_capacity(len);
        s.m.retain(|k, v| {
            on_call();
            let n = seen.len();
            let key = k.k();
            seen.push((key, v.v()));
            if write {
                v.set(base + n as u32 + 1);
            }
            keep(n, key, len)
        });
        let exp: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
        ensure!(
            seen == exp,
            "retain visited {seen:?} instead of each entry once in ascending order {exp:?}"
        );
        let mut n = 0;
        s.md.retain(|k, v| {
            if write {
                *v = base + n as u32 + 1;
            }
            n += 1;
            keep(n - 1, *k, len)
        });
        self.next = base + len as u32 + 2;
    }

    pub fn op_entry(&mut self, i: usize) {
        let k = self.pick(i);
        let kind = self.src.below(7);
        let write = self.src.chance(128);
        let modify = self.src.below(3); // and_modify calls first
        let (tv, v) = self.tv();
        let w = self.fresh();
        let m0 = self.fresh();
        let m1 = self.fresh();
        self.muts += 1;
        let s = &mut self.slots[i];
        let was = s.md.get(&k).copied();
        self.ctx.label(if was.is_some() { "entry: occupied" } else { "entry: vacant" });
        self.ctx.t(|| format!("m{i}.entry({k}) and_modify x{modify}, kind {kind}, default {v}, write {write}"));
        let mut e = s.m.entry(Tk::new(k, v));
        ensure_eq!(e.key().k(), k, "entry({k}).key()");
        let mut mods = 0;
        let mut cur = was;
        for j in 0..modify {
            let nv = if j == 0 { m0 } else { m1 };
            let before = cur;
            e = e.and_modify(|x| {
                on_call();
                mods += 1;
                let b = before.unwrap_or(u32::MAX);
                ensure_eq!(x.v(), b, "entry({k}).and_modify: value handed to the closure");
                x.set(nv);
            });
            if cur.is_some() {
                cur = Some(nv);
            }
            ensure_eq!(e.key().k(), k, "entry({k}).key() after and_modify");
        }
        ensure_eq!(mods, if was.is_some() { modify } else { 0 }, "calls of and_modify's closure");
        let mut calls = 0;
        let (got, def): (Option<&mut Tv>, u32) = match kind {
            0 | 1 => (Some(e.or_insert(tv)), v),
            2 => (
                Some(e.or_insert_with(|| {
                    on_call();
                    calls += 1;
                    tv
                })),
                v,
            ),
            3 | 4 => (
                Some(e.or_insert_with_key(|x| {
                    on_call();
                    calls += 1;
                    ensure_eq!(x.k(), k, "key handed to or_insert_with_key's closure");
                    tv
                })),
                v,
            ),
            5 => (Some(e.or_default()), 0),
            _ => {
                drop(e);
                (None, 0)
            }
        };
        let inserted = kind != 6;
        if (2..=4).contains(&kind) {
            ensure_eq!(calls, was.is_none() as u32, "calls of the default closure");
        }
        if inserted {
            let exp = cur.unwrap_or(def);
            let r = got.unwrap();
            ensure_eq!(r.v(), exp, "value behind entry({k})'s reference");
            let mut fin = exp;
            if write {
                r.set(w);
                fin = w;
            }
            s.md.insert(k, fin);
        } else if let Some(c) = cur {
            s.md.insert(k, c);
        }
        ensure_eq!(s.m.len(), s.md.len(), "len after entry({k})");
        ensure_eq!(
            s.m.get(&Qk(k)).map(|x| x.v()),
            s.md.get(&k).copied(),
            "get({k}) after entry({k})"
        );
    }

    pub fn op_end_entry(&mut self, i: usize) {
        let last = self.src.chance(128);
        let kind = self.src.below(4);
        let (tv, _) = self.tv();
        let w = self.fresh();
        self.muts += 1;
        let s = &mut self.slots[i];
        self.ctx.t(|| format!("m{i}.{}_entry() kind {kind}", if last { "last" } else { "first" }));
        let exp = if last { s.md.last_key_value() } else { s.md.first_key_value() };
        let exp = exp.map(|(k, v)| (*k, *v));
        let e = if last { s.m.last_entry() } else { s.m.first_entry() };
        match (e, exp) {
            (None, None) => (),
            (Some(e), Some((k, v))) => {
                ensure_eq!(e.key().k(), k, "first/last entry's key");
                match kind {
                    0 => {
                        let mut n = 0;
                        let r = e
                            .and_modify(|x| {
                                n += 1;
                                x.set(w)
                            })
                            .or_insert(tv);
                        ensure_eq!(r.v(), w, "first/last entry after and_modify");
                        ensure_eq!(n, 1, "and_modify calls on first/last entry");
                        s.md.insert(k, w);
                    }
                    1 => {
                        let r = e.or_insert_with(|| crate::fail!("default closure called on an existing entry"));
                        ensure_eq!(r.v(), v, "first/last entry's value");
                        r.set(w);
                        s.md.insert(k, w);
                    }
                    2 => {
                        let r = e.or_default();
                        ensure_eq!(r.v(), v, "first/last entry's value");
                    }
                    _ => drop(e),
                }
            }
            (e, exp) => crate::fail!("first/last entry is_some = {}, expected {exp:?}", e.is_some()),
        }
    }

    pub fn op_iter(&mut self, i: usize) {
        let which = self.src.below(7);
        let s = &self.slots[i];
        let n = s.md.len();
        let plan = Plan::draw(self.src, n);
        let exp: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
        let ek: Vec<i32> = s.md.keys().copied().collect();
        let ev: Vec<u32> = s.md.values().copied().collect();
        let m = &s.m;
        let ctx = &mut *self.ctx;
        match which {
            0 | 1 => drive(m.iter(), &exp, plan, Some(len_of), "iter()", ctx, |(k, v), _| (k.k(), v.v())),
            2 => drive(m.iter_ref(), &exp, plan, Some(len_of), "(&map).into_iter()", ctx, |(k, v), _| (k.k(), v.v())),
            3 => drive(m.keys(), &ek, plan, Some(len_of), "keys()", ctx, |k, _| k.k()),
            4 => drive(m.values(), &ev, plan, Some(len_of), "values()", ctx, |v, _| v.v()),
            5 => {
                ctx.t(|| "  adapters over iter/keys/values".into());
                adapters(&mut || m.iter(), n, "iter()");
                adapters(&mut || m.keys(), n, "keys()");
                adapters(&mut || m.values(), n, "values()");
                ordered(&mut || m.keys(), n, "keys()");
                adapters(&mut || m.clone().into_iter(), n, "into_iter()");
                let mut c = m.clone();
                ensure_eq!(c.iter_mut().zip(0..n).len(), n, "iter_mut().zip().len()");
                ensure_eq!(c.values_mut().rev().len(), n, "values_mut().rev().len()");
                ensure_eq!(c.clone().into_keys().zip(0..n).len(), n, "into_keys().zip().len()");
                ensure_eq!(c.into_values().enumerate().rev().len(), n, "into_values() adapters");
            }
            _ => {
                let mut j = 0;
                m.for_each(|(k, v)| {
                    on_call();
                    ensure!(j < n, "for_each: too many calls");
                    ensure_eq!((k.k(), v.v()), exp[j], "for_each item {j}");
                    j += 1;
                });
                ensure_eq!(j, n, "for_each calls");
            }
        }
    }

    pub fn op_iter_mut(&mut self, i: usize) {
        let which = self.src.below(6);
        let writes = self.src.below(4); // 0: all, 1: every other, 2: random, 3: none
        let wseed = self.src.byte() as u64;
        let n = self.slots[i].md.len();
        let plan = Plan::draw(self.src, n);
        self.muts += 1;
        let base = self.next;
        self.next += n as u32 + 2;
        let s = &mut self.slots[i];
        let exp: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
        let ev: Vec<u32> = s.md.values().copied().collect();
        let wr = |j: usize| match writes {
            0 => true,
            1 => j % 2 == 0,
            2 => crate::engine::mix(wseed ^ (j as u64) << 9) & 1 == 1,
            _ => false,
        };
        let mut written: Vec<usize> = vec![];
        let ctx = &mut *self.ctx;
        let put = |v: &mut Tv, j: usize, written: &mut Vec<usize>| -> u32 {
            let old = v.v();
            if wr(j) {
                v.set(base + j as u32 + 1);
                written.push(j);
            }
            old
        };
        match which {
            0 | 1 => drive(s.m.iter_mut(), &exp, plan, Some(len_of), "iter_mut()", ctx, |(k, v), j| {
                (k.k(), put(v, j, &mut written))
            }),
            2 => drive(s.m.iter_ref_mut(), &exp, plan, Some(len_of), "(&mut map).into_iter()", ctx, |(k, v), j| {
                (k.k(), put(v, j, &mut written))
            }),
            3 => drive(s.m.values_mut(), &ev, plan, Some(len_of), "values_mut()", ctx, |v, j| {
                put(v, j, &mut written)
            }),
            4 => {
                ctx.t(|| format!("  for_each_mut writes {writes}"));
                let mut j = 0;
                s.m.for_each_mut(|(k, v)| {
                    on_call();
                    ensure!(j < n, "for_each_mut: too many calls");
                    let old = put(v, j, &mut written);
                    ensure_eq!((k.k(), old), exp[j], "for_each_mut item {j}");
                    j += 1;
                });
                ensure_eq!(j, n, "for_each_mut calls");
            }
            _ => {
                // hold all references at once: they must be distinct
                ctx.t(|| format!("  iter_mut collected, writes {writes}"));
                let mut refs: Vec<(&Tk, &mut Tv)> = s.m.iter_mut().collect();
                ensure_eq!(refs.len(), n, "collected iter_mut length");
                for (j, (k, v)) in refs.iter_mut().enumerate() {
                    let old = v.v();
                    ensure_eq!((k.k(), old), exp[j], "collected iter_mut item {j}");
                    put(v, j, &mut written);
                }
                for (j, (_, v)) in refs.iter().enumerate() {
                    let e = if written.contains(&j) && n < 64 {
                        base + j as u32 + 1
                    } else if n < 64 {
                        exp[j].1
                    } else {
                        v.v()
                    };
                    ensure_eq!(v.v(), e, "re-reading collected iter_mut item {j}");
                }
            }
        }
        for j in written {
            s.md.insert(exp[j].0, base + j as u32 + 1);
        }
    }

    pub fn op_into_iter(&mut self, i: usize) {
        let which = self.src.below(4);
        let take = self.src.chance(100); // consume the slot itself or a clone
        let n = self.slots[i].md.len();
        let plan = Plan::draw(self.src, n);
        let s = &mut self.slots[i];
        let exp: Vec<(i32, u32)> = s.md.iter().map(|(k, v)| (*k, *v)).collect();
        let m = if take {
            s.md.clear();
            std::mem::take(&mut s.m)
        } else {
            s.m.clone()
        };
        self.ctx.t(|| format!("m{i}: consume {} (kind {which})", if take { "the map" } else { "a clone" }));
        let ctx = &mut *self.ctx;
        match which {
            0 | 1 => drive(m.into_iter(), &exp, plan, Some(len_of), "into_iter()", ctx, |(k, v), _| (k.k(), v.v())),
            2 => {
                let ek: Vec<i32> = exp.iter().map(|x| x.0).collect();
                drive(m.into_keys(), &ek, plan, Some(len_of), "into_keys()", ctx, |k, _| k.k())
            }
            _ => {
                let ev: Vec<u32> = exp.iter().map(|x| x.1).collect();
                drive(m.into_values(), &ev, plan, Some(len_of), "into_values()", ctx, |v, _| v.v())
            }
        }
        if take && self.slots.len() == 1 {
            // keep something to work on
            let mut m = M::default();
            let mut md = Mdl::new();
            for (k, v) in exp.iter().take(400) {
                m.insert(Tk::new(*k, *v), Tv::new(*v));
                md.insert(*k, *v);
            }
            self.slots[0] = Slot { m, md };
        }
    }

    pub fn op_range(&mut self, i: usize) {
        let b = self.draw_bounds(i);
        let s = &self.slots[i];
        let ctx = &mut *self.ctx;
        ctx.t(|| format!("m{i}.range({b:?})"));
        let qb = (map_bd(b.0), map_bd(b.1));
        if invalid(b) {
            ctx.label("range: inverted or empty-exclusive bounds");
            let r = crate::quiet(|| {
                let mut it = s.m.range(qb);
                let a = it.next().is_some();
                let b = it.next_back().is_some();
                a || b
            });
            ensure!(r != Some(true), "range({b:?}) yields an entry");
            return;
        }
        let exp: Vec<(i32, u32)> = s.md.range(b).map(|(k, v)| (*k, *v)).collect();
        label_range(ctx, b, exp.len(), &s.md);
        let plan = Plan::draw(self.src, exp.len());
        drive(s.m.range(qb), &exp, plan, None, "range()", ctx, |(k, v), _| (k.k(), v.v()));
    }

    pub fn op_range_mut(&mut self, i: usize) {
        let b = self.draw_bounds(i);
        let wseed = self.src.byte() as u64;
        let s = &mut self.slots[i];
        let ctx = &mut *self.ctx;
        ctx.t(|| format!("m{i}.range_mut({b:?})"));
        let qb = (map_bd(b.0), map_bd(b.1));
        if invalid(b) {
            ctx.label("range: inverted or empty-exclusive bounds");
            let r = crate::quiet(|| {
                let mut it = s.m.range_mut(qb);
                let a = it.next().is_some();
                let b = it.next_back().is_some();
                a || b
            });
            ensure!(r != Some(true), "range_mut({b:?}) yields an entry");
            return;
        }
        self.muts += 1;
        let exp: Vec<(i32, u32)> = s.md.range(b).map(|(k, v)| (*k, *v)).collect();
        label_range(ctx, b, exp.len(), &s.md);
        let plan = Plan::draw(self.src, exp.len());
        let base = self.next;
        self.next += exp.len() as u32 + 2;
        let mut written = vec![];
        drive(s.m.range_mut(qb), &exp, plan, None, "range_mut()", ctx, |(k, v), j| {
            let old = v.v();
            if wseed == 0 || crate::engine::mix(wseed ^ (j as u64) << 9) % 4 != 0 {
                v.set(base + j as u32 + 1);
                written.push(j);
            }
            (k.k(), old)
        });
        for j in written {
            s.md.insert(exp[j].0, base + j as u32 + 1);
        }
    }

    pub fn op_combine(&mut self, i: usize) {
        if !M::AVL {
            return self.apply(Append, i);
        }
        self.muts += 1;
        let kind = self.src.below(6);
        if kind >= 4 {
            return self.op_join(i);
        }
        let o = self.operand(i);
        let (l, r) = (
            Slot { m: self.slots[i].m.clone(), md: self.slots[i].md.clone() },
            o,
        );
        let swap = self.src.chance(128);
        let (l, r) = if swap { (r, l) } else { (l, r) };
        let keep_orig = self.src.chance(128);
        if !keep_orig {
            // drop the slot's own copy so that the operands are less shared
            self.slots[i] = Slot { m: M::default(), md: Mdl::new() };
        }
        let c = [Combo::Union, Combo::Inter, Combo::Diff, Combo::Sym];
        let c = &c[kind as usize];
        let md: Mdl = match c {
            Combo::Union => {
                let mut x = l.md.clone();
                x.extend(r.md.iter().map(|(k, v)| (*k, *v)));
                x
            }
            Combo::Inter => l.md.iter().filter(|(k, _)| r.md.contains_key(k)).map(|(k, v)| (*k, *v)).collect(),
            Combo::Diff => l.md.iter().filter(|(k, _)| !r.md.contains_key(k)).map(|(k, v)| (*k, *v)).collect(),
            Combo::Sym => l
                .md
                .iter()
                .filter(|(k, _)| !r.md.contains_key(k))
                .chain(r.md.iter().filter(|(k, _)| !l.md.contains_key(k)))
                .map(|(k, v)| (*k, *v))
                .collect(),
        };
        let name = ["new_union", "new_intersect", "new_diff", "new_sym_diff"][kind as usize];
        self.ctx.label(["combine: union", "combine: intersect", "combine: diff", "combine: sym_diff"][kind as usize]);
        self.ctx.t(|| format!("m{i} := {name}({}, {}) keep_orig={keep_orig}", brief(&l.md), brief(&r.md)));
        let m = M::combo(c, l.m, r.m).unwrap();
        verify_map(&m, &md, self.check, &|| format!("result of {name}"));
        let s = Slot { m, md };
        if keep_orig {
            self.push_slot(s);
        } else {
            self.slots[i] = s;
        }
    }

    fn op_join(&mut self, i: usize) {
        let k = self.pick(i);
        let o = self.operand(i);
        let (mut a, mut b) = (
            Slot { m: self.slots[i].m.clone(), md: self.slots[i].md.clone() },
            o,
        );
        if self.src.chance(128) {
            std::mem::swap(&mut a, &mut b);
        }
        // keys of a below k, keys of b above k
        a.m.split_off(&Qk(k));
        a.md.split_off(&k);
        let hm = b.m.split_off(&Qk(k));
        let hmd = b.md.split_off(&k);
        let mut b = Slot { m: hm, md: hmd };
        b.m.remove(&Qk(k));
        b.md.remove(&k);
        // sometimes make the heights very different
        match self.src.below(4) {
            0 => {
                let keep = self.src.below(4) as usize;
                while a.md.len() > keep {
                    a.m.pop_first();
                    a.md.pop_first();
                }
            }
            1 => {
                let keep = self.src.below(4) as usize;
                while b.md.len() > keep {
                    b.m.pop_last();
                    b.md.pop_last();
                }
            }
            _ => (),
        }
        let (tv, v) = self.tv();
        self.ctx.label("combine: join");
        self.ctx.t(|| format!("m{i} := new_join({}, {k}, {v}, {})", brief(&a.md), brief(&b.md)));
        let m = M::join(a.m, Tk::new(k, v), tv, b.m).unwrap();
        let mut md = a.md;
        md.insert(k, v);
        md.append(&mut b.md);
        verify_map(&m, &md, self.check, &|| "result of new_join".into());
        let s = Slot { m, md };
        if self.src.chance(128) {
            self.push_slot(s);
        } else {
            self.slots[i] = s;
        }
    }

    pub fn op_compare(&mut self, i: usize) {
        let o = match self.src.weighted(&[3, 4, 2, 2]) {
            0 => self.operand(i),
            1 => {
                // same contents (or a small difference), built differently
                let mut md = self.slots[i].md.clone();
                match self.src.below(8) {
                    0 => {
                        md.pop_last();
                    }
                    1 => {
                        let k = self.keys.pick(self.src, &md);
                        md.remove(&k);
                    }
                    2 => {
                        let k = self.keys.pick(self.src, &md);
                        let v = self.fresh();
                        md.insert(k, v);
                    }
                    3 => {
                        if let Some(k) = nth_key(self.src, &md) {
                            let v = self.fresh();
                            md.insert(k, v);
                        }
                    }
                    4 => {
                        // a value one lower
                        if let Some(k) = nth_key(self.src, &md) {
                            let v = md.get_mut(&k).unwrap();
                            *v = v.saturating_sub(1);
                        }
                    }
                    5 => {
                        // one key moved
                        if let Some(k) = nth_key(self.src, &md) {
                            let v = md.remove(&k).unwrap();
                            md.insert(k.saturating_add(1), v);
                        }
                    }
                    _ => (),
                }
                let mut v: Vec<(i32, u32)> = md.iter().map(|(k, v)| (*k, *v)).collect();
                shuffle(&mut v, self.src.byte() as u64);
                let m: M = v.iter().map(|&(k, v)| (Tk::new(k, v), Tv::new(v))).collect();
                Slot { m, md }
            }
            2 => {
                // shared with one changed value / key
                let mut s = Slot { m: self.slots[i].m.clone(), md: self.slots[i].md.clone() };
                if let Some(k) = nth_key(self.src, &s.md) {
                    let v = self.fresh();
                    s.m.get_mut(&Qk(k)).unwrap().set(v);
                    s.md.insert(k, v);
                }
                s
            }
            _ => Slot { m: self.slots[i].m.clone(), md: self.slots[i].md.clone() },
        };
        let s = &self.slots[i];
        self.ctx.t(|| format!("compare m{i} {} with {}", brief(&s.md), brief(&o.md)));
        if s.md == o.md {
            self.ctx.label("compare: equal contents");
        } else {
            self.ctx.label("compare: different contents");
        }
        compare_laws(&s.m, &o.m, &s.md, &o.md, M::NAME);
        match (s.m.hash_code(), o.m.hash_code()) {
            (Some(a), Some(b)) => {
                ensure_eq!(a == b, s.md == o.md, "hash input equal iff contents equal");
            }
            _ => (),
        }
        if s.md.len() <= 300 {
            ensure_eq!(format!("{:?}", s.m), M::debug_string(&s.md), "Debug output");
        }
        if s.md.len() <= 60 {
            check_pretty(&format!("{:#?}", s.m), &s.md);
        }
        let os = o;
        verify_map(&os.m, &os.md, false, &|| "operand after comparing".into());
    }
}

/// {:#?} lists the entries in order, one per line
fn check_pretty(t: &str, md: &Mdl) {
    let got: Vec<String> = t
        .lines()
        .filter(|l| l.contains(": ") )
        .map(|l| l.trim().trim_end_matches(',').to_string())
        .collect();
    let exp: Vec<String> = md.iter().map(|(k, v)| format!("{k}: {v}")).collect();
    ensure_eq!(got, exp, "entries in pretty Debug output");
}

pub fn compare_laws<T: Ord, U: Ord>(a: &T, b: &T, ma: &U, mb: &U, what: &str) {
    use std::cmp::Ordering::*;
    let e = ma.cmp(mb);
    ensure_eq!(a == b, e == Equal, "{what}: ==");
    ensure_eq!(a != b, e != Equal, "{what}: !=");
    ensure_eq!(b == a, e == Equal, "{what}: == (swapped)");
    ensure_eq!(a.cmp(b), e, "{what}: cmp");
    ensure_eq!(b.cmp(a), e.reverse(), "{what}: cmp (swapped)");
    ensure_eq!(a.partial_cmp(b), Some(e), "{what}: partial_cmp");
    ensure_eq!(a < b, e == Less, "{what}: <");
    ensure_eq!(a <= b, e != Greater, "{what}: <=");
    ensure_eq!(a > b, e == Greater, "{what}: >");
    ensure_eq!(a >= b, e != Less, "{what}: >=");
    ensure!(a == a && a.cmp(a) == Equal, "{what}: reflexive");
}

pub fn brief(md: &Mdl) -> String {
    if md.len() <= 12 {
        format!("{md:?}")
    } else {
        format!(
            "{{{} entries {}..={}}}",
            md.len(),
            md.keys().next().unwrap(),
            md.keys().next_back().unwrap()
        )
    }
}

pub fn len_of<I: ExactSizeIterator>(i: &I) -> usize {
    i.len()
}

pub fn map_bd(b: Bound<i32>) -> Bound<Qk> {
    match b {
        Bound::Included(x) => Bound::Included(Qk(x)),
        Bound::Excluded(x) => Bound::Excluded(Qk(x)),
        Bound::Unbounded => Bound::Unbounded,
    }
}

pub fn bd_val(b: Bound<i32>) -> Option<i32> {
    match b {
        Bound::Included(x) | Bound::Excluded(x) => Some(x),
        Bound::Unbounded => None,
    }
}

/// bounds for which std's range panics
pub fn invalid(b: (Bound<i32>, Bound<i32>)) -> bool {
    match (bd_val(b.0), bd_val(b.1)) {
        (Some(l), Some(u)) => {
            l > u
                || (l == u
                    && matches!(b.0, Bound::Excluded(_))
                    && matches!(b.1, Bound::Excluded(_)))
        }
        _ => false,
    }
}

pub fn draw_bounds<V>(src: &mut Src, keys: Keys, md: &Std<i32, V>) -> (Bound<i32>, Bound<i32>) {
    let ka = keys.pick(src, md);
    let kb = match src.weighted(&[4, 1, 2, 1]) {
        0 => keys.pick(src, md),
        1 => ka,
        2 => {
            // a few stored keys further on
            let d = src.usize(24);
            md.range(ka..).nth(d).map(|x| *x.0).unwrap_or(ka)
        }
        _ => ka.saturating_add(src.below(4) as i32),
    };
    let (a, b) = if ka <= kb || src.chance(16) { (ka, kb) } else { (kb, ka) };
    let kind = |src: &mut Src, k: i32| match src.weighted(&[4, 4, 2]) {
        0 => Bound::Included(k),
        1 => Bound::Excluded(k),
        _ => Bound::Unbounded,
    };
    let lo = kind(src, a);
    let hi = kind(src, b);
    (lo, hi)
}

pub fn label_range<V>(ctx: &mut Ctx, b: (Bound<i32>, Bound<i32>), n: usize, md: &Std<i32, V>) {
    if n == 0 {
        ctx.label("range: empty");
    } else if n == md.len() {
        ctx.label("range: everything");
    } else {
        ctx.label("range: proper part");
    }
    if let Some(x) = bd_val(b.0) {
        ctx.label(if md.contains_key(&x) { "range: lower bound stored" } else { "range: lower bound absent" });
    }
    if let Some(x) = bd_val(b.1) {
        ctx.label(if md.contains_key(&x) { "range: upper bound stored" } else { "range: upper bound absent" });
    }
}

pub fn verify_map<M: MapLike>(m: &M, md: &Mdl, check: bool, when: &dyn Fn() -> String) {
    if m.len() != md.len() {
        crate::fail!("{}: len() is {}, expected {}", when(), m.len(), md.len());
    }
    if m.is_empty() != md.is_empty() {
        crate::fail!("{}: is_empty() is {}", when(), m.is_empty());
    }
    let mut it = m.iter();
    for (i, (k, v)) in md.iter().enumerate() {
        match it.next() {
            Some((a, b)) => {
                if a.k() != *k || b.v() != *v {
                    crate::fail!(
                        "{}: entry {i} is ({}, {}), expected ({k}, {v})",
                        when(), a.k(), b.v()
                    );
                }
            }
            None => crate::fail!("{}: only {i} entries, expected {}", when(), md.len()),
        }
    }
    if let Some((a, _)) = it.next() {
        crate::fail!("{}: extra entry with key {}", when(), a.k());
    }
    if check {
        if let Err(e) = m.check() {
            crate::fail!("{}: structural self-check failed: {e}", when());
        }
    }
    check_errs("reading the map");
}

/// elements alive versus elements reachable from `n` collections
pub fn live_bound(total: usize, n: usize, when: &str) {
    let l = crate::track::live();
    if l > total || (n == 1 && l != total) {
        crate::fail!("{when}: {l} elements are alive, but the {n} collection(s) hold {total}");
    }
}
