//! Exercisers for iterators: any interleaving of calls against the expected
//! item sequence.

use crate::engine::{Ctx, Rng, Src};
use crate::{ensure, ensure_eq};
use std::fmt::Debug;

/// What to do with an iterator; decoded once so that shrinking is simple.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    style: u32,   // 0 front, 1 back, 2 alternate, 3 random bits, 4 runs
    stop: u32,    // number of items to take before finishing
    finish: u32,  // how to finish
    nth: bool,    // use nth / nth_back now and then
    seed: u32,
}

impl Plan {
    pub fn draw(src: &mut Src, n: usize) -> Plan {
        let style = src.weighted(&[3, 3, 3, 5, 3]) as u32;
        let stop = match src.weighted(&[3, 2, 3]) {
            0 => n as u32 + 3,
            1 => src.below(4.min(n as u32 + 2)),
            _ => src.below(n as u32 + 2),
        };
        let finish = src.below(10);
        let nth = src.chance(48);
        let seed = src.byte() as u32;
        Plan {
            style,
            stop,
            finish,
            nth,
            seed,
        }
    }
}

struct Steps {
    plan: Plan,
    rng: Rng,
    i: u32,
    back: bool,
    run: u64,
}
impl Steps {
    fn new(plan: Plan) -> Self {
        Steps {
            plan,
            rng: Rng::new(plan.seed as u64 * 7919 + 13),
            i: 0,
            back: false,
            run: 0,
        }
    }
    fn back(&mut self) -> bool {
        self.i += 1;
        match self.plan.style {
            0 => false,
            1 => true,
            2 => self.i % 2 == 0,
            3 => self.rng.next() >> 40 & 1 == 1,
            _ => {
                if self.run == 0 {
                    self.run = 1 + self.rng.below(12);
                    self.back = !self.back;
                }
                self.run -= 1;
                self.back
            }
        }
    }
    fn skip(&mut self) -> usize {
        if self.plan.nth && self.rng.below(4) == 0 {
            // mostly short, now and then past the end of a node, a subtree or all
            let top = [4, 4, 4, 16, 64, 300, 5000][self.rng.below(7) as usize];
            self.rng.below(top) as usize
        } else {
            0
        }
    }
}

pub type LenFn<I> = fn(&I) -> usize;

/// `exact`: the iterator promises an exact length.
fn chk_len<I: Iterator>(it: &I, exact: Option<LenFn<I>>, left: usize, what: &str) {
    let (lo, hi) = it.size_hint();
    ensure!(
        lo <= left && hi.map_or(true, |h| h >= left),
        "{what}: size_hint ({lo}, {hi:?}) excludes the {left} items left"
    );
    if let Some(f) = exact {
        ensure_eq!(f(it), left, "{what}: len()");
        ensure!(
            lo == left && hi == Some(left),
            "{what}: size_hint ({lo}, {hi:?}) is not exact, {left} items left"
        );
    }
}

/// Drive a double-ended iterator.  `conv` maps an item (and its index in the
/// expected sequence) to a comparable value; it may also write through it.
/// Returns how many items were consumed from the front and from the back.
pub fn drive<I, T, F>(
    it: I,
    exp: &[T],
    plan: Plan,
    exact: Option<LenFn<I>>,
    what: &str,
    ctx: &mut Ctx,
    mut conv: F,
) where
    I: DoubleEndedIterator,
    T: PartialEq + Debug,
    F: FnMut(I::Item, usize) -> T,
{
    let mut it = it;
    let (mut lo, mut hi) = (0usize, exp.len());
    let mut st = Steps::new(plan);
    let mut taken = 0u32;
    let (mut nf, mut nb) = (0u32, 0u32);
    ctx.t(|| format!("  {what}: {plan:?} over {} items", exp.len()));

    chk_len(&it, exact, hi - lo, what);
    while taken < plan.stop {
        taken += 1;
        let back = st.back();
        let skip = st.skip();
        let left = hi - lo;
        if back {
            let got = if skip > 0 { it.nth_back(skip) } else { it.next_back() };
            if left > skip {
                hi -= skip + 1;
                let Some(x) = got else {
                    crate::fail!("{what}: from the back: None, expected {:?}", exp[hi])
                };
                let x = conv(x, hi);
                ensure_eq!(x, exp[hi], "{what}: item from the back (index {hi})");
                nb += 1;
            } else {
                hi = lo;
                ensure!(got.is_none(), "{what}: item from the back of an exhausted iterator");
            }
        } else {
            let got = if skip > 0 { it.nth(skip) } else { it.next() };
            if left > skip {
                let i = lo + skip;
                lo += skip + 1;
                let Some(x) = got else {
                    crate::fail!("{what}: from the front: None, expected {:?}", exp[i])
                };
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item from the front (index {i})");
                nf += 1;
            } else {
                lo = hi;
                ensure!(got.is_none(), "{what}: item from the front of an exhausted iterator");
            }
        }
        if taken < 40 || taken % 16 == 0 {
            chk_len(&it, exact, hi - lo, what);
        }
        crate::track::check_errs(what);
        if lo == hi && taken > exp.len() as u32 + 4 {
            break;
        }
    }
    chk_len(&it, exact, hi - lo, what);
    if nf > 0 && nb > 0 {
        ctx.label("iter: both ends");
        if lo == hi {
            ctx.label("iter: ends met");
        }
    }
    if lo < hi {
        ctx.label("iter: stopped early");
    }
    let left = &exp[lo..hi];
    let n = left.len();
    let cap = n + 8;
    match plan.finish {
        0 | 1 => drop(it), // abandon
        2 => {
            let mut i = lo;
            it.by_ref().take(cap).for_each(|x| {
                ensure!(i < hi, "{what}: too many items");
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} in for_each");
                i += 1;
            });
            ensure_eq!(i, hi, "{what}: number of items");
            for _ in 0..3 {
                ensure!(it.next().is_none(), "{what}: item after the end");
                ensure!(it.next_back().is_none(), "{what}: item after the end");
            }
            chk_len(&it, exact, 0, what);
        }
        3 => {
            let mut i = hi;
            let mut r = it.rev();
            for x in r.by_ref().take(cap) {
                ensure!(i > lo, "{what}: too many items in reverse");
                i -= 1;
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} in reverse");
            }
            ensure_eq!(i, lo, "{what}: number of items in reverse");
            for _ in 0..3 {
                ensure!(r.next().is_none(), "{what}: item after the end (rev)");
                ensure!(r.next_back().is_none(), "{what}: item after the end (rev)");
            }
        }
        4 => {
            ensure_eq!(it.count(), n, "{what}: count()");
        }
        5 => {
            let x = it.last();
            ensure_eq!(x.is_some(), n > 0, "{what}: last() is Some");
            if let Some(x) = x {
                let x = conv(x, hi - 1);
                ensure_eq!(x, exp[hi - 1], "{what}: last()");
            }
        }
        6 => {
            let mut i = lo;
            let k = it.fold(0usize, |acc, x| {
                ensure!(i < hi, "{what}: too many items in fold");
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} in fold");
                i += 1;
                acc + 1
            });
            ensure_eq!(k, n, "{what}: fold count");
        }
        7 => {
            let mut i = hi;
            let k = it.rfold(0usize, |acc, x| {
                ensure!(i > lo, "{what}: too many items in rfold");
                i -= 1;
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} in rfold");
                acc + 1
            });
            ensure_eq!(k, n, "{what}: rfold count");
        }
        8 => {
            // find/position style partial use, then the rest from the back
            let mid = n / 2;
            let mut i = lo;
            if n > 0 {
                let p = it.position(|x| {
                    let x = conv(x, i);
                    ensure_eq!(x, exp[i], "{what}: item {i} in position");
                    i += 1;
                    i == lo + mid + 1
                });
                ensure_eq!(p, Some(mid), "{what}: position()");
            }
            let mut j = hi;
            while let Some(x) = it.next_back() {
                ensure!(j > i, "{what}: too many items from the back");
                j -= 1;
                let x = conv(x, j);
                ensure_eq!(x, exp[j], "{what}: item {j} from the back");
            }
            ensure_eq!(j, i, "{what}: ends meet");
            ensure!(it.next().is_none(), "{what}: item after the end");
        }
        _ if plan.seed % 5 == 0 => {
            // stop a fold in the middle, then the rest
            let mid = n / 2;
            let mut i = lo;
            let r = it.try_fold((), |_, x| {
                ensure!(i < hi, "{what}: too many items in try_fold");
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} in try_fold");
                i += 1;
                if i == lo + mid { Err(()) } else { Ok(()) }
            });
            ensure_eq!(r.is_err(), mid > 0, "{what}: try_fold stops");
            let k = if mid > 0 { lo + mid } else { hi };
            ensure_eq!(i, k, "{what}: items of a stopped try_fold");
            chk_len(&it, exact, hi - k, what);
            ensure_eq!(it.count(), hi - k, "{what}: count() after try_fold");
        }
        _ if plan.seed % 5 == 1 => {
            let by = 2 + plan.seed as usize / 5 % 9;
            let mut i = lo;
            for x in it.step_by(by).take(cap) {
                ensure!(i < hi, "{what}: too many items in step_by({by})");
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} in step_by({by})");
                i += by;
            }
            ensure_eq!(i, lo + n.div_ceil(by) * by, "{what}: number of items in step_by({by})");
        }
        _ if plan.seed % 5 == 2 => {
            // find from both ends, then what is between
            let (a, b) = (n / 3, n / 4);
            let (mut i, mut j) = (lo, hi);
            if n > 0 {
                let mut c = 0;
                let x = it.find(|_| {
                    c += 1;
                    c > a
                });
                let Some(x) = x else { crate::fail!("{what}: find() gives None") };
                i = lo + a;
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} by find()");
                i += 1;
            }
            if j - i > b {
                let mut c = 0;
                let x = it.rfind(|_| {
                    c += 1;
                    c > b
                });
                let Some(x) = x else { crate::fail!("{what}: rfind() gives None") };
                j -= b + 1;
                let x = conv(x, j);
                ensure_eq!(x, exp[j], "{what}: item {j} by rfind()");
            }
            chk_len(&it, exact, j - i, what);
            for x in it.take(cap) {
                ensure!(i < j, "{what}: too many items after find/rfind");
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} after find/rfind");
                i += 1;
            }
            ensure_eq!(i, j, "{what}: number of items after find/rfind");
        }
        _ => {
            // collect keeps the order; relies on size_hint
            let v: Vec<I::Item> = it.collect();
            ensure_eq!(v.len(), n, "{what}: collected length");
            for (i, x) in v.into_iter().enumerate() {
                let x = conv(x, lo + i);
                ensure_eq!(x, exp[lo + i], "{what}: collected item {i}");
            }
        }
    }
    crate::track::check_errs(what);
}

/// adapters that rely on ExactSizeIterator being truthful
pub fn adapters<I>(make: &mut dyn FnMut() -> I, n: usize, what: &str)
where
    I: DoubleEndedIterator + ExactSizeIterator,
{
    ensure_eq!(make().zip(0..n).len(), n, "{what}: zip().len()");
    ensure_eq!(make().enumerate().len(), n, "{what}: enumerate().len()");
    ensure_eq!(make().rev().len(), n, "{what}: rev().len()");
    ensure_eq!(make().skip(n / 2).len(), n - n / 2, "{what}: skip().len()");
    ensure_eq!(make().peekable().len(), n, "{what}: peekable().len()");
    let mut k = n;
    let p = make().rposition(|_| {
        k -= 1;
        k == n / 3
    });
    ensure_eq!(p, if n > 0 { Some(n / 3) } else { None }, "{what}: rposition()");
    if let Some((i, _)) = make().enumerate().rev().next() {
        ensure_eq!(i, n - 1, "{what}: enumerate().rev() index");
    }
}

/// what an iterator over ordered items may shortcut
pub fn ordered<I>(make: &mut dyn FnMut() -> I, n: usize, what: &str)
where
    I: Iterator,
    I::Item: Ord + Debug,
{
    let last = make().last();
    let first = make().next();
    ensure_eq!(make().count(), n, "{what}: count()");
    ensure_eq!(make().max(), last, "{what}: max()");
    ensure_eq!(make().min(), first, "{what}: min()");
    ensure_eq!(make().reduce(|a, b| a.max(b)), last, "{what}: reduce(max)");
    ensure!(make().is_sorted(), "{what}: is_sorted()");
    ensure!(make().eq(make()), "{what}: eq itself");
    ensure!(make().cmp(make()).is_eq(), "{what}: cmp itself");
    ensure!(make().all(|x| Some(&x) <= last.as_ref()), "{what}: all()");
    let x = make().nth(n / 2);
    ensure_eq!(x.is_some(), n > 0, "{what}: nth() in the middle");
    ensure!(make().nth(n).is_none(), "{what}: nth() past the end");
    if let Some(x) = x {
        ensure_eq!(make().position(|y| y == x), Some(n / 2), "{what}: position()");
        ensure!(make().any(|y| y == x), "{what}: any()");
    }
}

/// Drive a forward-only iterator.
pub fn drive_fwd<I, T, F>(
    it: I,
    exp: &[T],
    plan: Plan,
    exact: Option<LenFn<I>>,
    what: &str,
    ctx: &mut Ctx,
    mut conv: F,
) where
    I: Iterator,
    T: PartialEq + Debug,
    F: FnMut(I::Item, usize) -> T,
{
    let mut it = it;
    let n = exp.len();
    let mut lo = 0;
    let mut st = Steps::new(plan);
    let mut taken = 0u32;
    ctx.t(|| format!("  {what}: {plan:?} over {n} items"));
    chk_len(&it, exact, n, what);
    while taken < plan.stop {
        taken += 1;
        let skip = st.skip();
        let got = if skip > 0 { it.nth(skip) } else { it.next() };
        if n - lo > skip {
            let i = lo + skip;
            lo = i + 1;
            let Some(x) = got else {
                crate::fail!("{what}: None, expected {:?}", exp[i])
            };
            let x = conv(x, i);
            ensure_eq!(x, exp[i], "{what}: item {i}");
        } else {
            lo = n;
            ensure!(got.is_none(), "{what}: item from an exhausted iterator");
        }
        if taken < 40 || taken % 16 == 0 {
            chk_len(&it, exact, n - lo, what);
        }
        if lo == n && taken > n as u32 + 4 {
            break;
        }
    }
    chk_len(&it, exact, n - lo, what);
    if lo < n {
        ctx.label("iter: stopped early");
    }
    match plan.finish {
        0 | 1 | 2 => drop(it),
        3 => ensure_eq!(it.count(), n - lo, "{what}: count()"),
        4 => {
            let x = it.last();
            ensure_eq!(x.is_some(), n > lo, "{what}: last() is Some");
            if let Some(x) = x {
                let x = conv(x, n - 1);
                ensure_eq!(x, exp[n - 1], "{what}: last()");
            }
        }
        5 | 6 => {
            let mut i = lo;
            let k = it.fold(0usize, |acc, x| {
                ensure!(i < n, "{what}: too many items in fold");
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i} in fold");
                i += 1;
                acc + 1
            });
            ensure_eq!(k, n - lo, "{what}: fold count");
        }
        _ => {
            let mut i = lo;
            for x in it.by_ref().take(n + 8) {
                ensure!(i < n, "{what}: too many items");
                let x = conv(x, i);
                ensure_eq!(x, exp[i], "{what}: item {i}");
                i += 1;
            }
            ensure_eq!(i, n, "{what}: number of items");
            for _ in 0..3 {
                ensure!(it.next().is_none(), "{what}: item after the end");
            }
            chk_len(&it, exact, 0, what);
        }
    }
    crate::track::check_errs(what);
}

/// an iterator with a correct but loose size hint, as filters and generators
/// have; which of the possible ones depends on `how`
pub struct Loose<I> {
    it: I,
    left: usize,
    how: u32,
}
pub fn loose<I: ExactSizeIterator>(it: I, how: u32) -> Loose<I> {
    let left = it.len();
    Loose { it, left, how: how % 6 }
}
impl<I: Iterator> Iterator for Loose<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.it.next()?;
        self.left = self.left.saturating_sub(1);
        Some(x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.left;
        match self.how {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n / 2, Some(2 * n + 1)),
            4 => (n, None),
            _ => (n.min(1), Some(usize::MAX)),
        }
    }
}
