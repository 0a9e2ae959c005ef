//! C20: clones used from several threads.
//!
//! Mode A runs one thread at a time: every clone, comparison and drop of an
//! element is a point at which a seeded scheduler may pass the turn to another
//! thread, so an interleaving is part of the case and replays exactly.
//! Mode B lets the threads run freely (real parallelism), several times over.

use crate::engine::{last_panic, mix, Case, Ctx, Failure, Rng, Src};
use crate::fixed::{fweights, FDrv, FKey, FSlot, FVal, Tk8};
use crate::maps::{draw_size, verify_map, weights, AMap, BMap, Drv, Keys, MapLike, Slot};
use crate::sets::{sweights, verify_set, ASet, BSet, SDrv, SSlot, SetLike};
use crate::track::{self, Tk, Tv};
use crate::{ensure, fail};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier, Condvar, Mutex};

// ------------------------------------------------------------- the scheduler

struct St {
    cur: usize,
    alive: Vec<bool>,
    rng: Rng,
    chance: u64,
    switches: u64,
}
struct Sched {
    st: Mutex<St>,
    cv: Vec<Condvar>,
}
enum Link {
    Turn(Arc<Sched>, usize),
    Free(Rng),
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LINK: Cell<Option<*mut Link>> = const { Cell::new(None) };
}

impl Sched {
    fn lock(&self) -> std::sync::MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, me: usize) {
        let mut g = self.lock();
        while g.cur != me {
            g = self.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn pass(&self, me: usize, gone: bool) {
        let mut g = self.lock();
        if gone {
            g.alive[me] = false;
        } else {
            let c = g.chance;
            if g.rng.below(256) >= c {
                return;
            }
        }
        let others: Vec<usize> = (0..g.alive.len()).filter(|&i| i != me && g.alive[i]).collect();
        if others.is_empty() {
            return;
        }
        let k = g.rng.below(others.len() as u64) as usize;
        g.cur = others[k];
        g.switches += 1;
        self.cv[others[k]].notify_one();
        if gone {
            return;
        }
        while g.cur != me {
            g = self.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
}

/// called by the elements before a clone, a comparison or a drop
#[inline]
pub fn point() {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        point_slow()
    }
}
#[cold]
fn point_slow() {
    if let Some(l) = LINK.with(|l| l.get()) {
        // SAFETY: set by `enter` for the life of this thread's work; only
        // this thread uses it
        match unsafe { &mut *l } {
            Link::Turn(s, me) => s.pass(*me, false),
            Link::Free(r) => match r.next() % 64 {
                0 => std::thread::yield_now(),
                1..=4 => {
                    for _ in 0..r.below(200) {
                        std::hint::spin_loop()
                    }
                }
                _ => (),
            },
        }
    }
}

// ------------------------------------------------------------ what is driven

trait Host {
    type Slot;
    const KIND: &'static str;
    fn base(src: &mut Src, ctx: &mut Ctx, sizes: &[(u32, u32, u32)]) -> (Self::Slot, Keys);
    fn dup(s: &Self::Slot) -> Self::Slot;
    /// a copy that shares nothing
    fn deep(s: &Self::Slot) -> Self::Slot;
    fn verify(s: &Self::Slot, when: &str);
    /// the operations of one thread; returns the copies it ends up with
    fn work(s: Self::Slot, k: Keys, tag: u32, src: &mut Src, ctx: &mut Ctx) -> (Vec<Self::Slot>, u32);
}

struct Maps<M>(std::marker::PhantomData<M>);
impl<M: MapLike> Host for Maps<M> {
    type Slot = Slot<M>;
    const KIND: &'static str = M::NAME;
    fn base(src: &mut Src, ctx: &mut Ctx, sizes: &[(u32, u32, u32)]) -> (Slot<M>, Keys) {
        let mut d = Drv::<M>::new(src, ctx, sizes);
        (d.slots.pop().unwrap(), d.keys)
    }
    fn dup(s: &Slot<M>) -> Slot<M> {
        Slot { m: s.m.clone(), md: s.md.clone() }
    }
    fn deep(s: &Slot<M>) -> Slot<M> {
        Slot { m: s.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), md: s.md.clone() }
    }
    fn verify(s: &Slot<M>, when: &str) {
        verify_map(&s.m, &s.md, true, &|| when.to_string())
    }
    fn work(s: Slot<M>, k: Keys, tag: u32, src: &mut Src, ctx: &mut Ctx) -> (Vec<Slot<M>>, u32) {
        use crate::maps::Op::*;
        let w = weights(&[
            (Insert, 14), (Remove, 14), (Lookup, 2), (Ends, 1), (Pops, 6), (Append, 3), (SplitOff, 4),
            (Retain, 4), (Clear, 2), (Entry, 3), (Extend, 2), (CloneTo, 6), (DropOne, 5), (Iter, 2),
            (IterMut, 5), (Range, 1), (RangeMut, 4), (IntoIter, 6), (Combine, 4), (EndEntry, 1),
            (Compare, 1), (Run, 5), (GetMut, 8), (RemoveEntry, 2), (IntoVec, 1),
        ]);
        let mut d = Drv::<M>::empty(src, ctx, k.span);
        d.keys = k;
        d.next = tag;
        d.max_slots = 2;
        d.slots.push(s);
        d.run(&w);
        (std::mem::take(&mut d.slots), d.muts)
    }
}

struct Sets<S>(std::marker::PhantomData<S>);
impl<S: SetLike> Host for Sets<S> {
    type Slot = SSlot<S>;
    const KIND: &'static str = S::NAME;
    fn base(src: &mut Src, ctx: &mut Ctx, sizes: &[(u32, u32, u32)]) -> (SSlot<S>, Keys) {
        let mut d = SDrv::<S>::new(src, ctx, sizes);
        (d.slots.pop().unwrap(), d.keys)
    }
    fn dup(s: &SSlot<S>) -> SSlot<S> {
        SSlot { s: s.s.clone(), md: s.md.clone() }
    }
    fn deep(s: &SSlot<S>) -> SSlot<S> {
        SSlot { s: s.s.iter().cloned().collect(), md: s.md.clone() }
    }
    fn verify(s: &SSlot<S>, when: &str) {
        verify_set(&s.s, &s.md, true, &|| when.to_string())
    }
    fn work(s: SSlot<S>, k: Keys, tag: u32, src: &mut Src, ctx: &mut Ctx) -> (Vec<SSlot<S>>, u32) {
        use crate::sets::Op::*;
        let w = sweights(&[
            (Insert, 14), (Remove, 12), (Take, 4), (Replace, 5), (Lookup, 2), (Pops, 6), (Append, 3),
            (SplitOff, 4), (Retain, 4), (Clear, 2), (Extend, 2), (CloneTo, 6), (DropOne, 5), (Iter, 2),
            (IntoIter, 6), (Range, 2), (Algebra, 4), (Predicates, 1), (Compare, 1), (Run, 5),
        ]);
        let mut d = SDrv::<S>::empty(src, ctx, k.span);
        d.keys = k;
        d.next = tag;
        d.max_slots = 2;
        d.slots.push(s);
        d.run(&w);
        (std::mem::take(&mut d.slots), d.muts)
    }
}

struct Fixed<K, V>(std::marker::PhantomData<(K, V)>);
impl<K: FKey, V: FVal> Host for Fixed<K, V> {
    type Slot = FSlot<K, V>;
    const KIND: &'static str = "fixed::BTreeMap";
    fn base(src: &mut Src, ctx: &mut Ctx, sizes: &[(u32, u32, u32)]) -> (FSlot<K, V>, Keys) {
        let mut d = FDrv::<K, V>::new(src, ctx, sizes);
        (d.slots.pop().unwrap(), Keys { base: 0, span: d.span })
    }
    fn dup(s: &FSlot<K, V>) -> FSlot<K, V> {
        FSlot { m: s.m.clone(), md: s.md.clone() }
    }
    fn deep(s: &FSlot<K, V>) -> FSlot<K, V> {
        FSlot { m: s.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), md: s.md.clone() }
    }
    fn verify(s: &FSlot<K, V>, when: &str) {
        crate::fixed::verify_fixed(&s.m, &s.md, &|| when.to_string())
    }
    fn work(s: FSlot<K, V>, k: Keys, tag: u32, src: &mut Src, ctx: &mut Ctx) -> (Vec<FSlot<K, V>>, u32) {
        use crate::fixed::Op::*;
        let w = fweights(&[
            (Insert, 14), (Remove, 14), (Get, 2), (GetMut, 8), (Iter, 2), (IterMut, 6), (IntoIter, 6),
            (Extend, 2), (Clear, 2), (CloneTo, 6), (DropOne, 5), (Run, 6),
        ]);
        let mut d = FDrv::<K, V>::empty(src, ctx, k.span);
        d.next = tag;
        d.max_slots = 2;
        d.slots.push(s);
        d.run(&w);
        (std::mem::take(&mut d.slots), d.muts)
    }
}

// ------------------------------------------------------- Send, asked at run time

struct Probe<T>(std::marker::PhantomData<T>);
trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<T> NotSend for &Probe<T> {}
impl<T: Send> Probe<T> {
    fn is_send(&self) -> bool {
        true
    }
}
macro_rules! is_send {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use NotSend as _;
        (&Probe::<$t>(std::marker::PhantomData)).is_send()
    }};
}

trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for &Probe<T> {}
impl<T: Sync> Probe<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
macro_rules! is_sync {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use NotSync as _;
        (&Probe::<$t>(std::marker::PhantomData)).is_sync()
    }};
}

fn send_checks() {
    use lazy_clone_collections as l;
    type Loc = std::rc::Rc<i32>;
    type NoSync = std::cell::Cell<i32>;
    macro_rules! both {
        ($what:literal, $ok:ty, $($bad:ty),*) => {
            ensure!(is_send!($ok), "{} of sendable elements cannot be moved to another thread", $what);
            ensure!(is_sync!($ok), "{} of sharable elements cannot be read by several threads", $what);
            $( ensure!(!is_sync!($bad), "{} can be shared by threads although its elements must not be ({})", $what, stringify!($bad)); )*
            $( ensure!(!is_send!($bad), "{} can be moved to another thread although its clones share elements that must not be ({})", $what, stringify!($bad)); )*
        };
    }
    both!("AvlMap", l::AvlMap<Tk, Tv>, l::AvlMap<Loc, i32>, l::AvlMap<i32, Loc>, l::AvlMap<i32, NoSync>);
    both!("BTreeMap", l::btree::BTreeMap<Tk, Tv, 3>, l::BTreeMap<Loc, i32>, l::BTreeMap<i32, Loc>, l::BTreeMap<i32, NoSync>);
    both!("AvlSet", l::AvlSet<Tk>, l::AvlSet<Loc>, l::AvlSet<NoSync>);
    both!("BTreeSet", l::BTreeSet<Tk>, l::BTreeSet<Loc>, l::BTreeSet<NoSync>);
    both!(
        "fixed::BTreeMap",
        l::btree::fixed::BTreeMap<Tk, Tv>,
        l::btree::fixed::BTreeMap<Loc, i32>,
        l::btree::fixed::BTreeMap<i32, Loc>,
        l::btree::fixed::BTreeMap<i32, NoSync>
    );
}

// ------------------------------------------------------------------- running

struct Sendy<T>(T);
// SAFETY: `send_checks` asks the real question first; what is sent here are
// library collections of sendable elements, their models, and our own state
unsafe impl<T> Send for Sendy<T> {}
impl<T> Sendy<T> {
    fn get(self) -> T {
        self.0
    }
}

/// how many times a freely running case is repeated
pub static REPEAT: AtomicU32 = AtomicU32::new(2);

struct Plan {
    mode_b: bool,
    chance: u64,
    seed: u64,
    keep_original: bool,
    original_works: bool,
    join_in_parent: bool,
    recs: Vec<Vec<Vec<u8>>>,
}

fn go<H: Host>(src: &mut Src, ctx: &mut Ctx) {
    send_checks();
    ctx.label(H::KIND);
    let nt = 2 + src.weighted(&[5, 3, 1]);
    let mode_b = src.chance(70);
    let chance = [12, 40, 100, 200][src.weighted(&[2, 4, 3, 1])];
    let seed = src.u16() as u64;
    let flags = src.byte();
    let sizes: &[(u32, u32, u32)] = &[(5, 0, 12), (6, 13, 60), (2, 61, 250)];
    let (base, keys) = H::base(src, ctx, sizes);
    src.plan(&[(3, 6), (5, 20), (3, 50)]);
    let mut recs: Vec<Vec<Vec<u8>>> = vec![vec![]; nt];
    while src.next_op() {
        let t = src.usize(nt);
        let r: Vec<u8> = (0..14).map(|_| src.byte()).collect();
        recs[t].push(r);
    }
    let plan = Plan {
        mode_b,
        chance,
        seed,
        keep_original: flags & 1 == 0,
        original_works: flags & 2 == 0,
        join_in_parent: flags & 4 == 0,
        recs,
    };
    let reps = if mode_b { REPEAT.load(Relaxed) } else { 1 };
    ctx.label(if mode_b { "mode: free-running threads" } else { "mode: scheduled threads" });
    let n_ops: usize = plan.recs.iter().map(|r| r.len()).sum();
    ctx.t(|| format!("{nt} threads, {n_ops} operations, free-running: {mode_b}, switch chance {chance}/256, schedule seed {seed}"));
    for rep in 1..reps {
        once::<H>(H::deep(&base), keys, &plan, rep as u64, ctx);
    }
    once::<H>(base, keys, &plan, 0, ctx);
}

fn once<H: Host>(base: H::Slot, keys: Keys, p: &Plan, rep: u64, ctx: &mut Ctx) {
    let nt = p.recs.len();
    let sched = Arc::new(Sched {
        st: Mutex::new(St {
            cur: (p.seed % nt as u64) as usize,
            alive: vec![true; nt],
            rng: Rng::new(mix(p.seed ^ 0x5eed)),
            chance: p.chance,
            switches: 0,
        }),
        cv: (0..nt).map(|_| Condvar::new()).collect(),
    });
    let barrier = Barrier::new(nt);
    let free = AtomicBool::new(false);
    let regp = track::reg_ptr();
    let total_muts = AtomicU64::new(0);

    // the first thread may get the collection the others were cloned from
    let mut parts: Vec<H::Slot> = (1..nt).map(|_| H::dup(&base)).collect();
    let witness = if p.original_works {
        let w = if p.keep_original { Some(H::dup(&base)) } else { None };
        parts.insert(0, base);
        w
    } else {
        parts.insert(0, H::dup(&base));
        if p.keep_original { Some(base) } else { None }
    };

    type Res<S> = Result<(Vec<S>, u32), String>;
    let mut results: Vec<(usize, Res<H::Slot>, Ctx)> = vec![];
    let trace_on = ctx.trace.is_some();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (t, slot) in parts.into_iter().enumerate() {
            let pack = Sendy((slot, regp, Case { hdr: vec![], ops: p.recs[t].clone() }, sched.clone()));
            let (barrier, free, total_muts) = (&barrier, &free, &total_muts);
            let join_in_parent = p.join_in_parent;
            let mode_b = p.mode_b;
            let seed = p.seed;
            let h = std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    let (slot, regp, case, sched) = pack.get();
                    let mut ctx = Ctx { trace: if trace_on { Some(vec![]) } else { None }, ..Ctx::default() };
                    let mut src = Src::replay(case);
                    let mut link = if mode_b {
                        Link::Free(Rng::new(mix(seed ^ (t as u64) << 20 ^ rep << 32)))
                    } else {
                        Link::Turn(sched.clone(), t)
                    };
                    barrier.wait();
                    if !mode_b {
                        sched.wait(t);
                    }
                    track::share(regp, if mode_b { free as *const AtomicBool } else { std::ptr::null() });
                    LINK.with(|l| l.set(Some(&mut link as *mut Link)));
                    ON.with(|o| o.set(true));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let (mut slots, muts) = H::work(slot, keys, (t as u32 + 1) << 24, &mut src, &mut ctx);
                        for (i, s) in slots.iter().enumerate() {
                            H::verify(s, &format!("thread {t}, copy {i} at the end"));
                        }
                        total_muts.fetch_add(muts as u64, Relaxed);
                        if !join_in_parent {
                            slots.clear();
                        }
                        (slots, muts)
                    }));
                    let r = r.map_err(|e| match e.downcast::<Failure>() {
                        Ok(f) => format!("thread {t}: {}", f.0),
                        Err(_) => format!("thread {t}: {}", last_panic()),
                    });
                    ON.with(|o| o.set(false));
                    LINK.with(|l| l.set(None));
                    track::share(std::ptr::null_mut(), std::ptr::null());
                    if !mode_b {
                        sched.pass(t, true);
                    }
                    Sendy((r, ctx))
                })
                .expect("spawning a thread");
            hs.push(h);
        }
        for (t, h) in hs.into_iter().enumerate() {
            match h.join() {
                Ok(x) => {
                    let (r, c) = x.get();
                    results.push((t, r, c))
                }
                Err(_) => results.push((t, Err("thread ended abnormally".into()), Ctx::default())),
            }
        }
    });
    let mut bad = None;
    let mut rest = vec![];
    for (t, r, c) in results {
        for (l, n) in c.labels {
            ctx.label_n(l, n);
        }
        for l in c.trace.unwrap_or_default() {
            ctx.t(|| format!("thread {t}: {l}"));
        }
        match r {
            Ok((s, _)) => rest.extend(s),
            Err(m) => bad = bad.or(Some(m)),
        }
    }
    let sw = sched.lock().switches;
    if !p.mode_b {
        ctx.label(match sw {
            0..=3 => "switches: 0-3",
            4..=30 => "switches: 4-30",
            31..=300 => "switches: 31-300",
            _ => "switches: >300",
        });
    }
    if let Some(m) = bad {
        fail!("{m}");
    }
    track::check_errs("threads");
    for s in &rest {
        H::verify(s, "copy brought back from a thread");
    }
    if let Some(w) = &witness {
        H::verify(w, "the copy that stayed behind");
    }
    drop(rest);
    track::check_errs("dropping the copies of all threads");
    ctx.nontrivial |= total_muts.load(Relaxed) >= 2 && (p.mode_b || sw >= 4);
}

// ------------------------------------------------------------------ stampede
//
// Races inside one library step have windows of a few instructions, and no
// user code runs in them.  Here all threads start the same step on clones of
// one collection at the same instant (spinning barrier), over and over, with
// plain elements, so that nothing of ours comes between.

thread_local! {
    /// the count of the case this thread works for
    static LIVE: Cell<&'static AtomicI64> = Cell::new(Box::leak(Box::new(AtomicI64::new(0))));
}
/// heap-owning and counted: a double drop or a leak shows
struct Bx(Box<u32>, &'static AtomicI64);
impl Bx {
    fn new(v: u32) -> Bx {
        let c = LIVE.with(|l| l.get());
        c.fetch_add(1, Relaxed);
        Bx(Box::new(v), c)
    }
}
impl Clone for Bx {
    fn clone(&self) -> Bx {
        self.1.fetch_add(1, Relaxed);
        Bx(self.0.clone(), self.1)
    }
}
impl Drop for Bx {
    fn drop(&mut self) {
        self.1.fetch_sub(1, Relaxed);
    }
}
impl PartialEq for Bx {
    fn eq(&self, o: &Bx) -> bool {
        self.0 == o.0
    }
}
impl Eq for Bx {}
impl PartialOrd for Bx {
    fn partial_cmp(&self, o: &Bx) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bx {
    fn cmp(&self, o: &Bx) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

/// what one step gives: what it took out, and what is left
type Out = (Vec<(u32, u32)>, Vec<(u32, u32)>);

trait Herd: Clone {
    const NAME: &'static str;
    fn build(n: u32) -> Self;
    fn act(self, op: u32, p: u32) -> Out;
    /// make the path to k this copy's own; contents stay
    fn own(&mut self, k: u32);
    fn list(&self) -> Vec<(u32, u32)>;
    fn model(n: u32, op: u32, p: u32) -> Out;
    /// what reading through a shared reference gives
    fn gaze(&self, p: u32) -> Vec<(u32, u32)>;
    fn gaze_model(n: u32, p: u32) -> Vec<(u32, u32)>;
}

macro_rules! gaze_map {
    ($m:expr, $p:expr) => {{
        let (m, p) = ($m, $p);
        let n = m.len() as u32;
        let g = |(k, v): (&u32, &Bx)| (*k, *v.0);
        let mut out = vec![(n, m.is_empty() as u32)];
        for j in 0..5 {
            let k = p.wrapping_mul(5 + j) % (2 * n + 2);
            out.extend(m.get(&k).map(|v| (k, *v.0)));
            out.extend(m.get_key_value(&k).map(g));
            out.push((k, m.contains_key(&k) as u32));
        }
        out.extend(m.first_key_value().map(g));
        out.extend(m.last_key_value().map(g));
        let lo = p % (2 * n + 2);
        out.extend(m.range(lo..).take(9).map(g));
        out.extend(m.range(..lo).rev().take(9).map(g));
        out.extend(m.iter().map(g));
        out.extend(m.iter().rev().step_by(3).map(g));
        out.extend(m.values().map(|v| (*v.0, 1)));
        let c = m.clone();
        out.push(((c == *m) as u32, (c.keys().cmp(m.keys()) as i32 + 1) as u32));
        out
    }};
}
macro_rules! gaze_set {
    ($m:expr, $p:expr) => {{
        let (m, p) = ($m, $p);
        let n = m.len() as u32;
        let g = |k: &Bx| (*k.0, 0);
        let mut out = vec![(n, m.is_empty() as u32)];
        for j in 0..5 {
            let k = Bx::new(p.wrapping_mul(5 + j) % (2 * n + 2));
            out.extend(m.get(&k).map(g));
            out.push((*k.0, m.contains(&k) as u32));
        }
        out.extend(m.first().map(g));
        out.extend(m.last().map(g));
        let lo = Bx::new(p % (2 * n + 2));
        out.extend(m.range(&lo..).take(9).map(g));
        out.extend(m.range(..&lo).rev().take(9).map(g));
        out.extend(m.iter().map(g));
        let c = m.clone();
        out.push((m.is_subset(&c) as u32, c.is_disjoint(m) as u32));
        out.extend(m.intersection(&c).map(g));
        out.extend(m.difference(&c).map(g));
        out
    }};
}
macro_rules! gaze_fixed {
    ($m:expr, $p:expr) => {{
        let (m, p) = ($m, $p);
        let n = m.len() as u32;
        let g = |(k, v): (&u32, &Bx)| (*k, *v.0);
        let mut out = vec![(n, 0)];
        for j in 0..5 {
            let k = p.wrapping_mul(5 + j) % (2 * n + 2);
            out.extend(m.get(&k).map(|v| (k, *v.0)));
        }
        out.extend(m.iter().map(g));
        out.extend(m.iter().rev().step_by(3).map(g));
        let c = m.clone();
        out.extend(c.iter().take(p as usize % 40).map(g));
        out
    }};
}

const ACTS: [&str; 12] = [
    "into_iter", "into_iter from the back", "into_iter from both ends, abandoned", "iter_mut", "insert and remove",
    "pops", "split_off", "append", "retain", "get_mut", "clear", "clone and drop",
];

const READ: u32 = 99;
fn act_name(o: u32) -> &'static str {
    ACTS.get(o as usize).unwrap_or(&"read and drop")
}

/// the structural self-check, where there is one
trait Sound {
    fn sound(&self) {}
}
impl Sound for StdM {}
impl Sound for StdS {}
impl Sound for lazy_clone_collections::btree::fixed::BTreeMap<u32, Bx> {}
macro_rules! sound {
    ($f:path: $($t:ty),*) => {
        $( impl Sound for $t {
            fn sound(&self) {
                if let Err(e) = $f(self) {
                    panic!("the structural self-check fails: {e}");
                }
            }
        } )*
    };
}
sound!(lazy_clone_collections::Map::check: lazy_clone_collections::AvlMap<u32, Bx>,
    lazy_clone_collections::btree::BTreeMap<u32, Bx, 1>, lazy_clone_collections::btree::BTreeMap<u32, Bx, 3>);
sound!(lazy_clone_collections::Set::check: lazy_clone_collections::AvlSet<Bx>,
    lazy_clone_collections::btree::btree_set::BTreeSet<Bx, 2>);

macro_rules! act_map {
    ($self:expr, $op:expr, $p:expr, $t:ty) => {{
        let (mut m, op, p): ($t, u32, u32) = ($self, $op, $p);
        let n = m.len() as u32;
        let g = |(k, v): (u32, Bx)| (k, *v.0);
        let mut out: Vec<(u32, u32)> = vec![];
        match op {
            0 => return (m.into_iter().map(g).collect(), vec![]),
            1 => return (m.into_iter().rev().map(g).collect(), vec![]),
            2 => {
                let mut it = m.into_iter();
                for j in 0..p % (n + 1) {
                    out.extend(if (p >> (j % 16)) & 1 == 0 { it.next().map(g) } else { it.next_back().map(g) });
                }
                return (out, vec![]);
            }
            3 => m.iter_mut().for_each(|(k, v)| *v.0 = *k ^ p),
            4 => {
                for j in 0..6 {
                    let k = p.wrapping_mul(7 + j) % (2 * n + 2);
                    out.extend(m.insert(k, Bx::new(p + j)).map(|v| (k, *v.0)));
                    let k = p.wrapping_mul(11 + j) % (2 * n + 2);
                    out.extend(m.remove(&k).map(|v| (k, *v.0)));
                }
            }
            5 => {
                for j in 0..2 + p % (n + 1) {
                    out.extend(if (p >> (j % 16)) & 1 == 0 { m.pop_first().map(g) } else { m.pop_last().map(g) });
                }
            }
            6 => out = m.split_off(&(p % (2 * n + 2))).into_iter().map(g).collect(),
            7 => {
                let mut o = m.clone();
                o.insert(p % (2 * n + 2), Bx::new(p));
                m.append(&mut o);
            }
            8 => m.retain(|k, v| {
                *v.0 ^= p;
                k % (2 + p % 5) != 0
            }),
            9 => {
                for j in 0..4 {
                    let k = p.wrapping_mul(5 + j) % (2 * n + 2);
                    if let Some(v) = m.get_mut(&k) {
                        out.push((k, *v.0));
                        *v.0 = p;
                    }
                }
            }
            10 => m.clear(),
            _ => {
                let c = m.clone();
                drop(m);
                m = c;
                m.insert(p % (2 * n + 2), Bx::new(1));
            }
        }
        m.sound();
        (out, m.iter().map(|(k, v)| (*k, *v.0)).collect())
    }};
}
macro_rules! act_set {
    ($self:expr, $op:expr, $p:expr, $t:ty) => {{
        let (mut m, op, p): ($t, u32, u32) = ($self, $op, $p);
        let n = m.len() as u32;
        let g = |k: Bx| (*k.0, 0);
        let mut out: Vec<(u32, u32)> = vec![];
        match op {
            0 | 1 | 3 => return (m.into_iter().map(g).collect(), vec![]),
            2 => {
                let mut it = m.into_iter();
                for _ in 0..p % (n + 1) {
                    out.extend(it.next().map(g));
                }
                return (out, vec![]);
            }
            4 | 9 => {
                for j in 0..6 {
                    let k = p.wrapping_mul(7 + j) % (2 * n + 2);
                    out.push((k, m.insert(Bx::new(k)) as u32));
                    let k = p.wrapping_mul(11 + j) % (2 * n + 2);
                    out.extend(m.take(&Bx::new(k)).map(g));
                }
            }
            5 => {
                for j in 0..2 + p % (n + 1) {
                    out.extend(if (p >> (j % 16)) & 1 == 0 { m.pop_first().map(g) } else { m.pop_last().map(g) });
                }
            }
            6 => out = m.split_off(&Bx::new(p % (2 * n + 2))).into_iter().map(g).collect(),
            7 => {
                let mut o = m.clone();
                o.insert(Bx::new(p % (2 * n + 2)));
                m.append(&mut o);
            }
            8 => m.retain(|k| *k.0 % (2 + p % 5) != 0),
            10 => m.clear(),
            _ => {
                let c = m.clone();
                drop(m);
                m = c;
                m.insert(Bx::new(p % (2 * n + 2)));
            }
        }
        m.sound();
        (out, m.iter().map(|k| (*k.0, 0)).collect())
    }};
}
macro_rules! act_fixed {
    ($self:expr, $op:expr, $p:expr, $t:ty) => {{
        let (mut m, op, p): ($t, u32, u32) = ($self, $op, $p);
        let n = m.len() as u32;
        let g = |(k, v): (u32, Bx)| (k, *v.0);
        let mut out: Vec<(u32, u32)> = vec![];
        match op {
            0 | 7 => return (m.into_iter().map(g).collect(), vec![]),
            1 | 8 => return (m.into_iter().rev().map(g).collect(), vec![]),
            2 | 6 => {
                let mut it = m.into_iter();
                for j in 0..p % (n + 1) {
                    out.extend(if (p >> (j % 16)) & 1 == 0 { it.next().map(g) } else { it.next_back().map(g) });
                }
                return (out, vec![]);
            }
            3 => m.iter_mut().for_each(|(k, v)| *v.0 = *k ^ p),
            4 | 5 => {
                for j in 0..6 {
                    let k = p.wrapping_mul(7 + j) % (2 * n + 2);
                    out.extend(m.insert(k, Bx::new(p + j)).map(|v| (k, *v.0)));
                    let k = p.wrapping_mul(11 + j) % (2 * n + 2);
                    out.extend(m.remove(&k).map(|v| (k, *v.0)));
                }
            }
            9 => {
                for j in 0..4 {
                    let k = p.wrapping_mul(5 + j) % (2 * n + 2);
                    if let Some(v) = m.get_mut(&k) {
                        out.push((k, *v.0));
                        *v.0 = p;
                    }
                }
            }
            10 => m.clear(),
            _ => {
                let c = m.clone();
                drop(m);
                m = c;
                m.insert(p % (2 * n + 2), Bx::new(1));
            }
        }
        m.sound();
        (out, m.iter().map(|(k, v)| (*k, *v.0)).collect())
    }};
}
type StdM = std::collections::BTreeMap<u32, Bx>;
type StdS = std::collections::BTreeSet<Bx>;
macro_rules! herd {
    ($t:ty, $name:literal, $act:ident, $gaze:ident, $own:expr, $std:ty, $mk:expr, $pair:expr) => {
        impl Herd for $t {
            const NAME: &'static str = $name;
            fn build(n: u32) -> Self {
                (0..n).map(|k| $mk(2 * k)).collect()
            }
            fn act(self, op: u32, p: u32) -> Out {
                $act!(self, op, p, $t)
            }
            fn own(&mut self, k: u32) {
                let f: fn(&mut $t, u32) = $own;
                f(self, k)
            }
            fn list(&self) -> Vec<(u32, u32)> {
                self.iter().map($pair).collect()
            }
            fn model(n: u32, op: u32, p: u32) -> Out {
                let m: $std = (0..n).map(|k| $mk(2 * k)).collect();
                $act!(m, op, p, $std)
            }
            fn gaze(&self, p: u32) -> Vec<(u32, u32)> {
                $gaze!(self, p)
            }
            fn gaze_model(n: u32, p: u32) -> Vec<(u32, u32)> {
                let m: $std = (0..n).map(|k| $mk(2 * k)).collect();
                $gaze!(&m, p)
            }
        }
    };
}
fn mk_kv(k: u32) -> (u32, Bx) {
    (k, Bx::new(k))
}
herd!(lazy_clone_collections::AvlMap<u32, Bx>, "stampede: AvlMap", act_map, gaze_map, |m, k| {
    m.get_mut(&k);
}, StdM, mk_kv, |(k, v)| (*k, *v.0));
herd!(lazy_clone_collections::btree::BTreeMap<u32, Bx, 1>, "stampede: BTreeMap<1>", act_map, gaze_map, |m, k| {
    m.get_mut(&k);
}, StdM, mk_kv, |(k, v)| (*k, *v.0));
herd!(lazy_clone_collections::btree::BTreeMap<u32, Bx, 3>, "stampede: BTreeMap<3>", act_map, gaze_map, |m, k| {
    m.get_mut(&k);
}, StdM, mk_kv, |(k, v)| (*k, *v.0));
herd!(lazy_clone_collections::AvlSet<Bx>, "stampede: AvlSet", act_set, gaze_set, |m, k| {
    m.replace(Bx::new(k));
}, StdS, Bx::new, |k| (*k.0, 0));
herd!(lazy_clone_collections::btree::btree_set::BTreeSet<Bx, 2>, "stampede: BTreeSet<2>", act_set, gaze_set, |m, k| {
    m.replace(Bx::new(k));
}, StdS, Bx::new, |k| (*k.0, 0));
herd!(lazy_clone_collections::btree::fixed::BTreeMap<u32, Bx>, "stampede: fixed::BTreeMap", act_fixed, gaze_fixed, |m, k| {
    m.get_mut(&k);
}, StdM, mk_kv, |(k, v)| (*k, *v.0));

struct SpinBarrier(AtomicU32, u32);
impl SpinBarrier {
    fn wait(&self, round: u32) {
        self.0.fetch_add(1, AcqRel);
        let mut k = 0;
        while self.0.load(Acquire) < (round + 1) * self.1 {
            k += 1;
            if k > 3000 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
}

fn stampede<H: Herd>(src: &mut Src, ctx: &mut Ctx) {
    send_checks();
    ctx.label(H::NAME);
    let mini = crate::engine::mini();
    let nt = 2 + if mini { 0 } else { src.weighted(&[6, 2, 1]) };
    let n = if mini { if src.chance(225) { src.range(1, 5) } else { src.range(6, 40) } } else { draw_size(src, &[(2, 1, 6), (5, 7, 60), (2, 61, 250)]) };
    let rounds = if mini { 1 } else { 6 * REPEAT.load(Relaxed) };
    src.plan(&[if mini { (3, 10) } else { (1, 4) }]);
    let mut steps = vec![];
    while src.next_op() {
        let same = src.chance(190);
        let op = src.below(ACTS.len() as u32);
        let p = src.u16();
        // under Miri: whether one thread (which?) starts after the other has
        // ended, with nothing but the reference counts to put the two in order
        let late = if mini { [None, Some(0), Some(1)][src.weighted(&[2, 3, 3])] } else { None };
        let ops: Vec<u32> = (0..nt)
            .map(|t| match src.chance(if late == Some(1 - t.min(1)) { 150 } else { 40 }) {
                true => READ,
                false if same => op,
                false => src.below(ACTS.len() as u32),
            })
            .collect();
        // how many paths each copy owns when the threads start, and whether
        // they are the same ones in each copy
        let paths = src.weighted(if mini { &[6, 2, 1, 0, 0] } else { &[2, 2, 2, 2, 1] }) as u32;
        let paths = if paths == 4 { 12 } else { paths };
        let alike = src.chance(128);
        ctx.t(|| format!("{nt} threads at once, on clones of {} of {n}: {:?}, parameter {p}, {paths} paths unshared (alike: {alike}), {rounds} times", H::NAME, ops.iter().map(|&o| act_name(o)).collect::<Vec<_>>()));
        // whether a copy stays behind: without one, the threads are all the owners
        let keep = src.chance(80);
        let ex: Vec<Out> = ops.iter().map(|&o| if o == READ { (vec![], H::gaze_model(n, p)) } else { H::model(n, o, p) }).collect();
        steps.push((ops, p, keep, ex, paths, alike, late));
    }
    let count = LIVE.with(|l| l.get());
    let live0 = count.load(SeqCst);
    let mut parts: Vec<Vec<H>> = (0..nt).map(|_| vec![]).collect();
    let mut kept = vec![];
    for (_, p, keep, _, paths, alike, _) in &steps {
        for r in 0..rounds {
            let b = H::build(n);
            if *keep && r % 2 == 0 {
                kept.push(b.clone());
            }
            for v in parts.iter_mut().skip(1) {
                v.push(b.clone());
            }
            parts[0].push(b);
            for (t, v) in parts.iter_mut().enumerate() {
                let m = v.last_mut().unwrap();
                for j in 0..*paths {
                    m.own(2 * (mix((*p + j) as u64 * 5 + if *alike { 0 } else { t as u64 }) as u32 % n));
                }
            }
        }
    }
    let bar = SpinBarrier(AtomicU32::new(0), nt as u32);
    let ended: Vec<AtomicU32> = (0..nt).map(|_| AtomicU32::new(0)).collect();
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for (t, list) in parts.into_iter().enumerate() {
            let pack = Sendy(list);
            let (bar, errs, steps, ended) = (&bar, &errs, &steps, &ended);
            sc.spawn(move || {
                LIVE.with(|l| l.set(count));
                let mut list = pack.get().into_iter();
                let mut k = 0;
                for (ops, p, _, ex, _, _, late) in steps {
                    for _ in 0..rounds {
                        let m = list.next().unwrap();
                        bar.wait(k);
                        k += 1;
                        while *late == Some(t) && ended[1 - t].load(Relaxed) < k {
                            std::thread::yield_now();
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| if ops[t] == READ { (vec![], m.gaze(*p)) } else { m.act(ops[t], *p) }));
                        // (not a synchronisation)
                        ended[t].store(k, Relaxed);
                        let e = match r {
                            Ok(got) if got == ex[t] => continue,
                            Ok(got) => format!("gives {:?}\n expected {:?}", got, ex[t]),
                            Err(_) => last_panic(),
                        };
                        errs.lock().unwrap_or_else(|e| e.into_inner()).push(format!(
                            "thread {t}, {} on its own clone while the other threads work on theirs: {e}",
                            act_name(ops[t])
                        ));
                    }
                }
            });
        }
    });
    if let Some(e) = errs.lock().unwrap_or_else(|e| e.into_inner()).first() {
        fail!("{e}");
    }
    let whole = H::build(n).list();
    for m in &kept {
        ensure!(m.list() == whole, "the copy that stayed behind has changed");
    }
    drop(kept);
    let live = count.load(SeqCst);
    ensure!(live == live0, "{} elements too many ({} if negative: dropped twice) once all copies are gone", live - live0, live - live0);
    ctx.nontrivial |= steps.iter().any(|s| s.0.iter().any(|&o| o != 10 && o != READ));
}

/// all threads start at once on one collection that they share by reference:
/// some read it, some clone it and work on their clone
fn gallery<H: Herd>(src: &mut Src, ctx: &mut Ctx) {
    send_checks();
    ctx.label("gallery: threads share a reference");
    ctx.label(H::NAME);
    let mini = crate::engine::mini();
    let nt = 2 + if mini { 0 } else { src.weighted(&[6, 2, 1]) };
    let n = if mini { src.range(1, 40) } else { draw_size(src, &[(2, 1, 6), (5, 7, 60), (2, 61, 250)]) };
    let rounds = if mini { 1 } else { 3 * REPEAT.load(Relaxed) };
    src.plan(&[(1, 4)]);
    struct Step {
        /// per thread: None reads, Some(op) clones and works on the clone
        ops: Vec<Option<u32>>,
        p: u32,
        ex: Vec<Out>,
    }
    let mut steps = vec![];
    while src.next_op() {
        let p = src.u16() as u32;
        let ops: Vec<Option<u32>> =
            (0..nt).map(|_| if src.chance(150) { None } else { Some(src.below(ACTS.len() as u32)) }).collect();
        let ex = ops
            .iter()
            .map(|o| match o {
                None => (vec![], H::gaze_model(n, p)),
                Some(o) => H::model(n, *o, p),
            })
            .collect();
        ctx.t(|| {
            let l: Vec<&str> = ops.iter().map(|o| o.map_or("read", |o| ACTS[o as usize])).collect();
            format!("{nt} threads share a reference to {} of {n}, at once: {l:?}, parameter {p}, {rounds} times", H::NAME)
        });
        steps.push(Step { ops, p, ex });
    }
    let count = LIVE.with(|l| l.get());
    let live0 = count.load(SeqCst);
    let bases: Vec<H> = (0..steps.len() as u32 * rounds).map(|_| H::build(n)).collect();
    let bar = SpinBarrier(AtomicU32::new(0), nt as u32);
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let pack = Sendy(&bases);
            let (bar, errs, steps) = (&bar, &errs, &steps);
            sc.spawn(move || {
                LIVE.with(|l| l.set(count));
                let mut bases = pack.get().iter();
                let mut k = 0;
                for s in steps {
                    for _ in 0..rounds {
                        let m: &H = bases.next().unwrap();
                        bar.wait(k);
                        k += 1;
                        let r = catch_unwind(AssertUnwindSafe(|| match s.ops[t] {
                            None => (vec![], m.gaze(s.p)),
                            Some(o) => m.clone().act(o, s.p),
                        }));
                        let e = match r {
                            Ok(got) if got == s.ex[t] => continue,
                            Ok(got) => format!("gives {:?}\n expected {:?}", got, s.ex[t]),
                            Err(_) => last_panic(),
                        };
                        errs.lock().unwrap_or_else(|e| e.into_inner()).push(format!(
                            "thread {t}, {} while other threads read and clone the same collection: {e}",
                            s.ops[t].map_or("reading", |o| ACTS[o as usize])
                        ));
                    }
                }
            });
        }
    });
    if let Some(e) = errs.lock().unwrap_or_else(|e| e.into_inner()).first() {
        fail!("{e}");
    }
    let whole = H::build(n).list();
    for m in &bases {
        ensure!(m.list() == whole, "the collection that was only read and cloned has changed");
    }
    drop(bases);
    let live = count.load(SeqCst);
    ensure!(live == live0, "{} elements too many ({} if negative: dropped twice) once all copies are gone", live - live0, live - live0);
    ctx.nontrivial |= steps.iter().any(|s| s.ops.iter().any(|o| o.is_some()));
}

/// stampedes only (for Miri, which finds data races whatever the schedule)
pub fn run_mini(src: &mut Src, ctx: &mut Ctx) {
    use lazy_clone_collections as l;
    macro_rules! either {
        ($t:ty) => {
            if src.chance(if crate::engine::mini() { 215 } else { 170 }) { stampede::<$t>(src, ctx) } else { gallery::<$t>(src, ctx) }
        };
    }
    match src.below(6) {
        0 => either!(l::AvlMap<u32, Bx>),
        1 => either!(l::btree::BTreeMap<u32, Bx, 1>),
        2 => either!(l::btree::BTreeMap<u32, Bx, 3>),
        3 => either!(l::AvlSet<Bx>),
        4 => either!(l::btree::btree_set::BTreeSet<Bx, 2>),
        _ => either!(l::btree::fixed::BTreeMap<u32, Bx>),
    }
}

pub fn run(src: &mut Src, ctx: &mut Ctx) {
    match src.weighted(&[4, 5, 2, 2, 4, 5]) {
        5 => run_mini(src, ctx),
        0 => go::<Maps<AMap>>(src, ctx),
        1 => match src.below(3) {
            0 => go::<Maps<BMap<1>>>(src, ctx),
            1 => go::<Maps<BMap<2>>>(src, ctx),
            _ => go::<Maps<BMap<5>>>(src, ctx),
        },
        2 => go::<Sets<ASet>>(src, ctx),
        3 => {
            if src.chance(128) {
                go::<Sets<BSet<1>>>(src, ctx)
            } else {
                go::<Sets<BSet<5>>>(src, ctx)
            }
        }
        _ => {
            if src.chance(128) {
                go::<Fixed<Tk8, Tv>>(src, ctx)
            } else {
                go::<Fixed<Tk, Tv>>(src, ctx)
            }
        }
    }
}
