//! Instrumented element types.
//!
//! Every `Tk` (key) and `Tv` (value) instance is registered in a thread-local
//! table with a fresh id when it is created or cloned and is struck off when it
//! is dropped.  Dropping twice, touching a dropped or never-initialised
//! instance, and instances left over at the end of a case are recorded as
//! errors.  Clones and comparisons are counted and can be made to panic.

use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicBool, Ordering::{Acquire, Relaxed, Release}};
use crate::threads::point;

const CANARY: u32 = 0x5AFE_C0DE;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    Clone(u64),
    Cmp(u64),
    Call(u64),
    Drop(u64),
}

pub struct Injected;

/// How comparisons misbehave (C21).  `Honest` everywhere else.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lie {
    Honest,
    /// with probability p/256, an arbitrary answer
    Random(u8),
    /// always the same answer
    Always(Ordering),
    Reversed,
    /// keys are compared modulo m
    Mod(i32),
    /// keys divisible by m are greater than everything, themselves included
    Odd(i32),
    /// rock, paper, scissors: a cycle among residues modulo 3
    Cycle,
}
/// a small deterministic generator for the lies
fn spin(x: &mut u64) -> u64 {
    *x ^= *x << 13;
    *x ^= *x >> 7;
    *x ^= *x << 17;
    *x
}
/// what a comparison of a and b answers
#[inline]
pub fn compare(a: i32, b: i32) -> Ordering {
    let honest = a.cmp(&b);
    #[cfg(feature = "C21")]
    return reg(|r| match r.lie {
        Lie::Honest => honest,
        Lie::Random(p) => {
            let x = spin(&mut r.dice);
            if (x >> 8) as u8 >= p {
                return honest;
            }
            r.lies += 1;
            [Ordering::Less, Ordering::Equal, Ordering::Greater][(x >> 20) as usize % 3]
        }
        l => {
            let o = match l {
                Lie::Always(o) => o,
                Lie::Reversed => honest.reverse(),
                Lie::Mod(m) => a.rem_euclid(m).cmp(&b.rem_euclid(m)),
                Lie::Odd(m) if a % m == 0 || b % m == 0 => Ordering::Greater,
                Lie::Cycle => match (a - b).rem_euclid(3) {
                    0 => honest,
                    1 => Ordering::Greater,
                    _ => Ordering::Less,
                },
                _ => honest,
            };
            r.lies += (o != honest) as u64;
            o
        }
    });
    #[cfg(not(feature = "C21"))]
    honest
}
/// the key a clone of key k gets
#[inline]
fn copied(k: i32) -> i32 {
    #[cfg(feature = "C21")]
    return reg(|r| {
        if r.forge > 0 {
            let x = spin(&mut r.dice);
            if ((x >> 8) as u8) < r.forge {
                r.lies += 1;
                return k.wrapping_add((x >> 30) as i32 % 16 - 8);
            }
        }
        k
    });
    #[cfg(not(feature = "C21"))]
    k
}

pub struct Reg {
    live: Vec<bool>,
    pub nlive: usize,
    pub clones: u64,
    pub cmps: u64,
    pub calls: u64,
    pub drops: u64,
    pub err: Option<String>,
    pub fault: Fault,
    pub fired: bool,
    pub cmp_limit: u64,
    pub leak_ok: bool,
    pub zst: i64,
    #[cfg(feature = "C21")]
    pub lie: Lie,
    /// clones get another key with probability forge/256
    #[cfg(feature = "C21")]
    pub forge: u8,
    #[cfg(feature = "C21")]
    pub lies: u64,
    #[cfg(feature = "C21")]
    pub dice: u64,
}

struct RegCell(UnsafeCell<Reg>);

thread_local! {
    static REG: RegCell = const { RegCell(UnsafeCell::new(Reg {
        live: Vec::new(), nlive: 0, clones: 0, cmps: 0, calls: 0, drops: 0,
        err: None, fault: Fault::None, fired: false, cmp_limit: u64::MAX,
        leak_ok: false, zst: 0,
        #[cfg(feature = "C21")] lie: Lie::Honest,
        #[cfg(feature = "C21")] forge: 0,
        #[cfg(feature = "C21")] lies: 0,
        #[cfg(feature = "C21")] dice: 1,
    }))};
}

thread_local! {
    /// another thread's registry, and the lock to take for it (if any)
    static LINK: std::cell::Cell<(*mut Reg, *const AtomicBool)> =
        const { std::cell::Cell::new((std::ptr::null_mut(), std::ptr::null())) };
}
/// use the registry of another thread from now on (null: our own again); the
/// lock is null when only one thread runs at a time
pub fn share(r: *mut Reg, lock: *const AtomicBool) {
    LINK.with(|l| l.set((r, lock)))
}
pub fn reg_ptr() -> *mut Reg {
    REG.with(|r| r.0.get())
}

/// SAFETY: the closure must not re-enter `reg` (all callers are leaf code)
#[inline]
pub fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    let (p, lock) = LINK.with(|l| l.get());
    if p.is_null() {
        return REG.with(|r| f(unsafe { &mut *r.0.get() }));
    }
    if lock.is_null() {
        return f(unsafe { &mut *p });
    }
    let lock = unsafe { &*lock };
    while lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop()
    }
    let r = f(unsafe { &mut *p });
    lock.store(false, Release);
    r
}

impl Reg {
    #[inline]
    fn add(&mut self) -> u32 {
        let id = self.live.len() as u32;
        if self.live.len() == self.live.capacity() {
            crate::heap::muted(|| self.live.reserve(64));
        }
        self.live.push(true);
        self.nlive += 1;
        id
    }
    #[cold]
    fn bad(&mut self, what: &str, id: u32, canary: u32) {
        if self.err.is_none() {
            self.err = Some(if canary != CANARY {
                format!("{what}: element memory is not initialised or corrupted")
            } else {
                format!("{what}: element #{id} has already been dropped")
            });
        }
    }
    #[inline]
    fn chk(&mut self, what: &str, id: u32, canary: u32) {
        if canary != CANARY || !self.live.get(id as usize).copied().unwrap_or(false) {
            self.bad(what, id, canary);
        }
    }
    #[inline]
    fn del(&mut self, what: &str, id: u32, canary: u32) {
        self.chk(what, id, canary);
        if canary == CANARY {
            if let Some(l) = self.live.get_mut(id as usize) {
                if *l {
                    *l = false;
                    self.nlive -= 1;
                    self.drops += 1;
                }
            }
        }
    }
}

pub fn begin_case() {
    reset();
}
pub fn reset() {
    reg(|r| {
        r.live.clear();
        r.nlive = 0;
        r.clones = 0;
        r.cmps = 0;
        r.calls = 0;
        r.drops = 0;
        r.err = None;
        r.fault = Fault::None;
        r.fired = false;
        r.cmp_limit = u64::MAX;
        r.leak_ok = false;
        r.zst = 0;
        #[cfg(feature = "C21")]
        {
            (r.lie, r.forge, r.lies, r.dice) = (Lie::Honest, 0, 0, 1);
        }
    })
}
/// forget everything but the settings; used between the passes of one case
pub fn restart() {
    let l = reg(|r| r.leak_ok);
    check_errs("end of a pass");
    reset();
    reg(|r| r.leak_ok = l);
}
pub fn end_case() -> Result<(), String> {
    reg(|r| {
        if let Some(e) = r.err.take() {
            Err(e)
        } else if r.zst != 0 && !(r.leak_ok && r.zst > 0) {
            Err(format!("zero-sized elements: {} more created than dropped", r.zst))
        } else if r.nlive != 0 && !r.leak_ok {
            Err(format!("{} element(s) were never dropped (leak)", r.nlive))
        } else {
            Ok(())
        }
    })
}
pub fn check_errs(what: &str) {
    if let Some(e) = reg(|r| r.err.take()) {
        crate::fail!("{what}: {e}");
    }
}
pub fn clones() -> u64 {
    reg(|r| r.clones)
}
pub fn cmps() -> u64 {
    reg(|r| r.cmps)
}
pub fn live() -> usize {
    reg(|r| r.nlive)
}
pub fn arm(f: Fault) {
    reg(|r| {
        r.fault = f;
        r.fired = false;
    })
}
/// disarm; returns whether the fault fired
pub fn disarm() -> bool {
    reg(|r| {
        r.fault = Fault::None;
        std::mem::take(&mut r.fired)
    })
}

pub fn zst(d: i64) {
    reg(|r| r.zst += d)
}
pub fn reg_add() -> u32 {
    reg(|r| r.add())
}
pub fn reg_chk(what: &str, id: u32) {
    reg(|r| r.chk(what, id, CANARY))
}
pub fn reg_del(what: &str, id: u32) {
    point();
    reg(|r| r.del(what, id, CANARY));
    on_drop()
}

#[inline]
pub fn on_clone() {
    point();
    let boom = reg(|r| {
        r.clones += 1;
        match &mut r.fault {
            Fault::Clone(0) => {
                r.fault = Fault::None;
                r.fired = true;
                true
            }
            Fault::Clone(n) => {
                *n -= 1;
                false
            }
            _ => false,
        }
    });
    if boom {
        std::panic::resume_unwind(Box::new(Injected));
    }
}
#[inline]
pub fn on_cmp() {
    point();
    let (boom, over) = reg(|r| {
        r.cmps += 1;
        let b = match &mut r.fault {
            Fault::Cmp(0) => {
                r.fault = Fault::None;
                r.fired = true;
                true
            }
            Fault::Cmp(n) => {
                *n -= 1;
                false
            }
            _ => false,
        };
        (b, r.cmps > r.cmp_limit)
    });
    if boom {
        std::panic::resume_unwind(Box::new(Injected));
    }
    if over {
        reg(|r| r.cmp_limit = u64::MAX);
        crate::fail!("operation makes an unbounded number of comparisons");
    }
}
/// a user's Drop may panic too (never twice at once)
#[inline]
pub fn on_drop() {
    let boom = reg(|r| match &mut r.fault {
        Fault::Drop(0) if std::thread::panicking() => false,
        Fault::Drop(0) => {
            r.fault = Fault::None;
            r.fired = true;
            true
        }
        Fault::Drop(n) => {
            *n -= 1;
            false
        }
        _ => false,
    });
    if boom {
        std::panic::resume_unwind(Box::new(Injected));
    }
}
/// to be called by user closures passed to the library
#[inline]
pub fn on_call() {
    let boom = reg(|r| {
        r.calls += 1;
        match &mut r.fault {
            Fault::Call(0) => {
                r.fault = Fault::None;
                r.fired = true;
                true
            }
            Fault::Call(n) => {
                *n -= 1;
                false
            }
            _ => false,
        }
    });
    if boom {
        std::panic::resume_unwind(Box::new(Injected));
    }
}

/// The borrowed form of a key, used for queries.
#[repr(transparent)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Qk(pub i32);
impl Ord for Qk {
    #[inline]
    fn cmp(&self, o: &Self) -> Ordering {
        on_cmp();
        compare(self.0, o.0)
    }
}
impl PartialOrd for Qk {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

pub struct Tk {
    k: Qk,
    pub tag: u32,
    id: u32,
    canary: u32,
}
impl Tk {
    pub fn new(k: i32, tag: u32) -> Self {
        Tk {
            k: Qk(k),
            tag,
            id: reg(|r| r.add()),
            canary: CANARY,
        }
    }
    #[inline]
    pub fn k(&self) -> i32 {
        self.chk("reading a key");
        self.k.0
    }
    #[inline]
    fn chk(&self, what: &str) {
        reg(|r| r.chk(what, self.id, self.canary))
    }
    pub fn pair(&self) -> (i32, u32) {
        (self.k(), self.tag)
    }
}
impl Clone for Tk {
    fn clone(&self) -> Self {
        self.chk("cloning a key");
        on_clone();
        Tk::new(copied(self.k.0), self.tag)
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        point();
        reg(|r| r.del("dropping a key", self.id, self.canary));
        self.canary = 0xDEAD_0001;
        on_drop();
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Self) -> bool {
        self.chk("comparing a key");
        o.chk("comparing a key");
        self.k == o.k
    }
}
impl Eq for Tk {}
impl Ord for Tk {
    #[inline]
    fn cmp(&self, o: &Self) -> Ordering {
        self.chk("comparing a key");
        o.chk("comparing a key");
        self.k.cmp(&o.k)
    }
}
impl PartialOrd for Tk {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl std::hash::Hash for Tk {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.chk("hashing a key");
        self.k.hash(h)
    }
}
impl Borrow<Qk> for Tk {
    #[inline]
    fn borrow(&self) -> &Qk {
        self.chk("borrowing a key");
        &self.k
    }
}
impl std::fmt::Debug for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.chk("formatting a key");
        write!(f, "{}", self.k.0)
    }
}

pub struct Tv {
    v: u32,
    id: u32,
    canary: u32,
}
impl Tv {
    pub fn new(v: u32) -> Self {
        Tv {
            v,
            id: reg(|r| r.add()),
            canary: CANARY,
        }
    }
    #[inline]
    fn chk(&self, what: &str) {
        reg(|r| r.chk(what, self.id, self.canary))
    }
    #[inline]
    pub fn v(&self) -> u32 {
        self.chk("reading a value");
        self.v
    }
    #[inline]
    pub fn set(&mut self, v: u32) {
        self.chk("writing a value");
        self.v = v
    }
}
impl Default for Tv {
    fn default() -> Self {
        Tv::new(0)
    }
}
impl Clone for Tv {
    fn clone(&self) -> Self {
        self.chk("cloning a value");
        on_clone();
        Tv::new(self.v)
    }
}
impl Drop for Tv {
    fn drop(&mut self) {
        point();
        reg(|r| r.del("dropping a value", self.id, self.canary));
        self.canary = 0xDEAD_0002;
        on_drop();
    }
}
impl PartialEq for Tv {
    fn eq(&self, o: &Self) -> bool {
        self.chk("comparing a value");
        o.chk("comparing a value");
        self.v == o.v
    }
}
impl Eq for Tv {}
impl Ord for Tv {
    fn cmp(&self, o: &Self) -> Ordering {
        self.chk("comparing a value");
        o.chk("comparing a value");
        on_cmp();
        self.v.cmp(&o.v)
    }
}
impl PartialOrd for Tv {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl std::hash::Hash for Tv {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.chk("hashing a value");
        self.v.hash(h)
    }
}
impl std::fmt::Debug for Tv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.chk("formatting a value");
        write!(f, "{}", self.v)
    }
}
