//! A small choice-sequence property-testing engine.
//!
//! A case is a header record plus a list of operation records, each a byte
//! string.  Property code draws all its choices from a `Src`; in generation
//! mode the bytes come from a seeded PRNG and are recorded, in replay mode they
//! come from the case (zeros once a record is used up).  Shrinking deletes
//! records and lowers bytes, and re-runs the property on the result, so every
//! shrunk case is again a legal input of the property.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Case {
    pub hdr: Vec<u8>,
    pub ops: Vec<Vec<u8>>,
}

impl Case {
    pub fn hash(&self) -> u64 {
        let mut h = 0x1234_5678u64;
        let mut eat = |bs: &[u8], sep: u64| {
            let mut acc = sep.wrapping_add(bs.len() as u64);
            for c in bs.chunks(8) {
                let mut b = [0u8; 8];
                b[..c.len()].copy_from_slice(c);
                acc = mix(acc ^ u64::from_le_bytes(b));
            }
            h = mix(h ^ acc);
        };
        eat(&self.hdr, 1);
        for o in &self.ops {
            eat(o, 2);
        }
        h
    }

    pub fn to_text(&self, prop: &str, comment: &str) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property {prop}");
        let hex = |b: &[u8]| {
            b.iter().map(|x| format!("{x:02x}")).collect::<String>()
        };
        let _ = writeln!(s, "hdr {}", hex(&self.hdr));
        for o in &self.ops {
            let _ = writeln!(s, "op {}", hex(o));
        }
        for l in comment.lines() {
            let _ = writeln!(s, "# {l}");
        }
        s
    }

    pub fn from_text(t: &str) -> Option<(String, Case)> {
        let mut prop = String::new();
        let mut c = Case::default();
        let unhex = |h: &str| -> Vec<u8> {
            (0..h.len() / 2)
                .filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                .collect()
        };
        for l in t.lines() {
            let mut it = l.split_whitespace();
            match it.next() {
                Some("property") => prop = it.next()?.to_string(),
                Some("hdr") => c.hdr = unhex(it.next().unwrap_or("")),
                Some("op") => c.ops.push(unhex(it.next().unwrap_or(""))),
                _ => (),
            }
        }
        Some((prop, c))
    }

    /// Decode raw fuzzer bytes: 24 bytes of header, 12-byte operation records.
    pub fn from_bytes(b: &[u8]) -> Case {
        let h = b.len().min(24);
        Case {
            hdr: b[..h].to_vec(),
            ops: b[h..].chunks(12).map(|c| c.to_vec()).collect(),
        }
    }
}

enum Mode {
    Gen { rng: Rng, left: usize },
    Replay { next: usize },
}

pub struct Src {
    mode: Mode,
    pub case: Case,
    cur: usize, // 0 = header, i+1 = op i
    pos: usize,
    dump: Option<std::fs::File>,
}

impl Src {
    pub fn gen(seed: u64) -> Self {
        Src {
            mode: Mode::Gen {
                rng: Rng::new(seed),
                left: 0,
            },
            case: Case::default(),
            cur: 0,
            pos: 0,
            dump: None,
        }
    }
    pub fn replay(case: Case) -> Self {
        Src {
            mode: Mode::Replay { next: 0 },
            case,
            cur: 0,
            pos: 0,
            dump: None,
        }
    }
    /// record every byte to a file as it is drawn (used to capture crashes)
    pub fn dump_to(&mut self, f: std::fs::File) {
        use std::io::Write;
        let mut f = f;
        let _ = f.write_all(b"hdr ");
        self.dump = Some(f);
    }
    pub fn is_gen(&self) -> bool {
        matches!(self.mode, Mode::Gen { .. })
    }

    pub fn byte(&mut self) -> u8 {
        match &mut self.mode {
            Mode::Gen { rng, .. } => {
                let b = (rng.next() >> 33) as u8;
                if self.cur == 0 {
                    self.case.hdr.push(b);
                } else {
                    self.case.ops[self.cur - 1].push(b);
                }
                if let Some(f) = self.dump.as_mut() {
                    use std::io::Write;
                    let _ = f.write_all(format!("{b:02x}").as_bytes());
                }
                b
            }
            Mode::Replay { .. } => {
                let rec: &[u8] = if self.cur == 0 {
                    &self.case.hdr
                } else {
                    &self.case.ops[self.cur - 1]
                };
                let b = rec.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                b
            }
        }
    }

    pub fn u16(&mut self) -> u32 {
        (self.byte() as u32) << 8 | self.byte() as u32
    }

    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            0
        } else if n <= 256 {
            self.byte() as u32 % n
        } else if n <= 65536 {
            self.u16() % n
        } else {
            (self.u16() << 16 | self.u16()) % n
        }
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// true with probability num/256; zero byte means false
    pub fn chance(&mut self, num: u32) -> bool {
        (self.byte() as u32) >= 256 - num
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = if total <= 128 { self.below(total) } else { self.u16() % total };
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        0
    }

    /// Generation only: decide how many operation records the case gets.
    /// `lens` are (weight, max) classes.
    pub fn plan(&mut self, lens: &[(u32, u32)]) {
        if let Mode::Gen { rng, left } = &mut self.mode {
            let total: u64 = lens.iter().map(|l| l.0 as u64).sum();
            let mut x = rng.below(total);
            for &(w, max) in lens {
                if x < w as u64 {
                    let max = if mini() { max.min(14) } else { max };
                    *left = 1 + rng.below(max as u64) as usize;
                    return;
                }
                x -= w as u64;
            }
        }
    }

    /// position within the header, to start over from
    pub fn mark(&self) -> usize {
        if self.is_gen() {
            self.case.hdr.len()
        } else {
            self.pos
        }
    }
    pub fn seek(&mut self, pos: usize) {
        self.pos = pos
    }

    /// operation records still to come
    pub fn ops_left(&self) -> usize {
        match &self.mode {
            Mode::Gen { left, .. } => *left,
            Mode::Replay { next } => self.case.ops.len() - *next,
        }
    }

    pub fn next_op(&mut self) -> bool {
        match &mut self.mode {
            Mode::Gen { left, .. } => {
                if *left == 0 {
                    return false;
                }
                *left -= 1;
                self.case.ops.push(Vec::new());
                self.cur = self.case.ops.len();
                if let Some(f) = self.dump.as_mut() {
                    use std::io::Write;
                    let _ = f.write_all(b"\nop ");
                }
                true
            }
            Mode::Replay { next } => {
                if *next >= self.case.ops.len() {
                    return false;
                }
                *next += 1;
                self.cur = *next;
                self.pos = 0;
                true
            }
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub trace: Option<Vec<String>>,
    pub labels: Vec<(&'static str, u64)>,
    pub nontrivial: bool,
}

/// small sizes and short histories, for runs under an interpreter (Miri)
pub static MINI: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn mini() -> bool {
    MINI.load(std::sync::atomic::Ordering::Relaxed)
}

/// print the trace as it happens, so that a crash does not lose it
pub static LIVE_TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl Ctx {
    pub fn label(&mut self, s: &'static str) {
        self.label_n(s, 1)
    }
    pub fn label_n(&mut self, s: &'static str, n: u64) {
        for l in self.labels.iter_mut() {
            if std::ptr::eq(l.0, s) {
                l.1 += n;
                return;
            }
        }
        self.labels.push((s, n));
    }
    pub fn t<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(t) = self.trace.as_mut() {
            let l = f();
            if LIVE_TRACE.load(std::sync::atomic::Ordering::Relaxed) {
                println!("  {l}");
            } else {
                t.push(l);
            }
        }
    }
}

/// payload of a deliberate oracle failure
pub struct Failure(pub String);

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => {
        std::panic::resume_unwind(Box::new($crate::engine::Failure(format!($($a)*))))
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { $crate::fail!($($a)*); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { $crate::fail!("{}: got {:?}, expected {:?}", format!($($m)*), a, b); }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panicked at {loc}: {msg}");
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub type PropFn = fn(&mut Src, &mut Ctx);

pub struct Prop {
    pub id: &'static str,
    pub run: PropFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// elements left over at the end of a case are a violation too
    pub leaks: bool,
}

/// Run one case; None = held, Some(message) = violated
pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Option<String> {
    crate::track::begin_case();
    crate::track::reg(|r| r.leak_ok = !p.leaks);
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(src, ctx)));
    let out = match r {
        Ok(()) => crate::track::end_case().err().or_else(|| {
            // a quarter of the generated cases, and everything replayed (C20
            // uses several threads: its registries are compared instead)
            if p.leaks && p.id != "C20" && (!src.is_gen() || src.case.hash() % 4 == 0) {
                leftover(p, &src.case, ctx)
            } else {
                None
            }
        }),
        Err(e) => {
            let m = match e.downcast::<Failure>() {
                Ok(f) => f.0,
                Err(_) => last_panic(),
            };
            Some(m)
        }
    };
    crate::track::reset();
    out
}

/// Run the case again: is any heap memory left over at its end?  Only what is
/// left over every time counts (not, say, a buffer kept for later).
fn leftover(p: &Prop, case: &Case, ctx: &mut Ctx) -> Option<String> {
    ctx.label("heap balance checked");
    let mut left = (0, 0);
    for _ in 0..3 {
        crate::track::reset();
        crate::track::reg(|r| r.leak_ok = !p.leaks);
        let a = crate::heap::heap();
        let r = {
            let (mut src, mut ctx) = (Src::replay(case.clone()), Ctx::default());
            catch_unwind(AssertUnwindSafe(|| (p.run)(&mut src, &mut ctx)))
        };
        let b = crate::heap::heap();
        if let Err(e) = r {
            return Some(match e.downcast::<Failure>() {
                Ok(f) => f.0,
                Err(_) => last_panic(),
            });
        }
        left = (b.live - a.live, b.blocks - a.blocks);
        if left.0 <= 0 && left.1 <= 0 {
            return None;
        }
    }
    Some(format!("heap memory not released at the end of the case: {} bytes in {} blocks", left.0, left.1))
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ 0x5bd1);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(idx.wrapping_add(0x77)))
}

/// Shrink `case` while `test` keeps failing; at most `budget` runs.
pub fn shrink(
    mut case: Case,
    budget: usize,
    test: &mut dyn FnMut(&Case) -> bool,
) -> (Case, usize) {
    let mut runs = 0;
    let mut improved = true;
    let mut t = |c: &Case, runs: &mut usize| -> bool {
        *runs += 1;
        test(c)
    };
    while improved && runs < budget {
        improved = false;
        // delete chunks of operations
        let mut sz = case.ops.len();
        while sz >= 1 && runs < budget {
            let mut i = 0;
            while i < case.ops.len() && runs < budget {
                let mut c = case.clone();
                let end = (i + sz).min(c.ops.len());
                c.ops.drain(i..end);
                if t(&c, &mut runs) {
                    case = c;
                    improved = true;
                } else {
                    i += sz;
                }
            }
            sz /= 2;
        }
        // simplify bytes
        for r in 0..=case.ops.len() {
            let get = |c: &Case| -> Vec<u8> {
                if r == 0 {
                    c.hdr.clone()
                } else {
                    c.ops[r - 1].clone()
                }
            };
            let set = |c: &Case, v: Vec<u8>| -> Case {
                let mut c = c.clone();
                if r == 0 {
                    c.hdr = v
                } else {
                    c.ops[r - 1] = v
                }
                c
            };
            // truncate (trailing zeros are implied)
            let mut n = get(&case).len();
            while n > 0 && runs < budget {
                let half = n / 2;
                let mut v = get(&case);
                v.truncate(half);
                let c = set(&case, v);
                if t(&c, &mut runs) {
                    case = c;
                    improved = true;
                    n = half;
                } else {
                    break;
                }
            }
            let mut i = 0;
            while i < get(&case).len() && runs < budget {
                let b = get(&case)[i];
                // candidates: 0, halves, minus one
                let mut cands = vec![];
                if b > 0 {
                    cands.push(0);
                    let mut d = b / 2;
                    while d > 0 {
                        cands.push(b - d);
                        d /= 2;
                    }
                    cands.dedup();
                }
                for x in cands {
                    if runs >= budget {
                        break;
                    }
                    let mut v = get(&case);
                    v[i] = x;
                    let c = set(&case, v);
                    if t(&c, &mut runs) {
                        case = c;
                        improved = true;
                        break;
                    }
                }
                i += 1;
            }
            let mut v = get(&case);
            while v.last() == Some(&0) {
                v.pop();
            }
            case = set(&case, v);
        }
    }
    (case, runs)
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn absorb(&mut self, ctx: &Ctx) {
        for (l, n) in &ctx.labels {
            *self.labels.entry(l.to_string()).or_default() += n;
        }
    }
}
