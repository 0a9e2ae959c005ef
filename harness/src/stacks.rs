//! Model-based driver for Stack, and the deep-stack scenarios.

use crate::engine::{Ctx, Rng, Src};
use crate::maps::compare_laws;
use crate::track::{check_errs, clones, on_call, Tv};
use crate::{ensure, ensure_eq};
use crate::costs::lean;
use lazy_clone_collections::Stack;

pub struct StSlot {
    pub s: Stack<Tv>,
    pub md: Vec<u32>, // last = top
}

pub struct StDrv<'a> {
    pub src: &'a mut Src,
    pub ctx: &'a mut Ctx,
    pub slots: Vec<StSlot>,
    pub next: u32,
    pub step: usize,
    pub muts: u32,
    pub last_op: Option<Op>,
    pub shared: u32,
    pub max_len: usize,
    pub max_slots: usize,
    pub live: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Op {
    Push,
    Pop,
    Top,
    TopMut,
    Remove,
    SplitOff,
    BadIndex,
    Iter,
    IterMut,
    IntoIter,
    Contains,
    Clear,
    Extend,
    Build,
    CloneTo,
    DropOne,
    Compare,
    Join,
}
use Op::*;
pub const NOPS: usize = 18;
pub const OPS: [Op; NOPS] = [
    Push, Pop, Top, TopMut, Remove, SplitOff, BadIndex, Iter, IterMut, IntoIter, Contains, Clear,
    Extend, Build, CloneTo, DropOne, Compare, Join,
];
pub type StWeights = [u32; NOPS];
pub fn stweights(l: &[(Op, u32)]) -> StWeights {
    let mut w = [0; NOPS];
    for &(o, x) in l {
        w[o as usize] = x;
    }
    w
}

pub fn sview(md: &[u32]) -> String {
    if md.len() <= 12 {
        format!("{md:?}")
    } else {
        format!("[{} elements, top {}]", md.len(), md[md.len() - 1])
    }
}

pub fn verify_stack(s: &Stack<Tv>, md: &[u32], when: &dyn Fn() -> String) {
    if s.len() != md.len() {
        crate::fail!("{}: len() is {}, expected {}", when(), s.len(), md.len());
    }
    if s.is_empty() != md.is_empty() {
        crate::fail!("{}: is_empty() is {}", when(), s.is_empty());
    }
    let mut it = s.iter();
    for (i, e) in md.iter().rev().enumerate() {
        match it.next() {
            Some(x) => {
                if x.v() != *e {
                    crate::fail!("{}: element {i} from the top is {}, expected {e}", when(), x.v());
                }
            }
            None => crate::fail!("{}: only {i} elements, expected {}", when(), md.len()),
        }
    }
    for _ in 0..2 {
        if let Some(x) = it.next() {
            crate::fail!("{}: extra element {}", when(), x.v());
        }
    }
    if s.top().map(|x| x.v()) != md.last().copied() {
        crate::fail!("{}: top() is {:?}, expected {:?}", when(), s.top(), md.last());
    }
    check_errs("reading the stack");
}

impl<'a> StDrv<'a> {
    pub fn new(src: &'a mut Src, ctx: &'a mut Ctx, max: u32) -> Self {
        let n = match src.weighted(&[4, 4, 2]) {
            0 => src.below(9),
            1 => src.below(60),
            _ => src.below(max),
        };
        let mut d = StDrv {
            src,
            ctx,
            slots: vec![],
            next: 1,
            step: 0,
            muts: 0,
            last_op: None,
            shared: 0,
            max_len: 0,
            max_slots: 5,
            live: false,
        };
        let s = d.build(n);
        d.slots.push(s);
        d
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn build(&mut self, n: u32) -> StSlot {
        let how = self.src.below(4);
        let md: Vec<u32> = (0..n).map(|_| self.fresh()).collect();
        let els = md.iter().map(|&v| Tv::new(v));
        self.ctx.t(|| format!("build a stack of {n}, method {how}"));
        let s = match how {
            0 => {
                let mut s = Stack::new();
                for e in els {
                    s.push(e);
                }
                s
            }
            1 => crate::iters::loose(els, n as u32).collect(),
            2 => Stack::from(els.collect::<Vec<_>>()),
            _ => {
                let mut s = Stack::default();
                s.extend(els);
                s
            }
        };
        StSlot { s, md }
    }
    pub fn verify_all(&mut self, when: &str) {
        for (i, x) in self.slots.iter().enumerate() {
            self.max_len = self.max_len.max(x.md.len());
            verify_stack(&x.s, &x.md, &|| format!("stack {i} {when}"));
        }
        if self.live {
            let total: usize = self.slots.iter().map(|s| s.md.len()).sum();
            crate::maps::live_bound(total, self.slots.len(), when);
        }
    }
    pub fn run(&mut self, w: &StWeights) {
        self.verify_all("after building");
        while self.src.next_op() {
            let op = OPS[self.src.weighted(w)];
            let i = self.src.usize(self.slots.len());
            self.step += 1;
            if self.slots.len() > 1 {
                self.shared += 1;
            }
            self.apply(op, i);
            check_errs("operation");
            let st = self.step;
            self.verify_all(&format!("after step {st} ({op:?} on stack {i})"));
        }
    }
    fn push_slot(&mut self, x: StSlot) {
        if self.slots.len() < self.max_slots {
            self.slots.push(x);
        } else {
            let j = self.src.usize(self.slots.len());
            self.slots[j] = x;
        }
    }
    fn dup(&self, i: usize) -> StSlot {
        StSlot { s: self.slots[i].s.clone(), md: self.slots[i].md.clone() }
    }
    /// a valid index, biased to the ends
    fn index(&mut self, n: usize) -> usize {
        match self.src.weighted(&[4, 2, 2]) {
            0 => self.src.usize(n.min(60000)),
            1 => (self.src.usize(4)).min(n - 1),
            _ => n - 1 - self.src.usize(4).min(n - 1),
        }
    }

    pub fn apply(&mut self, op: Op, i: usize) {
        let n = self.slots[i].md.len();
        match op {
            Push => {
                self.muts += 1;
                for _ in 0..1 + self.src.below(5) {
                    let v = self.fresh();
                    let x = &mut self.slots[i];
                    x.s.push(Tv::new(v));
                    x.md.push(v);
                    self.ctx.t(|| format!("s{i}.push({v})"));
                    ensure_eq!(x.s.top().map(|t| t.v()), Some(v), "top() after push");
                }
            }
            Pop => {
                self.muts += 1;
                let k = 1 + if self.src.chance(32) { self.src.below(200) } else { self.src.below(5) };
                self.ctx.t(|| format!("s{i}.pop() x{k}"));
                let x = &mut self.slots[i];
                for _ in 0..k {
                    ensure_eq!(x.s.pop().map(|t| t.v()), x.md.pop(), "pop()");
                    ensure_eq!(x.s.len(), x.md.len(), "len after pop");
                }
            }
            Top => {
                let x = &self.slots[i];
                ensure_eq!(x.s.top().map(|t| t.v()), x.md.last().copied(), "top()");
            }
            TopMut => {
                self.muts += 1;
                let v = self.fresh();
                let x = &mut self.slots[i];
                self.ctx.t(|| format!("*s{i}.top_mut() = {v}"));
                match (x.s.top_mut(), x.md.last_mut()) {
                    (Some(t), Some(m)) => {
                        ensure_eq!(t.v(), *m, "top_mut() before writing");
                        t.set(v);
                        *m = v;
                    }
                    (None, None) => (),
                    (t, m) => crate::fail!("top_mut() is {t:?}, expected {m:?}"),
                }
            }
            Remove => {
                if n == 0 {
                    return;
                }
                self.muts += 1;
                let at = self.index(n);
                self.ctx.t(|| format!("s{i}.remove({at})"));
                let x = &mut self.slots[i];
                let r = x.s.remove(at).v();
                ensure_eq!(r, x.md.remove(at), "remove({at})");
            }
            SplitOff => {
                self.muts += 1;
                let at = match self.src.weighted(&[4, 1, 1]) {
                    0 => self.index(n + 1),
                    1 => 0,
                    _ => n,
                };
                self.ctx.t(|| format!("s{i}.split_off({at})"));
                let x = &mut self.slots[i];
                let md2 = x.md.split_off(at);
                let s2 = x.s.split_off(at);
                verify_stack(&x.s, &x.md, &|| format!("bottom part of split_off({at})"));
                verify_stack(&s2, &md2, &|| format!("top part of split_off({at})"));
                let mut y = StSlot { s: s2, md: md2 };
                match self.src.below(4) {
                    0 => (),
                    1 => std::mem::swap(&mut self.slots[i], &mut y),
                    _ => self.push_slot(y),
                }
            }
            BadIndex => {
                let by = match self.src.below(3) {
                    0 => 0,
                    1 => self.src.usize(5),
                    _ => usize::MAX - 1 - n,
                };
                let rm = self.src.chance(128);
                self.ctx.t(|| format!("s{i}.{}({}) (out of range)", if rm { "remove" } else { "split_off" }, n + by + !rm as usize));
                let x = &mut self.slots[i];
                let ok = crate::quiet(|| {
                    if rm {
                        drop(x.s.remove(n + by));
                    } else {
                        drop(x.s.split_off(n + by + 1));
                    }
                });
                ensure!(ok.is_none(), "an out-of-range position is accepted (remove={rm}, beyond by {by})");
                self.ctx.label("stack: out-of-range position");
            }
            Iter => {
                // partial iteration, then other uses of the iterator
                let stop = self.src.usize(n.min(60000) + 2);
                let x = &self.slots[i];
                let mut it = x.s.iter();
                for j in 0..stop {
                    let e = if j < n { Some(x.md[n - 1 - j]) } else { None };
                    ensure_eq!(it.next().map(|t| t.v()), e, "iter() item {j}");
                    let (lo, hi) = it.size_hint();
                    let left = n.saturating_sub(j + 1);
                    ensure!(lo <= left && hi.map_or(true, |h| h >= left), "iter(): size_hint ({lo}, {hi:?}) excludes the {left} items left");
                }
                ensure_eq!(it.count(), n.saturating_sub(stop), "iter(): items left");
            }
            IterMut => {
                self.muts += 1;
                let stop = if self.src.chance(128) { self.src.usize(n.min(60000) + 2) } else { n + 1 };
                let every = 1 + self.src.usize(3);
                self.ctx.t(|| format!("s{i}.iter_mut() for {stop} items, writing every {every}"));
                let base = self.next;
                self.next += n as u32 + 2;
                let x = &mut self.slots[i];
                let mut it = x.s.iter_mut();
                for j in 0..stop {
                    match it.next() {
                        Some(t) => {
                            ensure!(j < n, "iter_mut() yields too many items");
                            ensure_eq!(t.v(), x.md[n - 1 - j], "iter_mut() item {j}");
                            if j % every == 0 {
                                t.set(base + 1 + j as u32);
                                x.md[n - 1 - j] = base + 1 + j as u32;
                            }
                        }
                        None => ensure!(j >= n, "iter_mut() ends after {j} items, expected {n}"),
                    }
                }
                if stop < n {
                    self.ctx.label("stack: iter_mut stopped early");
                }
            }
            IntoIter => {
                let take = self.src.chance(100);
                let stop = if self.src.chance(128) { self.src.usize(n.min(60000) + 2) } else { n + 1 };
                self.ctx.t(|| format!("s{i}: into_iter of {} for {stop} items", if take { "the stack" } else { "a clone" }));
                let md = self.slots[i].md.clone();
                let s = if take {
                    self.slots[i].md.clear();
                    std::mem::take(&mut self.slots[i].s)
                } else {
                    self.slots[i].s.clone()
                };
                let mut it = s.into_iter();
                for j in 0..stop {
                    let e = if j < n { Some(md[n - 1 - j]) } else { None };
                    ensure_eq!(it.next().map(|t| t.v()), e, "into_iter() item {j}");
                }
                if self.src.chance(128) {
                    drop(it);
                } else {
                    let rest: Vec<u32> = it.map(|t| t.v()).collect();
                    let e: Vec<u32> = md.iter().rev().skip(stop).copied().collect();
                    ensure!(rest == e, "rest of into_iter(): {rest:?}, expected {e:?}");
                }
            }
            Contains => {
                let v = if n > 0 && self.src.chance(170) {
                    let j = self.index(n);
                    self.slots[i].md[j]
                } else {
                    self.src.below(self.next + 2)
                };
                let x = &self.slots[i];
                ensure_eq!(x.s.contains(&Tv::new(v)), x.md.contains(&v), "contains({v})");
            }
            Clear => {
                self.ctx.t(|| format!("s{i}.clear()"));
                let x = &mut self.slots[i];
                x.s.clear();
                x.md.clear();
            }
            Extend => {
                self.muts += 1;
                let k = 1 + self.src.below(40);
                let vs: Vec<u32> = (0..k).map(|_| self.fresh()).collect();
                self.ctx.t(|| format!("s{i}.extend({k} elements)"));
                let x = &mut self.slots[i];
                x.s.extend(crate::iters::loose(vs.iter(), k ^ vs[0]).map(|&v| {
                    on_call();
                    Tv::new(v)
                }));
                x.md.extend(vs);
            }
            Build => {
                let k = self.src.below(30);
                let x = self.build(k);
                if self.src.chance(128) {
                    self.slots[i] = x;
                } else {
                    self.push_slot(x);
                }
            }
            CloneTo => {
                self.ctx.t(|| format!("clone s{i}"));
                self.ctx.label("op: clone");
                let x = self.dup(i);
                if self.src.chance(64) {
                    // clone_from over another stack
                    let j = self.src.usize(self.slots.len());
                    let y = &mut self.slots[j];
                    y.s.clone_from(&x.s);
                    y.md = x.md.clone();
                } else {
                    self.push_slot(x);
                }
            }
            DropOne => {
                if self.slots.len() > 1 {
                    self.ctx.t(|| format!("drop s{i}"));
                    self.slots.swap_remove(i);
                }
            }
            Join => {
                // move another stack's elements over, through the iterators
                let j = self.src.usize(self.slots.len());
                if i != j && self.slots[i].md.len() + self.slots[j].md.len() < 3000 {
                    let y = std::mem::replace(&mut self.slots[j], StSlot { s: Stack::new(), md: vec![] });
                    let x = &mut self.slots[i];
                    self.ctx.t(|| format!("s{i}.extend(take(s{j}))"));
                    x.s.extend(y.s);
                    x.md.extend(y.md.iter().rev());
                    self.muts += 1;
                }
            }
            Compare => self.compare(i),
        }
    }

    pub fn compare(&mut self, i: usize) {
        let y = match self.src.weighted(&[3, 3, 2]) {
            0 => {
                let j = self.src.usize(self.slots.len());
                self.dup(j)
            }
            1 => {
                // rebuilt with a small change
                let mut md = self.slots[i].md.clone();
                let n = md.len();
                match self.src.below(6) {
                    0 if n > 0 => {
                        let j = self.index(n);
                        md[j] += 1;
                    }
                    1 if n > 0 => {
                        let j = self.index(n);
                        md[j] -= 1;
                    }
                    2 if n > 0 => {
                        let j = self.index(n);
                        md.remove(j);
                    }
                    3 => md.insert(0, 5),
                    4 => {
                        md.pop();
                    }
                    _ => (),
                }
                StSlot { s: md.iter().map(|&v| Tv::new(v)).collect(), md }
            }
            _ => {
                // shared tail, changed head
                let mut y = self.dup(i);
                let k = self.src.usize(3);
                for _ in 0..k {
                    y.s.pop();
                    y.md.pop();
                }
                for _ in 0..self.src.usize(3) {
                    let v = self.src.below(6);
                    y.s.push(Tv::new(v));
                    y.md.push(v);
                }
                y
            }
        };
        let x = &self.slots[i];
        self.ctx.t(|| format!("compare {} with {}", sview(&x.md), sview(&y.md)));
        let a: Vec<u32> = x.md.iter().rev().copied().collect();
        let b: Vec<u32> = y.md.iter().rev().copied().collect();
        self.ctx.label(if a == b { "compare: equal contents" } else { "compare: different contents" });
        compare_laws(&x.s, &y.s, &a, &b, "Stack");
        if a.len() < 300 {
            ensure_eq!(
                format!("{:?}", x.s),
                format!("Stack {{ len: {}, elems: TOP{:?}BOT }}", a.len(), a),
                "Debug output"
            );
            let t = format!("{:#?}", x.s);
            let got: Vec<String> = t
                .lines()
                .map(|l| l.trim().trim_end_matches(',').to_string())
                .filter(|l| l.parse::<i64>().is_ok())
                .collect();
            let exp: Vec<String> = a.iter().map(|k| k.to_string()).collect();
            ensure_eq!(got, exp, "elements in pretty Debug output");
        }
        verify_stack(&y.s, &y.md, &|| "operand after comparing".into());
    }
}

// ------------------------------------------------------------------ C15

/// what deep stacks hold: mostly `u64`s, which keep the cases cheap
trait Deep: Clone + Ord + std::fmt::Debug + 'static {
    const LABEL: &'static str;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    /// what is left of v in such an element
    fn norm(v: u64) -> u64 {
        v
    }
}
impl Deep for u64 {
    const LABEL: &'static str = "deep: elements without Drop";
    fn mk(v: u64) -> Self {
        v
    }
    fn val(&self) -> u64 {
        *self
    }
}
impl Deep for Box<u64> {
    const LABEL: &'static str = "deep: elements with Drop";
    fn mk(v: u64) -> Self {
        Box::new(v)
    }
    fn val(&self) -> u64 {
        **self
    }
}
impl Deep for () {
    const LABEL: &'static str = "deep: zero-sized elements";
    fn mk(_: u64) {}
    fn val(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}

/// deep stacks on a small call stack
pub fn deep(src: &mut Src, ctx: &mut Ctx) {
    src.plan(&[(1, 14)]);
    let n = 60_000 + src.below(120_000) as usize;
    let plans: Vec<[u32; 4]> = {
        let mut v = vec![];
        while src.next_op() {
            v.push([src.below(16), src.u16(), src.u16(), src.byte() as u32]);
        }
        v
    };
    ctx.t(|| format!("stacks of {n} elements on a 128 KiB thread"));
    for p in &plans {
        ctx.t(|| format!("  op {p:?}"));
    }
    ctx.nontrivial = plans.len() >= 2;
    let f = match src.weighted(&[6, 3, 1]) {
        0 => deep_run::<u64>,
        1 => deep_run::<Box<u64>>,
        _ => deep_run::<()>,
    };
    // steps are recorded outside the small thread
    let run = move || f(n, &plans);
    let h = std::thread::Builder::new().stack_size(128 << 10).spawn(run).unwrap();
    match h.join() {
        Ok(labels) => {
            for l in labels {
                ctx.label(l);
            }
        }
        Err(e) => std::panic::resume_unwind(match e.downcast::<crate::engine::Failure>() {
            Ok(f) => f,
            Err(_) => Box::new(crate::engine::Failure("panic on the small thread".into())),
        }),
    }
}

fn deep_run<E: Deep>(n: usize, plans: &[[u32; 4]]) -> Vec<&'static str> {
    let mut labels = vec![E::LABEL];
    let mut next = 0u64;
    let mut mk = |n: usize, how: u32| -> (Stack<E>, Vec<u64>) {
        let b = next;
        next += n as u64;
        let v: Vec<u64> = (b..b + n as u64).map(E::norm).collect();
        let es = v.iter().map(|x| E::mk(*x));
        let s = match how % 3 {
            0 => es.collect(),
            1 => Stack::from(es.collect::<Vec<E>>()),
            _ => {
                let mut s = Stack::new();
                for x in es {
                    s.push(x);
                }
                s
            }
        };
        (s, v)
    };
    let mut slots: Vec<(Stack<E>, Vec<u64>)> = vec![mk(n, 0)];
    let vf = |s: &Stack<E>, v: &Vec<u64>, when: &str| {
        ensure_eq!(s.len(), v.len(), "len {when}");
        ensure!(s.iter().map(|x| x.val()).eq(v.iter().rev().copied()), "contents differ {when}");
    };
    for p in plans {
        let i = p[1] as usize % slots.len();
        let pos = |n: usize| -> usize { (p[2] as usize * (n + 1)) >> 16 };
        let k = slots[i].1.len();
        match p[0] {
            0 => {
                labels.push("deep: clone");
                let c = (slots[i].0.clone(), slots[i].1.clone());
                slots.push(c);
            }
            1 => {
                labels.push("deep: diverge on a shared tail");
                let mut c = (slots[i].0.clone(), slots[i].1.clone());
                for x in 0..p[3] as u64 {
                    c.0.push(E::mk(x));
                    c.1.push(E::norm(x));
                }
                slots.push(c);
            }
            2 => {
                labels.push("deep: drop");
                slots.swap_remove(i);
                if slots.is_empty() {
                    slots.push(mk(n, p[3]));
                }
            }
            3 => {
                // old and new value may be deep and unshared, or share a tail
                let new = match p[2] % 4 {
                    0 => mk(n / 2, p[3]),
                    1 => (slots[i].0.clone(), slots[i].1.clone()),
                    2 => mk(3, p[3]),
                    _ => {
                        let j = p[3] as usize % slots.len();
                        (slots[j].0.clone(), slots[j].1.clone())
                    }
                };
                match p[2] / 4 % 4 {
                    0 => {
                        labels.push("deep: overwrite");
                        slots[i] = new;
                    }
                    1 => {
                        labels.push("deep: clone_from");
                        slots[i].0.clone_from(&new.0);
                        slots[i].1 = new.1;
                    }
                    2 => {
                        labels.push("deep: clone_from, then the source goes");
                        slots[i].0.clone_from(&new.0);
                        slots[i].1.clone_from(&new.1);
                        drop(new);
                        slots[i].0.push(E::mk(5));
                        slots[i].1.push(E::norm(5));
                    }
                    _ => {
                        labels.push("deep: replace");
                        let old = std::mem::replace(&mut slots[i], new);
                        vf(&old.0, &old.1, "the stack replaced");
                    }
                }
            }
            4 => {
                labels.push("deep: clear");
                slots[i].0.clear();
                slots[i].1.clear();
            }
            5 => {
                labels.push("deep: split_off");
                let at = pos(k);
                let t = slots[i].0.split_off(at);
                let tv = slots[i].1.split_off(at);
                vf(&t, &tv, "top part of split_off");
                if p[3] & 1 == 0 {
                    slots.push((t, tv));
                }
            }
            6 => {
                if k > 0 {
                    labels.push("deep: remove");
                    let at = pos(k).min(k - 1);
                    let e = slots[i].1.remove(at);
                    ensure_eq!(slots[i].0.remove(at).val(), e, "remove({at})");
                }
            }
            7 => {
                labels.push("deep: pop");
                for _ in 0..pos(k) {
                    let e = slots[i].1.pop();
                    ensure_eq!(slots[i].0.pop().map(|x| x.val()), e, "pop");
                }
            }
            8 => {
                labels.push("deep: compare");
                let j = p[3] as usize % slots.len();
                let (a, b) = (&slots[i], &slots[j]);
                ensure_eq!(a.0 == b.0, a.1 == b.1, "==");
                let e = a.1.iter().rev().cmp(b.1.iter().rev());
                ensure_eq!(a.0.cmp(&b.0), e, "cmp");
                ensure_eq!(a.0.partial_cmp(&b.0), Some(e), "partial_cmp");
                let c: Stack<E> = a.1.iter().map(|x| E::mk(*x)).collect();
                ensure!(c == a.0 && c.cmp(&a.0).is_eq(), "equal to a rebuilt copy");
            }
            9 => {
                labels.push("deep: format");
                let t = format!("{:?}", slots[i].0);
                ensure!(t.starts_with(&format!("Stack {{ len: {k}, ")), "Debug output of a deep stack");
                let commas = t.matches(',').count();
                ensure!(commas == k.max(1), "Debug output of a deep stack lists {commas} separators");
            }
            10 => {
                labels.push("deep: iter_mut");
                let stop = pos(k);
                let x = &mut slots[i];
                for (a, b) in x.0.iter_mut().zip(x.1.iter_mut().rev()).take(stop) {
                    *b = E::norm(*b + 7);
                    *a = E::mk(*b);
                }
            }
            11 => {
                labels.push("deep: into_iter");
                let (s, v) = if p[3] & 1 == 0 {
                    std::mem::take(&mut slots[i])
                } else {
                    (slots[i].0.clone(), slots[i].1.clone())
                };
                let stop = pos(k);
                let mut it = s.into_iter();
                for j in 0..stop {
                    ensure_eq!(it.next().map(|x| x.val()), Some(v[k - 1 - j]), "into_iter item");
                }
                drop(it);
            }
            12 => {
                labels.push("deep: contains");
                let e = slots[i].1.contains(&E::norm(u64::MAX));
                ensure_eq!(slots[i].0.contains(&E::mk(u64::MAX)), e, "contains");
            }
            13 => {
                labels.push("deep: extend");
                let (s, v) = mk(n / 3, p[3]);
                slots[i].0.extend(s);
                slots[i].1.extend(v.iter().rev());
            }
            14 => {
                labels.push("deep: drop all");
                let order = p[3];
                while slots.len() > 1 {
                    let j = if order & 1 == 0 { 0 } else { slots.len() - 1 };
                    slots.swap_remove(j);
                }
            }
            _ => {
                labels.push("deep: drop while panicking");
                let c = slots[i].0.clone();
                let own = mk(n / 2, p[3]);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _a = c;
                    let _b = own;
                    std::panic::resume_unwind(Box::new(crate::track::Injected));
                }));
                ensure!(r.is_err(), "unwinding through deep stacks");
            }
        }
        if slots.len() > 4 {
            slots.remove(0);
        }
    }
    for (s, v) in &slots {
        vf(s, v, "at the end");
    }
    // the last owners go in either order
    if plans.len() % 2 == 0 {
        while slots.pop().is_some() {}
    }
    labels
}

// ------------------------------------------------------------ C10 for Stack

pub fn lazy(src: &mut Src, ctx: &mut Ctx) {
    let n = 1 + match src.below(3) {
        0 => src.below(8),
        1 => src.below(100),
        _ => src.below(2000),
    } as usize;
    let mut next = n as u32;
    let mut fresh = || {
        next += 1;
        Tv::new(next)
    };
    let mut s: Stack<Tv> = (0..n as u32).map(Tv::new).collect();
    ensure_eq!(clones(), 0, "clones while building a stack");
    let mut t = lean(64, "Stack::clone", n, || s.clone());
    ensure_eq!(clones(), 0, "element clones made by Stack::clone");
    src.plan(&[(1, 8)]);
    // `depth`: how many elements of s, from the top, are its own
    let mut own = 0usize;
    let mut steps = 0;
    while src.next_op() {
        steps += 1;
        let c0 = clones();
        let k = s.len();
        match src.below(7) {
            0 => {
                let x = fresh();
                lean(192, "push", k, || s.push(x));
                own += 1;
                ctx.t(|| "push".into());
                ensure_eq!(clones() - c0, 0, "clones made by push");
            }
            1 => {
                if k > 0 {
                    lean(192, "pop", k, || s.pop());
                    ctx.t(|| "pop".into());
                    ensure!(clones() - c0 <= (own == 0) as u64, "pop clones {} elements ({own} on top were unshared)", clones() - c0);
                    own = own.saturating_sub(1);
                }
            }
            2 => {
                if k > 0 {
                    lean(192, "top_mut", k, || s.top_mut().is_some());
                    ctx.t(|| "top_mut".into());
                    ensure!(clones() - c0 <= (own == 0) as u64, "top_mut clones {} elements ({own} on top were unshared)", clones() - c0);
                    own = own.max(1);
                }
            }
            3 => {
                if k > 0 {
                    let at = src.usize(k);
                    let depth = k - 1 - at;
                    s.remove(at);
                    ctx.t(|| format!("remove({at}) of {k}"));
                    let extra = (depth + 1).saturating_sub(own) as u64;
                    ensure!(clones() - c0 <= extra, "remove at depth {depth} clones {} elements ({own} were unshared)", clones() - c0);
                    own = if own > depth { own - 1 } else { depth };
                }
            }
            4 => {
                let at = src.usize(k + 1);
                let top = s.split_off(at);
                ctx.t(|| format!("split_off({at}) of {k}"));
                let d = clones() - c0;
                let bound = if at == 0 || at == k { 0 } else { (k - at).saturating_sub(own) as u64 };
                ensure!(d <= bound, "split_off({at}) of {k} clones {d} elements, {own} were unshared");
                own = own.saturating_sub(k - at);
                drop(top);
            }
            5 => {
                let stop = src.usize(k + 1);
                let _ = s.iter_mut().take(stop).count();
                ctx.t(|| format!("iter_mut over {stop} of {k}"));
                let d = clones() - c0;
                let bound = stop.saturating_sub(own) as u64;
                ensure!(d <= bound, "iter_mut over {stop} of {k} clones {d} elements, {own} were unshared");
                own = own.max(stop);
            }
            _ => {
                lean(192, "reading a Stack", k, || {
                    let _ = (s.top().is_some(), s.len(), s.is_empty());
                    let _ = s.iter().count();
                    let _ = s == t;
                    let _ = s.cmp(&t);
                });
                let _ = format!("{s:?}").len();
                let _ = s.contains(&t.top().map(|x| Tv::new(x.v())).unwrap_or_default());
                ctx.t(|| "reads".into());
                ensure_eq!(clones() - c0, 0, "clones made by reading");
            }
        }
    }
    ensure_eq!(t.len(), n, "length of the untouched copy");
    // the last owner copies nothing
    if src.chance(128) {
        std::mem::swap(&mut s, &mut t);
    }
    drop(t);
    let c0 = clones();
    if let Some(x) = s.top_mut() {
        x.set(1);
    }
    if s.len() > 2 {
        s.remove(s.len() / 2);
    }
    s.iter_mut().for_each(|x| x.set(2));
    s.push(fresh());
    s.pop();
    let at = s.len() / 2;
    let u = s.split_off(at);
    let k = s.len() + u.len();
    let m = s.into_iter().count() + u.into_iter().count();
    ensure_eq!(m, k, "elements consumed");
    ensure_eq!(clones() - c0, 0, "clones made on the last copy of a stack");
    ctx.nontrivial = steps >= 2 && n >= 3;
    let _ = Rng::new(0);
}
