//! mutate IN_DIR OUT_DIR SKIP_FILE: rewrites the Rust sources of IN_DIR so that
//! every mutation is compiled in and chosen at run time (environment MUT=n).
//! Units whose id is listed in SKIP_FILE are left alone (they did not compile).
//! Writes OUT_DIR/mutants.tsv (id unit file line original mutated) and
//! OUT_DIR/units.tsv (unit file first-byte end-byte, in the output files).
use proc_macro2::Span;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Debug)]
struct Unit {
    lo: usize,
    hi: usize,
    line: usize,
    stmt: bool,           // statement with a semicolon (lo..hi excludes it)
    muts: Vec<String>,    // replacement texts
}

struct W<'a> {
    src: &'a str,
    units: Vec<Unit>,
}

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

/// does the expression contain something with statements of its own?
struct HasBlock(bool, bool);
impl<'a> Visit<'a> for HasBlock {
    fn visit_block(&mut self, _: &'a Block) {
        self.0 = true
    }
    fn visit_expr_match(&mut self, _: &'a ExprMatch) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {
        self.0 = true
    }
    fn visit_expr_let(&mut self, _: &'a ExprLet) {
        self.1 = true
    }
}
fn simple(e: &Expr) -> bool {
    let mut h = HasBlock(false, false);
    h.visit_expr(e);
    !h.0 && !h.1
}

struct Sub<'a> {
    src: &'a str,
    edits: Vec<(usize, usize, String)>,
}
const SWAPS: &[(&str, &str)] = &[
    ("left", "right"),
    ("lf", "rt"),
    ("lhs", "rhs"),
    ("first", "last"),
    ("Less", "Greater"),
    ("Included", "Excluded"),
    ("next", "next_back"),
    ("min", "max"),
    ("lf_ht", "rt_ht"),
    ("is_some", "is_none"),
    ("pop_first", "pop_last"),
    ("left_ht", "right_ht"),
    ("lb_elems", "ub_elems"),
    ("lb_kids", "ub_kids"),
    ("head", "tail"),
    ("Ok", "Err"),
    ("any", "all"),
    ("rot_lf", "rot_rt"),
    ("saturating_sub", "saturating_add"),
    ("push", "pop"),
    ("self", "other"),
    ("key", "val"),
    ("k", "v"),
    ("MIN_OCCUPANCY", "MAX_OCCUPANCY"),
    ("i", "j"),
    ("lo", "hi"),
    ("ptr_eq", "eq"),
    ("take", "clone"),
];
impl<'a> Sub<'a> {
    fn ident(&mut self, id: &Ident) {
        let s = id.to_string();
        let (lo, hi) = rng(id.span());
        for &(a, b) in SWAPS {
            if s == a {
                self.edits.push((lo, hi, b.into()))
            } else if s == b {
                self.edits.push((lo, hi, a.into()))
            }
        }
        for (a, b) in [("lf", "rt"), ("left", "right"), ("first", "last"), ("_lt", "_le"), ("min", "max"), ("lb", "ub")] {
            if s != a && s != b {
                for (x, y) in [(a, b), (b, a)] {
                    if s.contains(&format!("{x}_")) || s.ends_with(&format!("_{x}")) {
                        self.edits.push((lo, hi, s.replace(x, y)))
                    }
                }
            }
        }
    }
}
impl<'a> Visit<'a> for Sub<'a> {
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        let (lo, hi) = rng(e.op.span());
        let alts: &[&str] = match e.op {
            BinOp::Lt(_) => &["<=", ">", "!="],
            BinOp::Le(_) => &["<", ">="],
            BinOp::Gt(_) => &[">=", "<", "!="],
            BinOp::Ge(_) => &[">", "<="],
            BinOp::Eq(_) => &["!=", "<=", ">="],
            BinOp::Ne(_) => &["==", "<", ">"],
            BinOp::And(_) => &["||"],
            BinOp::Or(_) => &["&&"],
            BinOp::Add(_) => &["-"],
            BinOp::Sub(_) => &["+"],
            BinOp::Mul(_) => &["+", "/"],
            BinOp::Div(_) => &["*"],
            BinOp::AddAssign(_) => &["-=", "="],
            BinOp::SubAssign(_) => &["+=", "="],
            _ => &[],
        };
        for a in alts {
            self.edits.push((lo, hi, a.to_string()))
        }
        // drop one side
        let (l, r) = (rng(e.left.span()), rng(e.right.span()));
        match e.op {
            BinOp::And(_) | BinOp::Or(_) | BinOp::Add(_) | BinOp::Sub(_) => {
                let t = self.src[l.0..l.1].to_string();
                self.edits.push((l.0, r.1, t));
                let t = self.src[r.0..r.1].to_string();
                self.edits.push((l.0, r.1, t));
            }
            _ => (),
        }
        visit::visit_expr_binary(self, e)
    }
    fn visit_expr_unary(&mut self, e: &'a ExprUnary) {
        if let UnOp::Not(_) = e.op {
            let (lo, _) = rng(e.op.span());
            self.edits.push((lo, lo + 1, String::new()))
        }
        visit::visit_expr_unary(self, e)
    }
    fn visit_lit(&mut self, l: &'a Lit) {
        let (lo, hi) = rng(l.span());
        match l {
            Lit::Bool(b) => self.edits.push((lo, hi, (!b.value).to_string())),
            Lit::Int(i) => {
                if let Ok(n) = i.base10_parse::<i64>() {
                    self.edits.push((lo, hi, format!("{}", n + 1)));
                    if n > 0 {
                        self.edits.push((lo, hi, format!("{}", n - 1)));
                    }
                    if n > 2 {
                        self.edits.push((lo, hi, format!("{}", n / 2)));
                    }
                }
            }
            _ => (),
        }
    }
    fn visit_expr_field(&mut self, e: &'a ExprField) {
        match &e.member {
            Member::Named(id) => self.ident(id),
            Member::Unnamed(ix) => {
                let (lo, hi) = rng(ix.span());
                if ix.index < 2 {
                    self.edits.push((lo, hi, (1 - ix.index).to_string()))
                }
            }
            #[allow(unreachable_patterns)]
            _ => (),
        }
        visit::visit_expr_field(self, e)
    }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        self.ident(&e.method);
        // x.f(..) -> x
        let (lo, hi) = rng(e.span());
        let r = rng(e.receiver.span());
        self.edits.push((lo, hi, self.src[r.0..r.1].to_string()));
        if e.args.len() == 2 {
            let (a, b) = (rng(e.args[0].span()), rng(e.args[1].span()));
            let t = format!("{}, {}", &self.src[b.0..b.1], &self.src[a.0..a.1]);
            self.edits.push((a.0, b.1, t));
        }
        visit::visit_expr_method_call(self, e)
    }
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        let (lo, hi) = rng(e.span());
        if let Expr::Path(p) = &*e.func {
            if p.path.is_ident("Some") {
                self.edits.push((lo, hi, "None".into()));
            }
        }
        for k in 1..e.args.len() {
            let (a, b) = (rng(e.args[k - 1].span()), rng(e.args[k].span()));
            let t = format!("{}, {}", &self.src[b.0..b.1], &self.src[a.0..a.1]);
            self.edits.push((a.0, b.1, t));
        }
        visit::visit_expr_call(self, e)
    }
    fn visit_expr_range(&mut self, e: &'a ExprRange) {
        visit::visit_expr_range(self, e)
    }
    fn visit_expr_path(&mut self, e: &'a ExprPath) {
        if let Some(s) = e.path.segments.last() {
            self.ident(&s.ident)
        }
    }
    fn visit_expr_struct(&mut self, e: &'a ExprStruct) {
        for f in &e.fields {
            self.visit_expr(&f.expr)
        }
    }
}

impl<'a> W<'a> {
    fn unit(&mut self, e: &Expr, stmt: bool, cond: bool, is_if: bool) {
        if let Expr::Macro(_) = e {
            return;
        }
        let (lo, hi) = rng(e.span());
        let mut s = Sub { src: self.src, edits: vec![] };
        s.visit_expr(e);
        let mut muts: Vec<String> = vec![];
        for (a, b, t) in s.edits {
            let m = format!("{}{}{}", &self.src[lo..a], t, &self.src[b..hi]);
            if !muts.contains(&m) && m != self.src[lo..hi] {
                muts.push(m)
            }
        }
        if cond {
            if is_if {
                muts.push("true".into());
            }
            muts.push("false".into());
            let m = format!("!({})", &self.src[lo..hi]);
            if !muts.contains(&m) {
                muts.push(m)
            }
        }
        if stmt && !matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) {
            muts.push(String::new());
        }
        if muts.is_empty() {
            return;
        }
        let line = e.span().start().line;
        self.units.push(Unit { lo, hi, line, stmt, muts });
    }

    fn expr(&mut self, e: &Expr, stmt: bool) {
        match e {
            Expr::If(i) => {
                if simple(&i.cond) {
                    self.unit(&i.cond, false, true, true)
                } else {
                    self.inner(&i.cond)
                }
                self.block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch {
                    self.expr(e, false)
                }
            }
            Expr::While(w) => {
                if simple(&w.cond) {
                    self.unit(&w.cond, false, true, false)
                } else {
                    self.inner(&w.cond)
                }
                self.block(&w.body)
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    if let Pat::Guard(g) = &a.pat {
                        let g = &*g.guard;
                        if simple(g) {
                            self.unit(g, false, true, true)
                        }
                    }
                    self.expr(&a.body, false)
                }
                if !simple(&m.expr) {
                    self.inner(&m.expr)
                }
            }
            Expr::Block(b) => self.block(&b.block),
            Expr::Unsafe(b) => self.block(&b.block),
            Expr::Loop(b) => self.block(&b.body),
            Expr::ForLoop(f) => {
                if simple(&f.expr) {
                    self.unit(&f.expr, false, false, false)
                } else {
                    self.inner(&f.expr)
                }
                self.block(&f.body)
            }
            Expr::Return(r) => {
                if let Some(x) = &r.expr {
                    self.expr(x, false)
                }
            }
            Expr::Closure(c) => self.expr(&c.body, false),
            _ if simple(e) => self.unit(e, stmt, false, false),
            _ => self.inner(e),
        }
    }
    /// finds the statements within a compound expression
    fn inner(&mut self, e: &Expr) {
        struct In<'b, 'a>(&'b mut W<'a>);
        impl<'b, 'a, 'x> Visit<'x> for In<'b, 'a> {
            fn visit_block(&mut self, b: &'x Block) {
                self.0.block(b)
            }
            fn visit_expr_closure(&mut self, c: &'x ExprClosure) {
                self.0.expr(&c.body, false)
            }
            fn visit_expr_match(&mut self, m: &'x ExprMatch) {
                self.0.expr(&Expr::Match(m.clone()), false)
            }
            fn visit_expr_if(&mut self, m: &'x ExprIf) {
                self.0.expr(&Expr::If(m.clone()), false)
            }
        }
        visit::visit_expr(&mut In(self), e)
    }
    fn block(&mut self, b: &Block) {
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        self.expr(&i.expr, false);
                        if let Some((_, d)) = &i.diverge {
                            self.expr(d, false)
                        }
                    }
                }
                Stmt::Expr(e, semi) => self.expr(e, semi.is_some()),
                Stmt::Item(i) => self.visit_item(i),
                _ => (),
            }
        }
    }
}
fn test_only(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string();
        t.contains("cfg") && t.contains("test")
    })
}
impl<'a, 'x> Visit<'x> for W<'a> {
    fn visit_item(&mut self, i: &'x Item) {
        match i {
            Item::Mod(m) if test_only(&m.attrs) => (),
            Item::Fn(f) if test_only(&f.attrs) => (),
            Item::Impl(f) if test_only(&f.attrs) => (),
            Item::Const(_) | Item::Static(_) => (),
            _ => visit::visit_item(self, i),
        }
    }
    fn visit_item_fn(&mut self, f: &'x ItemFn) {
        if f.sig.constness.is_none() {
            self.block(&f.block)
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'x ImplItemFn) {
        if test_only(&f.attrs) || f.sig.constness.is_some() {
            return;
        }
        if f.sig.ident == "fmt" || f.sig.ident.to_string().starts_with("chk") {
            return;
        }
        self.block(&f.block)
    }
    fn visit_trait_item_fn(&mut self, f: &'x TraitItemFn) {
        if let Some(b) = &f.default {
            self.block(b)
        }
    }
    fn visit_impl_item_const(&mut self, _: &'x ImplItemConst) {}
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (inp, out) = (Path::new(&a[1]), Path::new(&a[2]));
    let skip: HashSet<usize> =
        std::fs::read_to_string(&a[3]).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let (mut uid, mut mid) = (0usize, 0usize);
    let (mut mt, mut ut) = (String::new(), String::new());
    let mut files: Vec<_> = vec![];
    let mut dirs = vec![inp.to_path_buf()];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                dirs.push(p)
            } else if p.extension().map_or(false, |x| x == "rs") {
                files.push(p)
            }
        }
    }
    files.sort();
    for p in files {
        let src = std::fs::read_to_string(&p).unwrap();
        let f = syn::parse_file(&src).unwrap();
        let rel = p.strip_prefix(inp).unwrap();
        let mut w = W { src: &src, units: vec![] };
        if !rel.to_string_lossy().contains("test") {
            w.visit_file(&f);
        }
        w.units.sort_by_key(|u| u.lo);
        let (mut o, mut at) = (String::new(), 0);
        for u in &w.units {
            uid += 1;
            let n = u.muts.len();
            let first = mid + 1;
            mid += n;
            if skip.contains(&uid) || u.lo < at {
                continue;
            }
            o.push_str(&src[at..u.lo]);
            let start = o.len();
            let orig = &src[u.lo..u.hi];
            let one = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            o.push_str("(match crate::mutant() { ");
            let mut any = false;
            for (k, m) in u.muts.iter().enumerate() {
                let id = first + k;
                if skip.contains(&(1_000_000 + id)) {
                    continue;
                }
                any = true;
                let s = o.len();
                // keep one line per variant so that errors are easy to place
                if u.stmt {
                    write!(o, "{id} => {{ {} }} ", if m.is_empty() { String::new() } else { format!("{m};") }).unwrap();
                } else {
                    write!(o, "{id} => {m}, ").unwrap();
                }
                writeln!(ut, "{}\t{}\t{}\t{}", 1_000_000 + id, rel.display(), s, o.len()).unwrap();
                writeln!(mt, "{id}\t{uid}\t{}\t{}\t{}\t{}", rel.display(), u.line, one(orig), one(m)).unwrap();
            }
            let _ = any;
            if u.stmt {
                write!(o, "_ => {{ {orig}; }} }})").unwrap();
            } else {
                write!(o, "_ => {orig} }})").unwrap();
            }
            writeln!(ut, "{uid}\t{}\t{}\t{}", rel.display(), start, o.len()).unwrap();
            at = u.hi;
        }
        o.push_str(&src[at..]);
        if rel == Path::new("lib.rs") {
            o.push_str(
                "\n#[doc(hidden)]\n#[inline]\npub(crate) fn mutant() -> u32 {\n    static M: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX);\n    let m = M.load(std::sync::atomic::Ordering::Relaxed);\n    if m != u32::MAX { return m; }\n    let v = std::env::var(\"MUT\").ok().and_then(|s| s.parse().ok()).unwrap_or(0);\n    M.store(v, std::sync::atomic::Ordering::Relaxed);\n    v\n}\n",
            );
        }
        let t = out.join(rel);
        std::fs::create_dir_all(t.parent().unwrap()).unwrap();
        std::fs::write(t, o).unwrap();
    }
    std::fs::write(out.join("mutants.tsv"), mt).unwrap();
    std::fs::write(out.join("units.tsv"), ut).unwrap();
    println!("{uid} units, {mid} mutants");
}
