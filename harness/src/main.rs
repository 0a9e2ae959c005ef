//! lcc-check: generated-input checks for lazy-clone-collections.
//!
//!   lcc-check check <ID> --seed S --tier quick|thorough   (parent)
//!   lcc-check replay <file>                               (re-run one case)
//!
//! `check` starts itself as a worker process, so that a crash of the code
//! under test (signal, abort, stack overflow) is observed, re-run in isolation
//! and reported like any other failure.

#![allow(clippy::all)]
#![allow(dead_code)]

mod costs;
mod engine;
mod fixed;
mod interp;
mod heap;
mod iters;
#[cfg(feature = "C21")]
mod lawless;
mod maps;
mod panics;
mod parent;
mod probe;
mod props;
#[cfg(feature = "serde")]
mod serdes;
mod sets;
mod stacks;
mod threads;
mod timing;
mod track;

use engine::*;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// run f, turning a library panic into None; oracle failures pass through
pub fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<Failure>() {
                std::panic::resume_unwind(e)
            }
            None
        }
    }
}

pub fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

pub fn find(id: &str) -> &'static Prop {
    match props::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => parent::check(&args),
        Some("worker") => worker(&args),
        Some("interp") => interp(&args),
        Some("gen-one") => gen_one(&args),
        Some("replay") => replay(&args),
        Some("shrink") => shrink_cmd(&args),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: lcc-check check <ID> --seed S --tier T | replay <file>");
            2
        }
    };
    std::process::exit(code)
}

pub const LEVEL: &str = "exploration";
pub const ASSUMPTIONS: &[&str] = &[
    "std::collections::BTreeMap, BTreeSet and Vec are correct (they are the reference models)",
    "keys obey the contract of Ord (only C21 supplies unlawful orders)",
];

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// a single case runs for milliseconds; one that takes this long is stuck
pub const HANG: Duration = Duration::from_secs(120);
const STACK: usize = 64 << 20;

fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

// ---------------------------------------------------------------- Miri

/// the properties whose cases are small, for runs under Miri ("C16m")
pub fn is_mini(id: &str) -> bool {
    id.ends_with('m')
}

/// Runs generated cases from --from in steps of --step for --secs seconds, on
/// this thread, each announced on standard error ("@ index") so that the
/// interpreter's report can be assigned to it.
fn interp(args: &[String]) -> i32 {
    let p = find(&args[1]);
    if let Some(f) = arg(args, "--file") {
        // one given case
        let (_, case) = Case::from_text(&fs::read_to_string(f).expect("case file")).expect("case format");
        engine::MINI.store(true, Ordering::Relaxed);
        return match run_case(p, &mut Src::replay(case), &mut Ctx::default()) {
            Some(m) => {
                println!("FAIL {m}");
                1
            }
            None => 0,
        };
    }
    let num = |n: &str| -> u64 { arg(args, n).unwrap().parse().unwrap() };
    let (seed, mut i, step, secs) = (num("--seed"), num("--from"), num("--step"), num("--secs"));
    engine::MINI.store(true, Ordering::Relaxed);
    let t0 = Instant::now();
    let (mut n, mut nontrivial) = (0, 0);
    while t0.elapsed().as_secs() < secs {
        eprintln!("@ {i}");
        let mut src = Src::gen(case_seed(seed, p.id, i));
        let mut ctx = Ctx::default();
        if let Some(m) = run_case(p, &mut src, &mut ctx) {
            println!("FAIL {m}");
            return 1;
        }
        n += 1;
        nontrivial += ctx.nontrivial as u64;
        i += step;
    }
    println!("interp {n} {nontrivial}");
    0
}

// ---------------------------------------------------------------- worker

/// Runs cases [0, cases) on several threads.  Writes the result to --out:
/// lines `evals N`, `label L N`, `hashes N`, `sample ...`, `fail IDX MSG`.
fn worker(args: &[String]) -> i32 {
    let p = find(&args[1]);
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let cases: u64 = arg(args, "--cases").unwrap().parse().unwrap();
    let threads: u64 = arg(args, "--threads").unwrap().parse().unwrap();
    let out = arg(args, "--out").unwrap();
    let prog = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(false)
        .open(format!("{out}.progress"))
        .unwrap();
    let cap = Duration::from_secs(
        arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(600),
    );
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let truncated = AtomicBool::new(false);
    // per thread: (case index + 1) and when it started
    let now: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
    let done = AtomicU64::new(0);

    std::thread::scope(|s| {
        {
            let (now, done, start, out) = (&now, &done, &start, &out);
            s.spawn(move || {
                // a case that does not end: name it and give up
                while done.load(Ordering::SeqCst) < threads {
                    std::thread::sleep(Duration::from_millis(20));
                    let t = start.elapsed().as_millis() as u64;
                    for (i, (idx, at)) in now.iter().enumerate() {
                        let c = idx.load(Ordering::SeqCst);
                        let a = at.load(Ordering::SeqCst);
                        if c > 0 && t > a + HANG.as_millis() as u64 && idx.load(Ordering::SeqCst) == c {
                            let _ = i;
                            fs::write(format!("{out}.tmp"), format!("hang {}\n", c - 1)).unwrap();
                            fs::rename(format!("{out}.tmp"), out).unwrap();
                            std::process::exit(0);
                        }
                    }
                }
            });
        }
        for t in 0..threads {
            let (next, stop, fails, total, prog, truncated, now, done) =
                (&next, &stop, &fails, &total, &prog, &truncated, &now, &done);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    'outer: loop {
                        let i0 = next.fetch_add(16, Ordering::Relaxed);
                        if i0 >= cases {
                            break;
                        }
                        for i in i0..(i0 + 16).min(cases) {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if start.elapsed() > cap {
                                truncated.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            let _ = prog.write_at(&(i + 1).to_le_bytes(), t * 8);
                            now[t as usize].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                            now[t as usize].0.store(i + 1, Ordering::SeqCst);
                            let mut src = Src::gen(case_seed(seed, p.id, i));
                            let mut ctx = Ctx::default();
                            let r = run_case(p, &mut src, &mut ctx);
                            now[t as usize].0.store(0, Ordering::SeqCst);
                            st.evals += 1;
                            st.absorb(&ctx);
                            if let Some(m) = r {
                                fails.lock().unwrap().push((i, m));
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            if ctx.nontrivial {
                                let new = st.nontrivial.insert(src.case.hash());
                                if new && st.samples.len() < 1 && i > 8 {
                                    st.samples.push(i.to_string());
                                }
                            }
                        }
                    }
                    let _ = prog.write_at(&0u64.to_le_bytes(), t * 8);
                    done.fetch_add(1, Ordering::SeqCst);
                    let mut g = total.lock().unwrap();
                    g.evals += st.evals;
                    g.nontrivial.extend(st.nontrivial);
                    g.samples.extend(st.samples);
                    for (l, n) in st.labels {
                        *g.labels.entry(l).or_default() += n;
                    }
                })
                .unwrap();
        }
    });

    let st = total.into_inner().unwrap();
    let mut o = String::new();
    o += &format!("evals {}\nhashes {}\n", st.evals, st.nontrivial.len());
    if truncated.load(Ordering::Relaxed) {
        o += "truncated\n";
    }
    for (l, n) in &st.labels {
        o += &format!("label {n} {l}\n");
    }
    let mut sm: Vec<u64> = st.samples.iter().map(|s| s.parse().unwrap()).collect();
    sm.sort();
    for i in sm.iter().take(4) {
        let p2 = p;
        let i = *i;
        let text = on_big_stack(move || {
            let mut src = Src::gen(case_seed(seed, p2.id, i));
            let mut ctx = Ctx { trace: Some(vec![]), ..Ctx::default() };
            run_case(p2, &mut src, &mut ctx);
            let mut t = ctx.trace.unwrap();
            let n = t.len();
            t.truncate(14);
            let mut s = format!("case {i}: {}", t.join("; "));
            s.retain(|c| c != '\n');
            if s.len() > 1500 {
                s = s.chars().take(1500).collect();
                s += "...";
            }
            if n > 14 {
                s += &format!(" ... ({n} lines in all)");
            }
            s
        });
        o += &format!("sample {text}\n");
    }
    let mut fl = fails.into_inner().unwrap();
    fl.sort();
    if let Some((i, m)) = fl.first() {
        o += &format!("fail {i} {}\n", m.replace('\n', " "));
    }
    fs::write(format!("{out}.tmp"), o).unwrap();
    fs::rename(format!("{out}.tmp"), &out).unwrap();
    0
}

/// run one generated case (by index), recording its bytes as they are drawn
fn gen_one(args: &[String]) -> i32 {
    threads::REPEAT.store(60, Ordering::Relaxed);
    let p = find(&args[1]);
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let idx: u64 = arg(args, "--index").unwrap().parse().unwrap();
    let dump = arg(args, "--dump").unwrap();
    engine::MINI.store(is_mini(p.id), Ordering::Relaxed);
    on_big_stack(move || {
        let mut f = fs::File::create(dump).unwrap();
        let _ = f.write_all(format!("property {}\n", p.id).as_bytes());
        let mut src = Src::gen(case_seed(seed, p.id, idx));
        src.dump_to(f);
        let mut ctx = Ctx::default();
        match run_case(p, &mut src, &mut ctx) {
            Some(m) => {
                println!("FAIL {m}");
                1
            }
            None => 0,
        }
    })
}

/// exit 1 with the failure, or 0
fn replay(args: &[String]) -> i32 {
    threads::REPEAT.store(200, Ordering::Relaxed);
    let text = fs::read_to_string(&args[1]).expect("replay file");
    let (id, case) = Case::from_text(&text).expect("replay file format");
    let p = find(&id);
    let quiet = args.iter().any(|a| a == "--quiet");
    engine::MINI.store(is_mini(p.id), Ordering::Relaxed);
    engine::LIVE_TRACE.store(!quiet, Ordering::Relaxed);
    on_big_stack(move || {
        let mut src = Src::replay(case);
        let mut ctx = Ctx { trace: if quiet { None } else { Some(vec![]) }, ..Ctx::default() };
        let r = run_case(p, &mut src, &mut ctx);
        if !quiet {
            for l in ctx.trace.unwrap_or_default() {
                println!("  {l}");
            }
        }
        match r {
            Some(m) => {
                println!("FAIL {m}");
                1
            }
            None => {
                println!("held");
                0
            }
        }
    })
}


/// shrink <case file> <best file>: writes each better case to the best file
fn shrink_cmd(args: &[String]) -> i32 {
    threads::REPEAT.store(60, Ordering::Relaxed);
    let text = fs::read_to_string(&args[1]).expect("case file");
    let (id, case) = Case::from_text(&text).expect("case file format");
    let best = args[2].clone();
    let p = find(&id);
    let deadline = Instant::now() + Duration::from_secs(45);
    on_big_stack(move || {
        let mut test = |c: &Case| -> bool {
            if Instant::now() > deadline {
                return false;
            }
            let mut src = Src::replay(c.clone());
            let mut ctx = Ctx::default();
            if run_case(p, &mut src, &mut ctx).is_some() {
                fs::write(format!("{best}.tmp"), c.to_text(p.id, "")).unwrap();
                fs::rename(format!("{best}.tmp"), &best).unwrap();
                true
            } else {
                false
            }
        };
        shrink(case, 30_000, &mut test);
    });
    0
}
