//! The parent process: runs the worker, confirms, shrinks and reports.

use crate::engine::*;
use crate::{arg, find, verif_dir, ASSUMPTIONS, HANG, LEVEL};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Plain,
    Crash,
    Hang,
}

struct Found {
    case: Case,
    msg: String,
    kind: Kind,
}

enum Out {
    Held,
    Bad(String, Kind),
    Unknown(String),
}

fn run_child(cmd: &mut Command, limit: Duration) -> Option<std::process::Output> {
    // None: the limit ran out; files, not pipes, so that no output blocks
    let mut c = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        use std::io::Read;
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(status)) => {
                return Some(std::process::Output { status, stdout: rd.join().unwrap_or_default(), stderr: vec![] })
            }
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 10 }));
            }
            Err(_) => return None,
        }
    }
}

/// a run of our own program with a limit on its CPU time: a case that uses up
/// what is thousands of times its usual need does not end, however busy the
/// machine is; running out of wall-clock time, in contrast, shows nothing
fn limited(exe: &Path, cpu: u64) -> Command {
    let mut c = Command::new("/bin/sh");
    c.args(["-c", &format!("ulimit -c 0; ulimit -t {cpu}; exec \"$0\" \"$@\"")]).arg(exe);
    c
}
const CPU: u64 = 45;
const WALL: Duration = Duration::from_secs(120);
const SIGXCPU: i32 = 24;

/// what a child run of one case shows
fn judge(o: Option<std::process::Output>) -> Out {
    let Some(o) = o else {
        return Out::Unknown("no answer in time".into());
    };
    if let Some(sig) = o.status.signal() {
        if sig == SIGXCPU {
            return Out::Bad("an operation does not end".into(), Kind::Hang);
        }
        // SIGKILL and SIGTERM come from outside and are not evidence
        if sig == 9 || sig == 15 {
            return Out::Unknown(format!("ended by signal {sig}"));
        }
        return Out::Bad(format!("process ended by signal {sig} (crash or abort in the code under test)"), Kind::Crash);
    }
    match o.status.code() {
        Some(0) => Out::Held,
        Some(1) => {
            let s = String::from_utf8_lossy(&o.stdout);
            let m = s.lines().rev().find_map(|l| l.strip_prefix("FAIL ")).unwrap_or("failed").to_string();
            Out::Bad(m, Kind::Plain)
        }
        // a sanitizer's report
        Some(86) => Out::Bad("sanitizer report: invalid memory access".into(), Kind::Crash),
        c => Out::Unknown(format!("exit code {c:?}")),
    }
}

struct Run {
    exe: PathBuf,
    id: String,
    seed: u64,
    cases: u64,
    threads: u64,
    cap: u64,
    work: PathBuf,
}

enum Worker {
    Done(String),
    Died(i32),
    Late,
    Broken(String),
}

impl Run {
    fn out(&self) -> PathBuf {
        self.work.join("out")
    }
    fn worker(&self) -> Worker {
        let _ = fs::remove_file(self.out());
        let mut w = Command::new(&self.exe);
        w.arg("worker").arg(&self.id);
        w.args(["--seed", &self.seed.to_string(), "--cases", &self.cases.to_string()]);
        w.args(["--threads", &self.threads.to_string(), "--cap", &self.cap.to_string()]);
        w.arg("--out").arg(self.out());
        match run_child(&mut w, Duration::from_secs(self.cap) + HANG * 2) {
            None => Worker::Late,
            Some(o) if o.status.success() => {
                let r = fs::read_to_string(self.out()).unwrap_or_default();
                if r.is_empty() {
                    Worker::Broken("no result".into())
                } else {
                    Worker::Done(r)
                }
            }
            Some(o) => match o.status.signal() {
                Some(s) if s != 9 && s != 15 => Worker::Died(s),
                s => match o.status.code() {
                    Some(86) => Worker::Died(86),
                    c => Worker::Broken(format!("{c:?}, signal {s:?}")),
                },
            },
        }
    }
    fn gen_one(&self, i: u64) -> Option<Found> {
        let dump = self.work.join("dump");
        let o = run_child(
            limited(&self.exe, CPU)
                .args(["gen-one", &self.id, "--seed", &self.seed.to_string(), "--index", &i.to_string(), "--dump"])
                .arg(&dump),
            WALL,
        );
        match judge(o) {
            Out::Bad(msg, kind) => {
                let (_, case) = Case::from_text(&fs::read_to_string(&dump).unwrap_or_default())?;
                Some(Found { case, msg, kind })
            }
            _ => None,
        }
    }
    fn replay(&self, c: &Case, cpu: u64) -> Out {
        let f = self.work.join("cand");
        fs::write(&f, c.to_text(&self.id, "")).unwrap();
        judge(run_child(limited(&self.exe, cpu).arg("replay").arg(&f).arg("--quiet"), WALL))
    }
    /// cases which were in progress when the worker died, and those before
    fn in_flight(&self) -> Vec<u64> {
        let prog = fs::read(format!("{}.progress", self.out().display())).unwrap_or_default();
        let mut idxs: Vec<u64> = prog
            .chunks(8)
            .filter(|c| c.len() == 8)
            .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
            .filter(|&i| i > 0)
            .map(|i| i - 1)
            .collect();
        idxs.sort();
        let mut cand = idxs.clone();
        for d in 1..=32u64 {
            cand.extend(idxs.iter().filter(|i| **i >= d).map(|i| i - d));
        }
        let mut seen = std::collections::HashSet::new();
        cand.retain(|c| seen.insert(*c));
        cand
    }

    /// The generated cases of this run: the worker's result, a failure that
    /// shows in isolation, or one that only shows (repeatedly) in whole runs.
    /// Err: no answer.
    fn search(&self) -> Result<(String, Option<Found>, Option<String>), String> {
        let (id, t0) = (&self.id, Instant::now());
        let mut res = String::new();
        for attempt in 0..3 {
            let mut found = None;
            let why = match self.worker() {
                Worker::Late => return Err("no answer within the time limit".into()),
                Worker::Broken(m) => return Err(format!("the worker ended abnormally ({m})")),
                Worker::Died(sig) => {
                    eprintln!("{id}: worker ended by signal {sig}");
                    let mut n = 0;
                    for i in self.in_flight() {
                        if let Some(f) = self.gen_one(i) {
                            found = Some(f);
                            break;
                        }
                        n += 1;
                        if n > 200 || t0.elapsed() > Duration::from_secs(self.cap + 120) {
                            break;
                        }
                    }
                    format!("process ended by signal {sig} (crash or abort in the code under test)")
                }
                Worker::Done(r) => {
                    if let Some(i) = r.strip_prefix("hang ") {
                        let i: u64 = i.trim().parse().unwrap();
                        found = self.gen_one(i);
                        if found.is_none() {
                            return Err(format!("case {i} took very long in the worker, but ends on its own"));
                        }
                        String::new()
                    } else {
                        res = r;
                        let f = res.lines().find_map(|l| l.strip_prefix("fail "));
                        match f {
                            None => return Ok((res, None, None)),
                            Some(f) => {
                                let (i, m) = f.split_once(' ').unwrap_or((f, ""));
                                let i: u64 = i.parse().unwrap();
                                for _ in 0..3 {
                                    found = self.gen_one(i);
                                    if found.is_some() {
                                        break;
                                    }
                                }
                                m.to_string()
                            }
                        }
                    }
                }
            };
            if found.is_some() {
                return Ok((res, found, None));
            }
            eprintln!("{id}: \"{why}\" did not reproduce in isolation (attempt {})", attempt + 1);
            // it is believed if it shows again
            if attempt >= 1 {
                return Ok((res, None, Some(why)));
            }
        }
        Ok((res, None, None))
    }

    fn minimise(&self, f: Found) -> (Case, String) {
        let slow = |c: &Case| -> bool { matches!(self.replay(c, 20), Out::Bad(..)) };
        match f.kind {
            Kind::Plain => {
                let (a, b) = (self.work.join("start"), self.work.join("best"));
                fs::write(&a, f.case.to_text(&self.id, "")).unwrap();
                let _ = run_child(Command::new(&self.exe).arg("shrink").arg(&a).arg(&b), Duration::from_secs(90));
                if let Ok(t) = fs::read_to_string(&b) {
                    if let Some((_, c)) = Case::from_text(&t) {
                        // it has to fail on its own in a fresh process
                        for _ in 0..2 {
                            if let Out::Bad(m, _) = self.replay(&c, CPU) {
                                return (c, m);
                            }
                        }
                    }
                }
                (f.case, f.msg)
            }
            k => {
                let deadline = Instant::now() + Duration::from_secs(60);
                let (mut msg, orig) = (f.msg.clone(), f.case.clone());
                let limit = if k == Kind::Hang { 4 } else { 20 };
                let mut test = |c: &Case| -> bool {
                    if Instant::now() > deadline {
                        return false;
                    }
                    match self.replay(c, limit) {
                        Out::Bad(m, k2) if k2 == k => {
                            msg = m;
                            true
                        }
                        _ => false,
                    }
                };
                let (c, _) = shrink(f.case, 1500, &mut test);
                if k == Kind::Hang && !slow(&c) {
                    return (orig, f.msg);
                }
                (c, msg)
            }
        }
    }
}

pub fn check(args: &[String]) -> i32 {
    let id = args.get(1).cloned().unwrap_or_default();
    let p = find(&id);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cases = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let cap: u64 = arg(args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 7200 } else { 300 });
    let threads: u64 = arg(args, "--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16));
    let t0 = Instant::now();
    let vdir = verif_dir();
    let work = vdir.join("work").join(format!("{id}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&work);
    fs::create_dir_all(&work).unwrap();
    let run = Run { exe: std::env::current_exe().unwrap(), id: id.clone(), seed, cases, threads, cap, work: work.clone() };
    let give_up = |why: &str| -> i32 {
        eprintln!("{id}: {why}; inconclusive");
        let _ = fs::remove_dir_all(&work);
        2
    };

    // saved inputs first
    let mut regress = 0u64;
    let mut found: Option<Found> = None;
    let mut files: Vec<PathBuf> = fs::read_dir(vdir.join("regress"))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        if !name.starts_with(&format!("{id}-")) {
            continue;
        }
        let Some((_, case)) = Case::from_text(&fs::read_to_string(&f).unwrap_or_default()) else { continue };
        regress += 1;
        if let Out::Bad(msg, kind) = run.replay(&case, CPU) {
            found = Some(Found { case, msg, kind });
            break;
        }
    }

    let mut res = String::new();
    let mut again: Option<String> = None;
    if found.is_none() {
        match run.search() {
            Err(why) => return give_up(&why),
            Ok((r, f, a)) => (res, found, again) = (r, f, a),
        }
    }

    let mut evals = regress;
    let mut hashes = 0;
    let mut labels: Vec<(String, u64)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut truncated = false;
    for l in res.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "evals" => evals += rest.parse::<u64>().unwrap(),
            "hashes" => hashes = rest.parse().unwrap(),
            "truncated" => truncated = true,
            "label" => {
                let (n, l) = rest.split_once(' ').unwrap();
                labels.push((l.to_string(), n.parse().unwrap()));
            }
            "sample" => samples.push(rest.to_string()),
            _ => (),
        }
    }

    // other cases with the optimised library: no debug assertions, wrapping
    // arithmetic
    let mut run = run;
    if let (Some(exe), None, None) = (arg(args, "--also"), &found, &again) {
        run.exe = exe.into();
        run.seed = seed ^ 0x5eed_0000;
        run.cases = cases / 4;
        match run.search() {
            Err(why) => return give_up(&format!("release build: {why}")),
            Ok((r, f, a)) => {
                for l in r.lines() {
                    if let Some(n) = l.strip_prefix("evals ") {
                        let n = n.parse::<u64>().unwrap();
                        evals += n;
                        labels.push(("cases run with the release build".to_string(), n));
                    }
                }
                (found, again) = (f, a);
            }
        }
        if found.is_none() && again.is_none() {
            run.exe = std::env::current_exe().unwrap();
        }
    }

    // small cases under memcheck and Miri
    let mut probed = None;
    if found.is_none() && again.is_none() {
        use crate::probe::{Probe, Tool};
        let pr = Probe::new(&run.exe, &id, seed, &work, &vdir);
        let tools: &[(Tool, &str, u64, u64)] = match id.as_str() {
            "C16" | "C17" => &[(Tool::Memcheck, "memcheck", 40, 1200), (Tool::Miri, "Miri", 50, 1800)],
            "C21" => &[(Tool::Memcheck, "memcheck", 20, 600), (Tool::Miri, "Miri", 40, 1500)],
            "C20" => &[(Tool::Miri, "Miri", 90, 2400)],
            _ => &[],
        };
        for &(t, name, q, th) in tools {
            let secs = arg(args, "--probe").and_then(|s| s.parse().ok()).unwrap_or(if thorough { th } else { q });
            match pr.sweep(t, threads.min(8), secs) {
                Ok(Ok((n, nt))) => {
                    evals += n;
                    labels.push((format!("small cases run under {name}"), n));
                    labels.push((format!("of these non-trivial, {name}"), nt));
                }
                Ok(Err(why)) => {
                    eprintln!("{id}: {name} gave no answer, left out: {why}");
                    labels.push((format!("{name} left out: {why}"), 1));
                }
                Err(b) => {
                    probed = Some(b);
                    break;
                }
            }
        }
    }

    let mut code = 0;
    let mut violations = 0;
    let rdir = vdir.join("replays");
    if let Some(b) = probed {
        violations = 1;
        let _ = fs::create_dir_all(&rdir);
        let comment = format!("{}\nto see it again: {}", b.msg, b.how);
        let path = match b.case {
            Some(case) => {
                let path = rdir.join(format!("{id}m-{:016x}.case", case.hash()));
                let _ = fs::write(&path, case.to_text(&format!("{id}m"), ""));
                let o = run_child(limited(&run.exe, 20).arg("replay").arg(&path), WALL);
                let trace = o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
                println!("{id}: {}", b.msg);
                for l in trace.lines().take(60) {
                    println!("    {l}");
                }
                let _ = fs::write(&path, case.to_text(&format!("{id}m"), &format!("{comment}\ncase (in a plain run):\n{trace}")));
                path
            }
            None => {
                let path = rdir.join(format!("{id}-seed-{seed}.txt"));
                let _ = fs::write(&path, format!("# {}\n{}\n", b.msg, b.how));
                println!("{id}: {}", b.msg);
                path
            }
        };
        println!("VIOLATION property={id} replay={}", path.display());
        samples.insert(0, format!("VIOLATION: {}", b.msg));
        code = 1;
    } else if let Some(f) = found {
        violations = 1;
        let (case, msg) = run.minimise(f);
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-{:016x}.case", case.hash()));
        let _ = fs::write(&path, case.to_text(&id, ""));
        let o = run_child(limited(&run.exe, 20).arg("replay").arg(&path), WALL);
        let trace = o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        let cmd = run.exe.strip_prefix(&vdir).unwrap_or(&run.exe).display();
        let comment = format!("{msg}\nto see it again: {cmd} replay <this file>\nminimal case:\n{trace}");
        let _ = fs::write(&path, case.to_text(&id, &comment));
        println!("{id}: {msg}");
        for l in trace.lines().take(60) {
            println!("    {l}");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        samples.insert(0, format!("VIOLATION: {msg}"));
        code = 1;
    } else if let Some(msg) = again {
        violations = 1;
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-seed-{seed}.txt"));
        let _ = fs::write(
            &path,
            format!("# {msg}\n# fails repeatedly as part of a whole run, not in a single case\nlcc-check check {id} --seed {seed} --tier {tier}\n"),
        );
        println!("{id}: {msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        samples.insert(0, format!("VIOLATION: {msg}"));
        code = 1;
    } else {
        println!(
            "{id}: held on {evals} cases ({hashes} distinct non-trivial) in {:.1} s{}",
            t0.elapsed().as_secs_f64(),
            if truncated { " (stopped at the time cap)" } else { "" }
        );
    }
    write_evidence(&vdir, p, &tier, seed, evals, hashes, &labels, &samples, truncated, regress, t0, violations);
    let _ = fs::remove_dir_all(&work);
    code
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    vdir: &Path,
    p: &Prop,
    tier: &str,
    seed: u64,
    evals: u64,
    hashes: u64,
    labels: &[(String, u64)],
    samples: &[String],
    truncated: bool,
    regress: u64,
    t0: Instant,
    violations: u64,
) {
    let mut o = String::new();
    o += "{\n";
    o += &format!(" \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n", p.id);
    o += &format!(" \"level\": \"{}\",\n \"coverage\": {{\n", LEVEL);
    o += &format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {hashes},\n");
    o += &format!("  \"rule\": \"{}\",\n", esc(p.rule));
    o += &format!("  \"saved_inputs_replayed\": {regress},\n");
    o += &format!("  \"stopped_at_time_cap\": {truncated},\n");
    let ls: Vec<String> = labels.iter().map(|(l, n)| format!("   \"{}\": {n}", esc(l))).collect();
    o += &format!("  \"distribution\": {{\n{}\n  }},\n", ls.join(",\n"));
    let ss: Vec<String> = samples.iter().map(|s| format!("   \"{}\"", esc(s))).collect();
    o += &format!("  \"samples\": [\n{}\n  ]\n }},\n", ss.join(",\n"));
    let asm: Vec<String> = ASSUMPTIONS.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    o += &format!(" \"assumptions\": [{}],\n", asm.join(", "));
    o += &format!(" \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n", t0.elapsed().as_secs_f64());
    let dir = vdir.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id)), o).unwrap();
}
