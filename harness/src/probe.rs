//! Small cases run under Valgrind's memcheck and under Miri, which see invalid
//! memory accesses and data races that a plain run may survive.  Where a tool
//! is missing or does not take the code, its part is left out (and said so in
//! the evidence); it never turns into an alarm.

use crate::engine::*;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tool {
    Memcheck,
    Miri,
}
use Tool::*;

pub struct Bad {
    pub case: Option<Case>,
    pub msg: String,
    /// how to see it again
    pub how: String,
}

pub struct Probe {
    exe: PathBuf,
    /// the hidden property with the small cases, "C16m"
    id: String,
    feature: String,
    seed: u64,
    work: PathBuf,
    harness: PathBuf,
    miri_target: PathBuf,
}

enum Ran {
    /// cases, and non-trivial ones among them
    Fine(u64, u64),
    /// what it says, the case
    Bad(String, Option<u64>),
    None(String),
}

impl Tool {
    fn name(self) -> &'static str {
        match self {
            Memcheck => "memcheck",
            Miri => "Miri",
        }
    }
}

impl Probe {
    pub fn new(exe: &Path, feature: &str, seed: u64, work: &Path, vdir: &Path) -> Self {
        Self {
            exe: exe.into(),
            id: format!("{feature}m"),
            feature: feature.into(),
            seed,
            work: work.into(),
            harness: vdir.join("harness"),
            miri_target: std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or(vdir.join("target")).join("miri"),
        }
    }

    fn miri_flags(&self, seed: u64) -> String {
        // without validation it is twice as fast, and uninitialised or dangling
        // values are still reported when used; but then it does not check that
        // pointers stay within what they were derived from
        let fast = if seed % 4 == 3 { "" } else { " -Zmiri-disable-validation" };
        format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed={seed}{fast}")
    }
    fn cmd(&self, t: Tool, miri_seed: u64, args: &[String]) -> Command {
        match t {
            Memcheck => {
                let mut c = Command::new("valgrind");
                c.args(["-q", "--error-exitcode=86", "--exit-on-first-error=yes", "--leak-check=no"]);
                c.arg("--expensive-definedness-checks=yes").arg(&self.exe).args(args);
                c
            }
            Miri => {
                let mut c = Command::new("cargo");
                c.args(["+nightly", "miri", "run", "--offline", "--locked", "-q", "--no-default-features", "--features"]);
                c.arg(&self.feature).arg("--").args(args);
                c.current_dir(&self.harness);
                c.env("CARGO_TARGET_DIR", &self.miri_target).env("MIRIFLAGS", self.miri_flags(miri_seed));
                c
            }
        }
    }
    fn text(&self, t: Tool, miri_seed: u64, args: &str) -> String {
        match t {
            Memcheck => format!("valgrind -q {} {args}", self.exe.display()),
            Miri => format!(
                "cd {} && MIRIFLAGS='{}' cargo +nightly miri run --offline --no-default-features --features {} -- {args}",
                self.harness.display(),
                self.miri_flags(miri_seed),
                self.feature
            ),
        }
    }

    fn start(&self, t: Tool, n: u64, miri_seed: u64, args: &[String]) -> Option<(std::process::Child, PathBuf, PathBuf)> {
        let (o, e) = (self.work.join(format!("{}-{n}.out", t.name())), self.work.join(format!("{}-{n}.err", t.name())));
        let c = self
            .cmd(t, miri_seed, args)
            .stdin(Stdio::null())
            .stdout(fs::File::create(&o).ok()?)
            .stderr(fs::File::create(&e).ok()?)
            .spawn()
            .ok()?;
        Some((c, o, e))
    }
    fn end(&self, t: Tool, (mut c, o, e): (std::process::Child, PathBuf, PathBuf), until: Instant) -> Ran {
        let status = loop {
            match c.try_wait() {
                Ok(Some(s)) => break s,
                Ok(None) if Instant::now() < until => std::thread::sleep(Duration::from_millis(20)),
                _ => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Ran::None("no answer in time".into());
                }
            }
        };
        let out = fs::read_to_string(o).unwrap_or_default();
        let err = fs::read(e).map(|v| String::from_utf8_lossy(&v).to_string()).unwrap_or_default();
        let last = err.lines().rev().find_map(|l| l.strip_prefix("@ ")).and_then(|i| i.trim().parse().ok());
        if status.success() {
            let mut w = out.lines().rev().find_map(|l| l.strip_prefix("interp ")).unwrap_or("0 0").split(' ');
            let mut num = || w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            return Ran::Fine(num(), num());
        }
        if let Some(m) = out.lines().rev().find_map(|l| l.strip_prefix("FAIL ")) {
            return Ran::Bad(format!("{m} (seen under {})", t.name()), last);
        }
        let clean = |l: &str| {
            let l = l.trim_start_matches(|c: char| c == '=' || c.is_ascii_digit());
            l.trim().to_string()
        };
        match t {
            Memcheck if status.code() == Some(86) => {
                let m: Vec<String> = err.lines().filter(|l| l.starts_with("==")).take(6).map(clean).collect();
                Ran::Bad(format!("memcheck: {}", m.join(" / ")), last)
            }
            Miri if err.contains("error: Undefined Behavior") => {
                let from: Vec<&str> = err.lines().skip_while(|l| !l.contains("error: Undefined Behavior")).collect();
                let at = from.iter().find(|l| l.trim_start().starts_with("-->")).map(|l| l.trim()).unwrap_or("");
                Ran::Bad(format!("Miri: {} {at}", from[0].trim_start_matches("error: ")), last)
            }
            _ => {
                use std::os::unix::process::ExitStatusExt;
                let l: Vec<&str> = err.lines().filter(|l| !l.starts_with('@')).collect();
                let l = l.iter().find(|l| l.starts_with("error")).or(l.last()).unwrap_or(&"");
                Ran::None(format!("exit {:?} signal {:?}: {l}", status.code(), status.signal()))
            }
        }
    }

    /// can it be used at all?
    fn ready(&self, t: Tool) -> Result<(), String> {
        let until = Instant::now() + Duration::from_secs(if t == Miri { 240 } else { 60 });
        let Some(c) = self.start(t, 99, 0, &["list".into()]) else { return Err("not installed".into()) };
        match self.end(t, c, until) {
            Ran::Fine(..) => Ok(()),
            Ran::Bad(m, _) | Ran::None(m) => Err(m),
        }
    }

    fn replay(&self, t: Tool, c: &Case, miri_seed: u64) -> Ran {
        let f = self.work.join("probe-cand");
        fs::write(&f, c.to_text(&self.id, "")).unwrap();
        let args = ["interp".into(), self.id.clone(), "--file".into(), f.display().to_string()];
        match self.start(t, 98, miri_seed, &args) {
            Some(c) => self.end(t, c, Instant::now() + Duration::from_secs(60)),
            None => Ran::None("does not start".into()),
        }
    }

    /// runs generated cases for about `secs` seconds on `n` processes
    pub fn sweep(&self, t: Tool, n: u64, secs: u64) -> Result<Result<(u64, u64), String>, Bad> {
        if let Err(m) = self.ready(t) {
            return Ok(Err(m));
        }
        let args = |k: u64| -> Vec<String> {
            let base = if t == Miri { 0 } else { 1 << 32 };
            let mut v = vec!["interp".to_string(), self.id.clone()];
            for (a, x) in [("--seed", self.seed), ("--from", base + k), ("--step", n), ("--secs", secs)] {
                v.push(a.into());
                v.push(x.to_string());
            }
            v
        };
        let until = Instant::now() + Duration::from_secs(secs + 90);
        let all: Vec<_> = (0..n).map(|k| self.start(t, k, self.seed * 64 + k, &args(k))).collect();
        let (mut sum, mut bad, mut none) = ((0, 0), None, None);
        for (k, c) in all.into_iter().enumerate() {
            let r = c.map(|c| self.end(t, c, until)).unwrap_or(Ran::None("does not start".into()));
            match r {
                Ran::Fine(a, b) => sum = (sum.0 + a, sum.1 + b),
                Ran::Bad(m, i) => {
                    bad.get_or_insert((k as u64, m, i));
                }
                Ran::None(m) => none = Some(m),
            }
        }
        let Some((k, msg, idx)) = bad else {
            return Ok(if sum.0 == 0 { Err(none.unwrap_or_default()) } else { Ok(sum) });
        };
        let how = self.text(t, self.seed * 64 + k, &args(k).join(" "));
        let Some(case) = idx.and_then(|i| self.case(i)) else { return Err(Bad { case: None, msg, how }) };
        let seeds = if self.id == "C20m" { 8 } else { 1 };
        let Some(ms) = (0..seeds).map(|s| k + 4 * s).find(|&s| matches!(self.replay(t, &case, s), Ran::Bad(..))) else {
            return Err(Bad { case: None, msg, how });
        };
        // smaller
        let deadline = Instant::now() + Duration::from_secs(60);
        let mut m2 = msg.clone();
        let mut test = |c: &Case| {
            if Instant::now() > deadline {
                return false;
            }
            match self.replay(t, c, ms) {
                Ran::Bad(m, _) => {
                    m2 = m;
                    true
                }
                _ => false,
            }
        };
        let (mut small, _) = shrink(case.clone(), 2000, &mut test);
        let mut msg = m2;
        let how = self.text(t, ms, &format!("interp {} --file <this file>", self.id));
        if t == Memcheck && self.ready(Miri).is_ok() {
            // optimised code may look as if it used undefined bits: Miri knows
            let sure = |c: &Case| match self.replay(Miri, c, 3) {
                Ran::Bad(m, _) => Some(m),
                _ => None,
            };
            match sure(&small) {
                Some(m) => msg += &format!("; {m}"),
                None => match sure(&case) {
                    Some(m) => {
                        small = case;
                        msg += &format!("; {m}")
                    }
                    None if msg.contains("ninitialised") => {
                        return Ok(Err(format!("not confirmed by Miri: {msg}")));
                    }
                    None => (),
                },
            }
        }
        Err(Bad { case: Some(small), msg, how })
    }

    /// the bytes of a generated case
    fn case(&self, i: u64) -> Option<Case> {
        let d = self.work.join("probe-dump");
        let mut c = Command::new(&self.exe);
        c.args(["gen-one", &self.id, "--seed", &self.seed.to_string(), "--index", &i.to_string(), "--dump"]).arg(&d);
        let mut c = c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
        let until = Instant::now() + Duration::from_secs(30);
        while matches!(c.try_wait(), Ok(None)) && Instant::now() < until {
            std::thread::sleep(Duration::from_millis(10));
        }
        let _ = c.kill();
        let _ = c.wait();
        Case::from_text(&fs::read_to_string(&d).unwrap_or_default()).map(|x| x.1)
    }
}
