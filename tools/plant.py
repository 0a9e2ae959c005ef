#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: make and validate planted bugs (development aid; no
check uses it).  SPEC defines BUGS: list of dicts id, property, edits
[(file, old, new)], needs, breaks, demo (Rust main.rs text), serde (bool).
Each is validated in a scratch copy of /repo under /tmp and written to
/verif/seeded/<id>/."""
import os, sys, subprocess, shutil, json, runpy, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN = '''#!/bin/bash
# exit 0: the property's example holds; nonzero: it does not
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -A warnings -C opt-level=@OPT@ -C debug-assertions=@DBG@ --crate-name lazy_clone_collections \\
  --crate-type rlib -o "$t/liblazy_clone_collections.rlib" src/lib.rs >"$t/log" 2>&1 || { tail -5 "$t/log"; exit 3; }
rustc --edition 2021 -A warnings -C opt-level=@OPT@ -C debug-assertions=@DBG@ --extern "lazy_clone_collections=$t/liblazy_clone_collections.rlib" \\
  -o "$t/demo" "$d/demo.rs" >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 3; }
ulimit -c 0
timeout 120 "$t/demo"
'''
SERDE = '''#!/bin/bash
# exit 0: the property's example holds; nonzero: it does not
d="$(cd "$(dirname "$0")" && pwd)"
r="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"
cat >"$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
lazy-clone-collections = { path = "$r", features = ["serde"] }
serde = "1"
serde_json = "1"
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
'''
def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env={**os.environ, **(env or {})})
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; only = set(sys.argv[2:])
    clean = tempfile.mkdtemp(prefix="plant-clean-", dir="/tmp")
    base = "/tmp/plant/copy"
    shutil.rmtree(base, ignore_errors=True)
    sh(f"cp -a /repo {base}", "/")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in bugs:
        if only and b["id"] not in only: continue
        sh("git checkout -q -- .", base)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(base, f); s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches", s.count(old), f, repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        diff = sh("git diff", base).stdout
        d = tempfile.mkdtemp(prefix="plant-demo-", dir="/tmp")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write((SERDE if b.get("serde") else PLAIN).replace("@OPT@", str(b.get("opt", 1))).replace("@DBG@", b.get("dbg", "on")))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(f"bash {d}/demo.sh", "/repo")
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN", r.returncode, r.stdout[-700:]); continue
        r = sh(f"bash {d}/demo.sh", base)
        if r.returncode in (0, 3):
            print(b["id"], "DEMO rc with patch", r.returncode, r.stdout[-700:]); continue
        dm = r.stdout.strip().splitlines()[-1:] 
        r = sh("cargo test --offline -q --all-features 2>&1 | tail -40", base, {"CARGO_TARGET_DIR": "/tmp/plant/target"}) if False else sh("bash /tmp/plant/test.sh " + base, base)
        if "TESTS OK" not in r.stdout:
            print(b["id"], "TESTS FAIL", r.stdout[-600:]); shutil.rmtree(d); continue
        dst = os.path.join(here, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst); shutil.rmtree(d)
        print(b["id"], "ok", b["property"], dm, flush=True)
    shutil.rmtree(base, ignore_errors=True); shutil.rmtree(clean, ignore_errors=True)
main()
