#!/bin/bash
# coverage.sh: line coverage of /repo/src by a small run of every check (all but
# C12 in one build, then C12).  Prints the per-file summary and uncovered lines.
here="$(cd "$(dirname "$0")/.." && pwd)"
out=/tmp/lcc-cov; mkdir -p $out/vd
export VERIF_DIR=$out/vd CARGO_NET_OFFLINE=true RUSTFLAGS="-C instrument-coverage" CARGO_PROFILE_DEV_OPT_LEVEL=1
llvm="$(rustc +nightly --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin"
cd "$here/harness" || exit 2
cp -r "$here/regress" $out/vd/ 2>/dev/null
objs=()
for f in all C12; do
  LLVM_PROFILE_FILE=$out/build/%p.profraw CARGO_TARGET_DIR=$out/$f cargo +nightly build --offline --locked -q --no-default-features --features $f 2>/dev/null || exit 2
  objs+=(${objs:+-object} $out/$f/debug/lcc-check)
  [ $f = all ] && ids="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C14 C15 C16 C17 C18 C19 C20" || ids=C12
  for i in $ids; do
    LLVM_PROFILE_FILE=$out/p-%m-%p.profraw $out/$f/debug/lcc-check check $i --seed 1 --tier quick --scale ${SCALE:-0.01} --probe 0 2>&1 | tail -1
  done
done
$llvm/llvm-profdata merge -sparse $out/p-*.profraw -o $out/all.profdata
$llvm/llvm-cov report "${objs[@]}" -instr-profile=$out/all.profdata -sources /repo/src | cut -c1-200
$llvm/llvm-cov show "${objs[@]}" -instr-profile=$out/all.profdata -show-instantiations=false -sources /repo/src > $out/show.txt
