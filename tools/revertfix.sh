#!/bin/bash
# revertfix.sh: for each "fixed:" entry of known-findings.txt, run its
# property's check on a scratch copy of /repo without that commit.  It has to
# report the violation again.
here="$(cd "$(dirname "$0")/.." && pwd)"
grep '^fixed:' "$here/known-findings.txt" | while read -r _ prop commit _; do
  p="${prop#property=}"
  w="/tmp/rs/fix-$commit"
  mkdir -p "$w/v/work"
  git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$w"
  (cd "$w/repo" && git -C /repo show "$commit" -- src | patch -s -R -p1) || { echo "$commit: does not revert"; continue; }
  cp -r "$here/harness" "$here/regress" "$here/known-findings.txt" "$w/v/"
  cp /repo/Cargo.lock "$w/repo/" 2>/dev/null
  sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" "$w/v/harness/Cargo.toml"
  export CARGO_TARGET_DIR="/tmp/rs/target-$p"
  s=$(date +%s)
  (cd "$w/v/harness" && cargo build --offline -q --no-default-features --features "$p" >/dev/null 2>&1)
  out="$(VERIF_DIR="$w/v" "$CARGO_TARGET_DIR/debug/lcc-check" check "$p" --seed "${SEED:-1}" --tier quick 2>&1)"
  echo "$commit $p rc=$? $(( $(date +%s) - s ))s $(echo "$out" | grep -a -m1 VIOLATION | cut -c1-110)"
  rm -rf "$w"
done
