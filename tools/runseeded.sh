#!/bin/bash
# runseeded.sh ID...: run each planted bug's property's quick check against a
# scratch copy of /repo with the bug applied.  Development aid; /repo stays as
# it is.  CHK=Cxx runs another property's check; SEED, TIER as in check.sh.
here="$(cd "$(dirname "$0")/.." && pwd)"
for b in "$@"; do
  p="${CHK:-$(python3 -c "import json,sys;print(json.load(open('$here/seeded/$b/meta.json'))['property'])")}"
  w="/tmp/rs/$b"
  mkdir -p "$w/v/work"
  git -C /repo archive --prefix=repo/ HEAD | tar -x -C "$w"
  (cd "$w/repo" && patch -s -p1 <"$here/seeded/$b/patch.diff") || { echo "$b: does not apply"; continue; }
  cp -r "$here/harness" "$here/regress" "$here/known-findings.txt" "$w/v/" 2>/dev/null
  cp /repo/Cargo.lock "$w/repo/" 2>/dev/null
  sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" "$w/v/harness/Cargo.toml"
  s=$(date +%s)
  unset CARGO_PROFILE_DEV_OPT_LEVEL; [ "$p" = C15 ] && export CARGO_PROFILE_DEV_OPT_LEVEL=0 # as check.sh
  if (cd "$w/v/harness" && CARGO_TARGET_DIR=/tmp/rs/target-$p cargo build --offline -q --no-default-features --features "$p" >"$w/build.log" 2>&1); then
    cp "/tmp/rs/target-$p/debug/lcc-check" "$w/lcc-check"
    also=()
    if [ "$p" != C15 ]; then
      (cd "$w/v/harness" && CARGO_TARGET_DIR=/tmp/rs/target-$p cargo build --release --offline -q --no-default-features --features "$p" >"$w/build.log" 2>&1)
      also=(--also "/tmp/rs/target-$p/release/lcc-check")
    fi
    out="$(VERIF_DIR="$w/v" "$w/lcc-check" check "$p" "${also[@]}" --seed "${SEED:-1}" --tier "${TIER:-quick}" 2>&1)"; rc=$?
    echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -a -m1 VIOLATION | cut -c1-100) $(echo "$out" | grep -a -A3 -m1 VIOLATION | tail -n +2 | tr '\n' ' ' | cut -c1-160)"
  else
    echo "$b $p does not build"; grep -E "^error" -A5 "$w/build.log" | head
  fi
  rm -rf "$w"
done
