#!/bin/bash
# check.sh <property> <quick|thorough>: build the harness against /repo's
# working tree and run one check.  Exit 0: held; 1: violated (VIOLATION line);
# 2: no answer (does not build, out of time).
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
seed="${VERIF_SEED:-1}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$here/work" "$here/target" "$here/evidence"
export CARGO_TARGET_DIR="$here/target/$id"
mkdir -p "$CARGO_TARGET_DIR"
# cargo goes by modification times; do not depend on them
sum="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
stamp="$CARGO_TARGET_DIR/repo.sum"
cd "$here/harness" || exit 2
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
  rm -f "$stamp"
  [ -d "$CARGO_TARGET_DIR/debug" ] && cargo clean --offline -q -p lazy-clone-collections >/dev/null 2>&1
  [ -d "$CARGO_TARGET_DIR/release" ] && cargo clean --offline -q --release -p lazy-clone-collections >/dev/null 2>&1
  [ -d "$CARGO_TARGET_DIR/miri" ] && cargo clean --offline -q --target-dir "$CARGO_TARGET_DIR/miri" >/dev/null 2>&1
fi
# an optimising build turns tail recursion into loops: C15 must not have that
[ "$id" = C15 ] && export CARGO_PROFILE_DEV_OPT_LEVEL=0
log="$here/work/build-$id.log"
feat=(--offline --locked -q --no-default-features --features "$id")
also=()
if [ "$id" != C15 ]; then
  # also as users ship it: optimised, without debug assertions
  cargo build --release "${feat[@]}" >"$log.release" 2>&1 &
fi
if ! cargo build "${feat[@]}" >"$log" 2>&1; then
  wait
  grep -E "^error" -A8 "$log" | head -60
  echo "$id: the harness does not build against /repo; no answer"
  exit 2
fi
if [ "$id" != C15 ]; then
  if wait $!; then also=(--also "$CARGO_TARGET_DIR/release/lcc-check")
  else echo "$id: the release build failed; left out"; fi
fi
echo "$sum" >"$stamp"
# recorded, unrepaired findings of this property (none are suppressed silently)
if [ -f "$here/known-findings.txt" ]; then
  grep "^finding: property=$id " "$here/known-findings.txt" | sed 's/^finding: /KNOWN-FINDING: /'
fi
exec "$CARGO_TARGET_DIR/debug/lcc-check" check "$id" --seed "$seed" --tier "$tier" "${also[@]}"
