#!/bin/bash
# tryseeds.sh [id...]: each planted change builds, passes the stable tests, and its demonstration fails with it and passes without it.
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo" || exit 1
export CARGO_NET_OFFLINE=true
for id in ${@:-$(ls "$here/seeded")}; do
  s="$here/seeded/$id"; r=
  git checkout -q -- . && git apply --check "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  mkdir -p "$w/demo"; cp "$s/demo.sh" "$s/main.rs" "$w/demo/"
  bash "$w/demo/demo.sh" >"$w/log" 2>&1 || { echo "$id: demo fails without the change"; tail -5 "$w/log"; continue; }
  git apply "$s/patch.diff"
  cargo build --offline -q >"$w/log" 2>&1 || { echo "$id: does not build"; tail -5 "$w/log"; continue; }
  cargo test --workspace --all-features --no-fail-fast --offline >"$w/log" 2>&1 || { echo "$id: tests fail: $(grep -c FAILED "$w/log")"; grep "FAILED\|^error" "$w/log" | head -5; continue; }
  bash "$w/demo/demo.sh" >"$w/log" 2>&1 && { echo "$id: demo passes with the change"; continue; }
  echo "$id: confirmed ($(grep -m1 "panicked\|assert\|overflow\|left\|SIG" "$w/log" | cut -c1-100))"
done
