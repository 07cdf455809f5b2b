#!/bin/bash
# check.sh ID [quick|thorough]      build the harness against /repo's working tree and run one check
# check.sh --build                  only build
# check.sh --replay ID FILE         run one check on one recorded case
# Exit: 0 held, 1 VIOLATION, 2 no answer (the build failed, say).
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" VERIF_SRC=/repo/src
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
build() {
  # cargo goes by modification times, which a checkout or an applied patch need not move forward.
  local now old
  now=$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  old=$(cat "$CARGO_TARGET_DIR/repo.sha" 2>/dev/null)
  if [ "$now" != "$old" ]; then
    for d in "$here"/harness "$here"/plain; do
      [ -d "$d" ] && (cd "$d" && cargo clean --offline --release -p raw-cpuid >/dev/null 2>&1)
    done
    rm -f "$CARGO_TARGET_DIR/repo.sha"
  fi
  for d in "$here"/harness "$here"/plain; do
    [ -d "$d" ] || continue
    (cd "$d" && cargo build --release --offline --locked -q >"$CARGO_TARGET_DIR/build.log" 2>&1) || { cat "$CARGO_TARGET_DIR/build.log" >&2; return 1; }
  done
  echo "$now" > "$CARGO_TARGET_DIR/repo.sha"
}
# The command itself, from a copy, as its own lock file is not tracked.
build_cli() {
  local now src="$CARGO_TARGET_DIR/cli-src"
  now=$(cat "$CARGO_TARGET_DIR/repo.sha")
  [ "$now" = "$(cat "$CARGO_TARGET_DIR/cli.sha" 2>/dev/null)" ] && [ -x "$CARGO_TARGET_DIR/cli/release/cpuid" ] && return
  rm -rf "$CARGO_TARGET_DIR/cli-src" && mkdir -p "$src" && cp -r /repo/Cargo.toml /repo/src "$src/" && cp "$here/cli/Cargo.lock" "$src/" || return 1
  [ -d /repo/examples ] && cp -r /repo/examples "$src/"
  (cd "$src" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/cli" cargo build --release --offline -q --features cli --bin cpuid >"$CARGO_TARGET_DIR/build.log" 2>&1) || { cat "$CARGO_TARGET_DIR/build.log" >&2; return 1; }
  echo "$now" > "$CARGO_TARGET_DIR/cli.sha"
}
# The library with one of its features each, and otherwise optimised.
build_kinds() {
  local now k
  now=$(cat "$CARGO_TARGET_DIR/repo.sha")
  [ "$now" = "$(cat "$CARGO_TARGET_DIR/kinds.sha" 2>/dev/null)" ] && [ -z "$(find "$here/plain" "$here/harness/src/obs.rs" "$here/harness/src/table.rs" -newer "$CARGO_TARGET_DIR/kinds.sha" -print -quit)" ] && return
  for k in slow:serialize small:std; do
    (cd "$here/plain" && export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/kinds" && { cargo clean --offline --profile ${k%:*} -p raw-cpuid >/dev/null 2>&1
      cargo build --profile ${k%:*} --features ${k#*:} --offline --locked -q; } >"$here/target/build.log" 2>&1) || { rm -f "$CARGO_TARGET_DIR/kinds/${k%:*}/plainobs"; cat "$CARGO_TARGET_DIR/build.log" >&2; return 1; }
  done
  echo "$now" > "$CARGO_TARGET_DIR/kinds.sha"
}
# The questions in the interpreter; a first run, which is asked nothing, builds them.
build_miri() {
  local now
  now=$(cat "$CARGO_TARGET_DIR/repo.sha")
  [ "$now" = "$(cat "$CARGO_TARGET_DIR/miri.sha" 2>/dev/null)" ] && return
  rm -rf "$CARGO_TARGET_DIR/miri"
  (cd "$here/miri" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/miri" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" \
    cargo +nightly miri run --offline --locked -q </dev/null >"$CARGO_TARGET_DIR/build.log" 2>&1) || { cat "$CARGO_TARGET_DIR/build.log" >&2; return 1; }
  echo "$now" > "$CARGO_TARGET_DIR/miri.sha"
}
# The 32-bit build. Nothing of the standard library is there for such a processor but its source.
build_narrow() {
  local now
  now=$(cat "$CARGO_TARGET_DIR/repo.sha")
  [ "$now" = "$(cat "$CARGO_TARGET_DIR/narrow.sha" 2>/dev/null)" ] && [ -x "$CARGO_TARGET_DIR/narrow/i686-unknown-linux-gnu/release/narrowobs" ] && [ -z "$(find "$here/narrow" "$here/harness/src/obs.rs" "$here/harness/src/table.rs" -newer "$CARGO_TARGET_DIR/narrow.sha" -print -quit)" ] && return
  (cd "$here/narrow" && export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/narrow" RUSTFLAGS="-C link-arg=-nostartfiles -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static" &&
    { cargo +nightly clean --offline --release --target i686-unknown-linux-gnu -p raw-cpuid >/dev/null 2>&1
      cargo +nightly build --release --offline --locked -q -Zbuild-std=core,alloc -Zbuild-std-features=compiler-builtins-mem --target i686-unknown-linux-gnu; } >"$here/target/build.log" 2>&1) || { cat "$CARGO_TARGET_DIR/build.log" >&2; return 1; }
  echo "$now" > "$CARGO_TARGET_DIR/narrow.sha"
}
# Processors that are no x86 ones, played by the interpreter; a first run, which is asked nothing, builds them.
elsewhere="s390x-unknown-linux-gnu powerpc-unknown-linux-gnu aarch64-unknown-linux-gnu"
build_elsewhere() {
  local now t p pids="" bad=0
  now=$(cat "$CARGO_TARGET_DIR/repo.sha")
  [ "$now" = "$(cat "$CARGO_TARGET_DIR/elsewhere.sha" 2>/dev/null)" ] && [ -z "$(find "$here/elsewhere" "$here/harness/src/obs.rs" "$here/harness/src/table.rs" -newer "$CARGO_TARGET_DIR/elsewhere.sha" -print -quit)" ] && return
  rm -rf "$CARGO_TARGET_DIR/elsewhere" && mkdir -p "$CARGO_TARGET_DIR/elsewhere"
  for t in $elsewhere; do
    (cd "$here/elsewhere" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/elsewhere/$t" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation" \
      cargo +nightly miri run --target $t --offline --locked -q </dev/null >"$CARGO_TARGET_DIR/elsewhere/$t.log" 2>&1 9>&-) &
    pids="$pids $!"
  done
  for p in $pids; do wait $p || bad=1; done
  [ $bad = 0 ] && echo "$now" > "$CARGO_TARGET_DIR/elsewhere.sha" || cat "$CARGO_TARGET_DIR"/elsewhere/*.log >&2
}
(
  flock 9
  build || exit 1
  case "$1$2" in *C26*|--build*) build_kinds ;; esac
  case "$1$2" in *C27*|--build*) build_cli || exit 1 ;; esac
  case "$1$2" in *C30*|--build*) build_miri || exit 1 ;; esac
  case "$1$2" in *C32*|--build*) build_narrow ;; esac
  case "$1$2" in *C34*|--build*) build_elsewhere ;; esac
) 9> "$CARGO_TARGET_DIR/lock" || { echo "the harness does not build against /repo" >&2; exit 2; }
case "$1" in
  --build) exit 0 ;;
  --replay) exec "$CARGO_TARGET_DIR/release/cpuidcheck" replay "$2" "$3" ;;
  *) exec "$CARGO_TARGET_DIR/release/cpuidcheck" check "$1" ${2:+"$2"} ;;
esac
