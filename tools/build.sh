# sourced by ./check and ./setup
. /opt/vp/env.sh > /dev/null 2>&1
cd "$ROOT" || exit 2
TARGET=$ROOT/.build
export CARGO_TARGET_DIR=$TARGET CARGO_NET_OFFLINE=true
mkdir -p "$TARGET"

# Cargo goes by time stamps; also rebuild when the content differs from the last build's.
stamp() { find /repo/rs -name target -prune -o -type f \( -name '*.rs' -o -name '*.pest' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum; }

build_vmon() (
  exec 9> "$TARGET/lock"; flock 9
  s=$(stamp)
  cd "$ROOT/harness" || exit 2
  if [ "$s" != "$(cat "$TARGET/stamp" 2>/dev/null)" ]; then
    rm -f "$TARGET/stamp"
    cargo clean --release --offline -p glicol -p glicol_parser -p glicol_synth > /dev/null 2>&1
  fi
  cargo build --release --offline > "$TARGET/build.log" 2>&1 || { grep -E '^error' -A8 "$TARGET/build.log" | head -60 >&2; echo "build failed" >&2; exit 2; }
  echo "$s" > "$TARGET/stamp"
)

# The same programs for the address sanitizer and for the interpreter.
build_san() (
  exec 9> "$TARGET/lock.san"; flock 9
  s=$(stamp)
  export RUSTUP_TOOLCHAIN=nightly
  if [ "$s" != "$(cat "$TARGET/stamp.san" 2>/dev/null)" ]; then
    rm -f "$TARGET/stamp.san"
    for d in "$TARGET/asan" "$TARGET/miri"; do
      [ -d "$d" ] && find "$d" -path '*/.fingerprint/*' -prune \( -name 'glicol*' -o -name 'bridge*' -o -name 'small*' -o -name 'vmon*' \) -exec rm -rf {} +
    done
  fi
  cd "$ROOT/harness" || exit 2
  CARGO_TARGET_DIR=$TARGET/asan RUSTFLAGS=-Zsanitizer=address cargo build --release --offline --target x86_64-unknown-linux-gnu > "$TARGET/build.asan.log" 2>&1 &
  cd "$ROOT/miri" || exit 2
  CARGO_TARGET_DIR=$TARGET/miri MIRIFLAGS=-Zmiri-disable-isolation cargo miri run --offline -- graph 0 1 -1 > "$TARGET/build.miri.log" 2>&1; rc=$?
  wait %1 || { grep -E '^error' -A8 "$TARGET/build.asan.log" | head -60 >&2; echo "build failed" >&2; exit 2; }
  [ $rc = 0 ] || grep -q "Undefined Behavior" "$TARGET/build.miri.log" || { tail -40 "$TARGET/build.miri.log" >&2; echo "build failed" >&2; exit 2; }
  echo "$s" > "$TARGET/stamp.san"
)
