# sourced by ./check
build_san || exit 2
ASAN=$TARGET/asan/x86_64-unknown-linux-gnu/release/vmon
LIMIT=420; SECS=45; SESSIONS=600; [ "$TIER" = thorough ] && { LIMIT=4000; SECS=900; SESSIONS=6000; }
export ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:allocator_may_return_null=0
if [ -n "$3" ] && [ "$3" != small ] && [ "$3" != graphs ]; then
  timeout -k 5 $LIMIT "$ASAN" "$@" > "$TARGET/out.$$"; rc=$?
else
  rc=0; : > "$TARGET/out.$$"
  [ -n "$3" ] || { timeout -k 5 $LIMIT "$ASAN" "$@" > "$TARGET/out.$$"; rc=$?; }
  if [ $rc = 0 ]; then
    WORK=$(mktemp -d) || exit 2
    "$ASAN" corpus "$WORK/corpus" $SESSIONS || exit 2
    python3 "$ROOT/tools/interpret.py" "$ROOT" "$TARGET/miri" "$WORK" $SECS "${@:3}" >> "$TARGET/out.$$"; rc=$?
    rm -rf "$WORK"
  fi
fi
