# sourced by ./check
build_vmon || exit 2
LIMIT=840; [ "$TIER" = thorough ] && LIMIT=3600
VMON="$TARGET/release/vmon" timeout -k 5 $LIMIT node "$ROOT/js/c29.mjs" "$ID" "$TIER" "${@:3}" > "$TARGET/out.$$"; rc=$?
