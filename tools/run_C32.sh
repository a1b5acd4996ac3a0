# sourced by ./check
LIMIT=840; [ "$TIER" = thorough ] && LIMIT=3600
timeout -k 5 $LIMIT node "$ROOT/js/c32.mjs" "$ID" "$TIER" "${@:3}" > "$TARGET/out.$$"; rc=$?
