cd "$here/num" || exit 2
log="$here/out/build-$prop.log"
if ! cargo build --offline --locked --bin c21 >"$log" 2>&1; then
    echo "harness of $prop does not build against $repo:" >&2
    grep -E -A12 '^error' "$log" | head -60 >&2
    exit 2
fi
ulimit -v 28000000
"$here/target/debug/c21" "$@"
