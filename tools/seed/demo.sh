#!/bin/bash
# Runs the tests in demo.rs inside a scratch copy of the buildable part of /repo.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/view"
cp /opt/vp/view/Cargo.toml /opt/vp/view/Cargo.lock "$tmp/view/" || exit 3
ln -s /repo/tests "$tmp/view/tests"
/opt/vp/prune/target/release/prune /repo "$tmp/view" /opt/vp/rules.txt || exit 3
cp -a /opt/vp/target "$tmp/target" 2>/dev/null
export CARGO_TARGET_DIR="$tmp/target"
cat "$here/demo.rs" >> "$tmp/view/$(cat "$here/demo.where")" || exit 3
cd "$tmp/view" || exit 3
if [ -f "$here/demo.ranks" ]; then
    cargo test --no-run --lib --offline --message-format=json > "$tmp/build.json" 2> "$tmp/build.log" || { tail -30 "$tmp/build.log"; exit 3; }
    bin=$(grep '"subsweep"' "$tmp/build.json" | grep -o '"executable":"[^"]*"' | tail -1 | cut -d'"' -f4)
    [ -x "$bin" ] || { echo "no test program"; exit 3; }
    timeout 120 mpirun -n "$(cat "$here/demo.ranks")" "$bin" --color never --test-threads 1 planted_demo > "$tmp/log" 2>&1
else
    timeout 250 cargo test --lib --offline -- --color never --test-threads 1 planted_demo > "$tmp/log" 2>&1
fi
rc=$?
tail -25 "$tmp/log"
grep -q "test result: ok. [1-9]" "$tmp/log" || [ $rc -ne 0 ] || rc=4
exit $rc
