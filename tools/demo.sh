#!/bin/bash
# Runs the recorded case (case.txt) through the program's real entry point and compares what it does (result, account
# contents, cross-program calls) with the behaviour recorded on the correct program (expected.txt).
d=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d)
trap 'rm -rf "$s"' EXIT
. /opt/vp/lib/env.sh
cp -a /opt/vp/mirror/src "$s/m"
mkdir -p "$s/t/debug" "$s/r/src"
for x in build deps .fingerprint; do cp -a "/opt/vp/mirror/target/debug/$x" "$s/t/debug/"; done
cp "$d/main.rs" "$s/r/src/main.rs"
cp "$d/funcs.rs" "$s/r/src/funcs.rs"
cp "$d/Cargo.toml.txt" "$s/r/Cargo.toml"
cp "$s/m/Cargo.lock" "$s/r/Cargo.lock"
export CARGO_TARGET_DIR="$s/t" CARGO_INCREMENTAL=0
(cd "$s/r" && cargo build --offline >"$s/log" 2>&1) || { tail -n 20 "$s/log"; exit 3; }
"$s/t/debug/vreplay" <"$d/case.txt" 2>/dev/null | grep -E '^(case|result|cpi|acct|ret) ' | sed 's/^result err .*/result err/; s/^result panic .*/result err/' >"$s/out"
if cmp -s "$s/out" "$d/expected.txt"; then echo "as expected"; exit 0; fi
echo "the program does something else:"
diff "$d/expected.txt" "$s/out" | cut -c1-300 | head -20
exit 1
