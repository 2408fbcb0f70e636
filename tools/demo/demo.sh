#!/bin/bash
# Builds the little program beside this script against /repo and runs it; all effects stay in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo" && cd "$t/demo" || exit 3
cargo build -q --release --offline --target-dir "$t/target" 2>"$t/log" || { cat "$t/log"; exit 3; }
mkdir "$t/work" && cd "$t/work" || exit 3
timeout 200 "$t/target/release/demo" "$t/work"
