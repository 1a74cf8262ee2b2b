#!/bin/bash
# builds demo.rs (beside this file) against the crates of the current directory (/repo) and runs it
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$HERE/demo.rs" "$W/src/main.rs"; cp "$REPO/Cargo.lock" "$W/Cargo.lock"
{ printf '[package]\nname = "vpdemo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
  for c in @DEPS@; do d=$c; [ $c = simple ] && d=.; echo "$c = { path = \"$REPO/$d\" }"; done; printf '\n[profile.dev]\nopt-level = 1\ndebug = false\n'; } > "$W/Cargo.toml"
cd "$W" && RUSTFLAGS="-A warnings" CARGO_TARGET_DIR="$W/t" cargo run --offline -q
