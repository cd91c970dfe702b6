#!/bin/bash
# Builds openraft of the current directory with demo.rs compiled into it (guarded hook) and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh
cd "$R" || exit 3
mkdir -p "$T/src"
cat > "$T/Cargo.toml" <<X
[package]
name = "openraft-verif-harness"
version = "0.1.0"
edition = "2021"
[dependencies]
openraft = { path = "$R/openraft" }
[workspace]
[profile.dev]
debug = 0
X
cp "$D/Cargo.lock.demo" "$T/Cargo.lock"
echo 'fn main() { openraft::verif_hook::demo(); println!("demo: ok"); }' > "$T/src/main.rs"
export CARGO_TARGET_DIR="$T/target" OPENRAFT_VERIF_HARNESS="$D/demo.rs" RUSTFLAGS="--cfg openraft_verif --cap-lints allow" CARGO_INCREMENTAL=0
cd "$T" && cargo run --offline --quiet
