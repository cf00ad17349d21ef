#!/bin/bash
# Run with the repository as working directory: exits 0 if the library behaves, 1 if it does not.
# Builds the library as it is there, with stand-ins for the crates that are not available offline.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/demo/src" "$d/demo/.cargo"
cp -r "$here/env" "$d/env"
cp "$here/demo.rs" "$d/demo/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$d/demo/Cargo.lock"
cat > "$d/demo/Cargo.toml" <<EOF
[package]
name = "hb-demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hyperbee = { path = "$repo", default-features = false, features = [@FEATURES@] }
hypercore = { version = "0.14.0", default-features = false, features = ["sparse", "tokio", "replication"] }
futures-lite = "2"
tokio = { version = "1.34.0", features = ["macros", "rt", "rt-multi-thread", "sync", "time"] }
[patch.crates-io]
hypercore = { path = "../env/hypercore" }
futures-lite = { path = "../env/futures-lite" }
derive_builder = { path = "../env/derive_builder" }
EOF
cat > "$d/demo/.cargo/config.toml" <<'EOF'
[source."git+https://github.com/cowlicks/replicator.git"]
git = "https://github.com/cowlicks/replicator.git"
replace-with = "demo-vendor"
[source.demo-vendor]
directory = "../env/vendor"
[net]
offline = true
EOF
cd "$d/demo" || exit 3
export CARGO_TARGET_DIR=${DEMO_TARGET:-$d/target} CARGO_NET_OFFLINE=true DEMO_SCRATCH=$d/scratch
mkdir -p "$DEMO_SCRATCH"
cargo build --offline --quiet 2> "$d/log" || { cat "$d/log"; exit 3; }
timeout 100 "$CARGO_TARGET_DIR/debug/hb-demo"
