# sourced by demo.sh: builds run.rs against the crate that build.sh left in /repo/target
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
D=$PWD/target/debug/deps
rustc --edition 2021 -o "$W/run" "$HERE/run.rs" --extern eucalypt="$D/libeucalypt.rlib" -L dependency="$D" 2> "$W/err" || { cat "$W/err"; exit 2; }
