#!/bin/bash
# unit.sh PACKAGE SRC_FILE TEST_RS FILTER: run TEST_RS, appended to SRC_FILE in a scratch copy of the sources in the current directory
set -u
R=$PWD; S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$S"' EXIT
. /opt/vp/env.sh
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
mkdir -p "$S/src" "$S/home" "$S/tmp"
tar -C "$R" --exclude=./target --exclude=./.git -cf - . | tar -C "$S/src" -xf -
cd "$S/src" || exit 99
# other package ids than the tree's own, so that its build products stay as they are
sed -i 's/^version = "0\.0\.1"$/version = "0.0.91"/; s/^version = "0\.1\.0"$/version = "0.1.91"/' */Cargo.toml Cargo.toml
printf '\n' >> "$2"; cat "$3" >> "$2"
CARGO_TARGET_DIR="$R/target" HOME="$S/home" TMPDIR="$S/tmp" XDG_CONFIG_HOME="$S/home/.config" XDG_DATA_HOME="$S/home/.local/share" \
  timeout 280 cargo test --offline -p "$1" --lib "$4" -- --test-threads 1 --nocapture < /dev/null
