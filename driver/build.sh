#!/bin/bash
# usage: build.sh OUT  -- compile the MIR fact dumper (rustc_private, nightly) to OUT
set -e
cd "$(dirname "$0")"
S=$(rustc +nightly --print sysroot)
rustc +nightly --edition 2024 -O -A warnings src/main.rs -o "$1.tmp.$$" -C link-arg=-Wl,-rpath,"$S/lib"
mv "$1.tmp.$$" "$1"
