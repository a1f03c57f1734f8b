#!/bin/bash
# Builds everything the checks run, so that they only rebuild what has changed since.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --offline --manifest-path harness/Cargo.toml || exit 1
build() { "$@"; }
. ./cli.sh
python3 tools/macros.py --build || exit 1
