#!/bin/bash
# Checks build what they need themselves; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
cargo --version
cargo +nightly --version
cargo +nightly miri --version
python3 --version
mkdir -p evidence target
