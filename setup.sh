#!/bin/bash
# Builds the harness once so that the checks start from warm dependencies (each check builds again).
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
RUSTFLAGS="--cfg deflate_verif" cargo build --offline --release --manifest-path harness/Cargo.toml --target-dir build/harness >build/setup.log 2>&1 || true
verus --version >/dev/null
exit 0
