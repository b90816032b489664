#!/bin/bash
# setup_cmd: builds the extractor, and ahead of the checks the dependencies of the harness crates.  The
# checks build the crates under test themselves, always from /repo's current tree (tools/check.py
# discards what was built from it here).
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
env -u RUSTFLAGS cargo build --offline --release --manifest-path vx/Cargo.toml || exit 1
export RUSTFLAGS='--cap-lints allow'
python3 tools/mkshim.py build/decaf377-shim || exit 1
nd="cargo build --offline --profile nodebug --target-dir target/nd"
for c in conc sym; do
  (cd $c && cargo build --offline --release; $nd; $nd --no-default-features --features min)
done
exit 0
