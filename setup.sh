#!/bin/bash
# Builds the extractor and the harness once (each check builds what it needs again from the current tree).
set -e
cd "$(dirname "$0")"
(cd extract && cargo build --release --offline --target-dir ../build/xt)
(cd harness && cargo +nightly build --offline --target-dir ../build/h)
(cd harness/async && cargo +nightly build --offline --target-dir ../../build/ha)
verus --version
