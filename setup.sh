#!/bin/bash
# Builds the monitors once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p evidence
( cd harness && cargo build --offline ) 2>&1 | tail -3
[ "${PIPESTATUS[0]}" = 0 ] || exit 2
( cd pybuild && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/py" PYO3_PYTHON=/opt/veriftools/pyvenv/bin/python3 cargo build --offline ) 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
