#!/bin/bash
# check.sh <property> : builds the monitors from /repo's working tree and runs one of them.
# exit 0 held, 1 violated, 2 could not be built, 3 nothing observed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1
mkdir -p evidence
rm -f "$VERIF_DIR/evidence/$id".*
( cd harness && cargo build --offline ) >target-build.log 2>&1 || { grep -E "^error" -A6 target-build.log | head -40; echo "build failed"; exit 2; }
case $VERIF_TIER in thorough) limit=14000; ub=3600;; *) limit=860; ub=420;; esac
start=$SECONDS
# the interpreter that stops at undefined behavior; its answer is one of the monitors' observations
miri() {
    export MIRI_RESULT="$VERIF_DIR/evidence/$id.miri.log"
    ( cd miri && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/miri" timeout -k 5 $ub cargo +nightly miri run --offline -- "$@" ) >"$MIRI_RESULT" 2>&1
    echo "exit $?" >>"$MIRI_RESULT"
}
# the Python extension
python_module() {
    mkdir -p "$CARGO_TARGET_DIR/py/module"
    ( cd pybuild && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/py" PYO3_PYTHON=/opt/veriftools/pyvenv/bin/python3 cargo build --offline ) >>target-build.log 2>&1 \
        && cp "$CARGO_TARGET_DIR/py/debug/deps/libpolymers.so" "$CARGO_TARGET_DIR/py/module/polymers.so"
}
case $id in
    C19) python_module || { grep -E "^error" -A6 target-build.log | head -40; echo "build of the Python extension failed"; exit 2; };;
    C18) miri arrays "${VERIF_SEED:-1}";;
    C21) miri all "${VERIF_SEED:-1}";;
esac
timeout -k 5 $((limit - SECONDS + start)) ./target/debug/pm "$id"
