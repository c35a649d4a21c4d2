#!/bin/bash
# developer helper: vt.sh <template> [verus args]
cd /verif && mkdir -p out && n=$1; shift
extract/target/release/extract specs/$n.vt ${REPO:-/repo} out/$n.rs out/$n.json && verus --multiple-errors 10 out/$n.rs "$@" 2>&1
