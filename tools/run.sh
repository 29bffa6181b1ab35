#!/bin/bash
# run.sh ENTRY [PARAMS...]: one harness run, for development
p=(); e=$1; shift; for x in "$@"; do case $x in -*) p+=("$x");; *) p+=(--param "$x");; esac; done
timeout ${T:-300} $(dirname $0)/../engine/target/release/symex --ir $(dirname $0)/../build/harness.ll --entry $e "${p[@]}" --out /tmp/run.json ${O} 2>&1 | cut -c1-${W:-400}
