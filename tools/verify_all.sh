#!/bin/bash
# verify every function under contract (or those of the given modules); one line each
cd "$(dirname "$0")/../vdv"
python3-vt - "$@" <<'P' | xargs -P 8 -L 1 sh -c 'timeout 900 python3-vt dev.py $0 $1 2>&1 | cut -c1-${W:-200} | grep -v assumed | tail -${N:-4}'
import sys, props
ms = sys.argv[1:]
for nm, (m, sp) in sorted(props.load().items(), key=lambda x: -props.cost(x[0])):
    if not ms or m in ms: print(m, nm)
P
