#!/bin/bash
# development aid: assemble and verify every unit (or those named); prints one line per unit
cd "$(dirname "$0")/.." && for u in ${@:-$(ls units/*.vrs | xargs -n1 basename | sed s/.vrs//)}; do VWORK=${VWORK:-/tmp/units.$$} python3 tools/verus_run.py $u 2>&1 | grep "^$u:" | cut -c1-200; done
