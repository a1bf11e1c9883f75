#!/bin/bash
# leave the edited copy of refbank entry MODULE:NAME in /tmp/ro
V=$(cd "$(dirname "$0")/.." && pwd)
rm -rf /tmp/ro; mkdir -p /tmp/ro; cp -r /repo/elementstx /tmp/ro/
python3 - "$1" <<PY
import sys, importlib
sys.path.insert(0, '$V')
m, _, n = sys.argv[1].partition(':')
for fn, old, new in importlib.import_module('tools.${B:-refbank}.' + m).R[n]:
    p = '/tmp/ro/elementstx/' + fn
    s = open(p).read()
    assert s.count(old) == 1, old
    open(p, 'w').write(s.replace(old, new))
PY
