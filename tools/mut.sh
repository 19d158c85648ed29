#!/bin/bash
# development helper: tools/mut.sh <check> <file> <python-expr-old> <new>  -- run one check on a mutated scratch copy
# usage: tools/mut.sh "C01 C02" returnn/torch/engine.py 'old text' 'new text'
set -e
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/returnn $D/returnn
python3 - "$D" "$2" "$3" "$4" <<'PY'
import sys
d, f, old, new = sys.argv[1:5]
p = f"{d}/{f}"
s = open(p).read()
assert s.count(old) >= 1, "pattern not found"
if s.count(old) > 1: print("WARNING: pattern occurs", s.count(old), "times; replacing first")
s = s.replace(old, new, 1)
open(p, "w").write(s)
compile(s, p, "exec")
PY
for c in $1; do SA_REPO=$D SA_EVID=$D/evidence python3 -m sa.run $c || echo "  -> exit $?"; done
rm -rf "$D"
