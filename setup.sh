#!/bin/bash
# builds the exporter, exports the AST and compiles the replay drivers (all repeated by a check when stale)
cd "$(dirname "$0")" || exit 1
python3-vt - <<'P'
import sys, os
sys.path[:0] = ["vcg", "."]
import prog, native
print("functions exported:", len(prog.Prog().funcs))
import concurrent.futures as cf
def one(f):
    try:
        return native.build("harness/" + f)
    except Exception as x:
        return str(x)[-600:]
fs = sorted(f for f in os.listdir("harness") if f.endswith(".cpp"))
if fs:
    print(one(fs[0]))
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, fs[1:]):
            print(r)
P
