"""list the contract units of each property (used by DESIGN.md): python3-vt units_list.py"""
import sys, os
V = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [V, V + "/vcg", V + "/contracts"]
import check
check.load_units("C01")
import spec
for p in sorted(spec.UNITS):
    for u in spec.UNITS[p]:
        print(f"{p} | {u.name} | {', '.join(u.fns)}")
