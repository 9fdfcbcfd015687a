import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts"))
os.environ.setdefault("VCG_DEBUG", "1")
import importlib, time
VERB="-v" in sys.argv
sys.argv=[a for a in sys.argv if a!="-v"]
import prog, spec
t=time.time()
P = prog.Prog(); print("load", round(time.time()-t,1))
m = importlib.import_module(sys.argv[1])
for pid in list(spec.UNITS):
    for u in spec.UNITS[pid]:
        if len(sys.argv) > 2 and not any(a in u.name or a == pid for a in sys.argv[2:]): continue
        r = spec.run_unit(P, u)
        print("==", pid, u.name, r["status"], r["why"], "t", r["time"], "solver", r["solver_time"])
        for o in r["obligations"]:
            if o["status"] != "proved" or VERB:
                print("   ", o["status"], o["kind"], o["name"], o["backend"], o["time"], o["loc"])
                if o["status"]!="proved": print("       ", str(o["model"])[:1500])
        print("    proved", sum(o["status"]=="proved" for o in r["obligations"]), "of", len(r["obligations"]), "covers", r["covers"], "opaque", r["opaque"])
