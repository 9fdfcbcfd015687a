"""Check one property: discharge its contracts on /repo's current sources, replay on the real code.
usage: check.py PID [quick|thorough] | check.py replay FILE"""
import json, os, signal, subprocess, sys, time, hashlib, resource, select
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + "/vcg", V + "/contracts", V]
os.environ.setdefault("PYTHONHASHSEED", "0")
import native

JOBS = 8


def load_units(pid):
    import importlib
    import spec
    for m in sorted(f[:-3] for f in os.listdir(V + "/contracts") if f.endswith(".py") and f != "common.py"):
        importlib.import_module(m)
    return spec.UNITS.get(pid, [])


def run_units(prog, units, limit, scale=1.0):
    """every unit in a process of its own, hard time limit"""
    import spec
    todo, live, out = list(units), {}, {}
    order = sorted(todo, key=lambda u: -u.budget)
    end = time.time() + limit
    while order or live:
        while order and len(live) < JOBS:
            u = order.pop(0)
            u.budget = u.budget * scale
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                os.setsid()
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (10 << 30,) * 2)
                    res = spec.run_unit(prog, u)
                except BaseException as x:
                    res = blank(u, f"verifier error: {type(x).__name__} {x}")
                data = json.dumps(res, default=str).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (p, u, min(end, time.time() + u.budget * 1.3 + 20), [])
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for r in list(live):
            p, u, dl, buf = live[r]
            done = False
            if r in rd:
                d = os.read(r, 1 << 20)
                if d:
                    buf.append(d)
                else:
                    done = True
                    try:
                        out[u.name] = json.loads(b"".join(buf))
                    except ValueError:
                        out[u.name] = blank(u, "verifier process ended early")
            if not done and time.time() > dl:
                out[u.name] = blank(u, "time budget of this function used up")
                done = True
            if done:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.waitpid(p, 0)
                except OSError:
                    pass
                os.close(r)
                del live[r]
    return [out[u.name] for u in units]


def blank(u, why):
    return {"unit": u.name, "property": u.pid, "functions": list(u.fns), "status": "undecided", "why": why,
            "obligations": [], "inlined": [], "contracts": [], "models": [], "assumed": [], "opaque": [],
            "solver_time": 0, "time": 0, "covers": {}}


def findings(pid):
    """unrepaired genuine defects: (property, key, text)"""
    r = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = l[8:].strip()
                a, rest = d.split(None, 1)
                key, text = rest.split(None, 1)
                if a == "property=" + pid:
                    r.append((key.split("=", 1)[1], text))
    return r


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    os.environ["VCG_TIER"] = tier
    known = findings(pid)
    nat = native.Native(pid)
    nat.start()                     # compiles the replay harness in the background
    res, why = [], ""
    try:
        import prog as P
        prog = P.Prog()
        units = load_units(pid)
        res = run_units(prog, units, 3000 if thorough else 480, 4.0 if thorough else 1.0)
    except Exception as x:
        why = f"{type(x).__name__}: {x}"[:2000]
        print("verifier: no program to verify:", why)
    obs = [(r, o) for r in res for o in r["obligations"]]
    failed = [(r, o) for r, o in obs if o["status"] == "failed"]
    unknown = [(r, o) for r, o in obs if o["status"] == "unknown"]
    open_units = [r for r in res if r["status"] != "ok"]
    vac = [(r["unit"], c) for r in res for c, s in r["covers"].items() if s == "unsat"]
    for r in res:
        n = sum(o["status"] == "proved" for o in r["obligations"])
        print(f"{pid} {r['unit']}: {n}/{len(r['obligations'])} obligations discharged, {r['time']} s"
              + (f" -- undecided: {r['why']}" if r["status"] != "ok" else ""))
    for r, o in failed + unknown:
        print(f"  {o['status'].upper()}: [{r['unit']}] {o['kind']}: {o['name']} {o['loc']}")
    # ---- concrete replay against the real code
    suspicious = bool(failed or unknown or open_units or why or not res)
    secs = (240 if thorough else 60) if suspicious else (120 if thorough else 12)
    conc = nat.search(seed, secs, known)
    code, lines = 0, []
    nviol = 0
    knownset = {k for k, _ in known}
    ded = [(r, o) for r, o in failed]
    if conc.get("violation"):
        rp = write_replay(pid, {"kind": "input", "property": pid, **conc["violation"],
                                "obligations": [o["name"] for _, o in failed + unknown][:20]})
        lines.append(f"VIOLATION property={pid} replay={rp}")
        nviol = 1
    elif ded:
        r, o = ded[0]
        rp = write_replay(pid, {"kind": "obligation", "property": pid, "unit": r["unit"], "obligation": o["name"],
                                "at": o["loc"], "function": r["functions"], "backend": o["backend"],
                                "counterexample": o["model"], "query": o["smt"],
                                "all_failed": [x["name"] for _, x in ded]})
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        nviol = 1
    hit = conc.get("known", [])
    for k, text in known:
        if k in hit or not conc.get("ran"):
            print(f"KNOWN-FINDING: property={pid} {k}: {text}")
    write_evidence(pid, tier, seed, res, obs, conc, known, t0, nviol, why, vac)
    for l in lines:
        print(l)
    if not res and not conc.get("ran"):
        print("nothing could be checked")
        return 3
    return 1 if lines else 0


def write_replay(pid, d):
    os.makedirs(V + "/.cache/replay", exist_ok=True)
    h = hashlib.sha256(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = f"{V}/.cache/replay/{pid}-{h}.json"
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


def write_evidence(pid, tier, seed, res, obs, conc, known, t0, nviol, why, vac):
    by = {}
    for _, o in obs:
        if o["status"] == "proved":
            by[o["backend"]] = by.get(o["backend"], 0) + 1
    und = [r["unit"] + ": " + r["why"] for r in res if r["status"] != "ok"]
    un = [f"{r['unit']}: {o['name']}" for r, o in obs if o["status"] == "unknown"]
    cov = {
        "obligations": len(obs),
        "discharged": sum(o["status"] == "proved" for _, o in obs),
        "failed": [f"{r['unit']}: {o['name']}" for r, o in obs if o["status"] == "failed"],
        "not_decided": un + und + ([why] if why else []),
        "bounded_stand_in": "the concrete replay below stands in for what is not decided" if (un or und or why) else "none needed",
        "by_back_end": by,
        "solver_time_s": round(sum(r["solver_time"] for r in res), 2),
        "functions_under_contract": sorted({f for r in res for f in r["functions"]}),
        "functions_inlined": sorted({f for r in res for f in r["inlined"]}),
        "contracts_used_at_calls": sorted({f for r in res for f in r["contracts"]}),
        "units": [{"unit": r["unit"], "obligations": len(r["obligations"]), "time_s": r["time"], "status": r["status"]} for r in res],
        "reachability": {f"{r['unit']} / {c}": s for r in res for c, s in r["covers"].items()},
        "vacuous": vac,
        "checker_cmd": f"python3-vt check.py {pid} {tier}",
        "trusted_base": sorted({"library model: " + m for r in res for m in r["models"]}) + [
            "clang 18 AST of the sources in /repo/src (read on this run)", "the VC generator in /verif/vcg",
            "z3, cvc5, sympy (Groebner bases)"],
        "concrete_runs": {k: conc.get(k) for k in ("ran", "cases", "seconds", "note", "samples", "known") if k in conc},
    }
    d = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
         "assumptions": sorted({a for r in res for a in r["assumed"]}) + [
             "floating point arithmetic is treated as exact real arithmetic with IEEE infinities and NaN"]
         + [f"known finding {k}: {t}" for k, t in known],
         "wall_s": round(time.time() - t0, 1), "violations": nviol}
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = f"{V}/evidence/{pid}.json.tmp"
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.rename(tmp, f"{V}/evidence/{pid}.json")


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    if d["kind"] == "input":
        n = native.Native(pid)
        n.start()
        r = n.replay(d)
        print(json.dumps(r, indent=1))
        return 1 if r.get("violation") else 0
    print(json.dumps({k: v for k, v in d.items() if k != "query"}, indent=1))
    import prog as P
    os.environ["VCG_TIER"] = "thorough"
    units = [u for u in load_units(pid) if u.name == d["unit"]]
    res = run_units(P.Prog(), units, 800)
    bad = [o for r in res for o in r["obligations"] if o["status"] == "failed"]
    for o in bad:
        print("still fails:", o["name"])
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
