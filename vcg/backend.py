"""Solver portfolio: z3 (default, nlsat), then cvc5. A verdict of 'failed' needs a
satisfying assignment; anything else that is not a proof is 'unknown'."""
import time, os, json, select, signal, resource
import z3

STATS = {"z3": 0, "z3-nlsat": 0, "cvc5": 0, "trivial": 0, "ideal": 0}
USE_CVC5 = True
LOG = None


def _hasq(fs):
    from engine import _hasq as h
    return any(h(f) for f in fs)


def ackermann(fs):
    """replace uninterpreted applications by constants (+ congruence); quantifier-free input"""
    apps, out = {}, []
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k][0]
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                lst = apps.setdefault(d.name() + "/" + str(len(ch)), [])
                for a, c in lst:
                    if all(x.eq(y) for x, y in zip(a, ch)):
                        r = c
                        break
                else:
                    r = z3.Const(f"ack!{d.name()}!{len(lst)}", d.range())
                    lst.append((ch, r))
            else:
                r = d(*ch)
        else:
            r = t
        cache[k] = (r, t)
        return r
    out = [go(f) for f in fs]
    n = 0
    for lst in apps.values():
        for i in range(len(lst)):
            for j in range(i):
                n += 1
                if n > 400:
                    return out, False
                out.append(z3.Implies(z3.And([x == y for x, y in zip(lst[i][0], lst[j][0])]),
                                      lst[i][1] == lst[j][1]))
    return out, True


def _z3(fs, timeout, **opts):
    s = z3.Solver()
    s.set("timeout", int(timeout))
    for k, v in opts.items():
        s.set(k, v)
    s.add(fs)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def model_dict(m, limit=200):
    out = {}
    if m is None:
        return out
    for d in m.decls()[:limit]:
        try:
            v = m[d]
            if d.arity() == 0:
                out[d.name()] = str(v)
            else:
                out[d.name()] = str(v)[:200]
        except Exception:
            pass
    return out


def nlsat(fs, timeout):
    try:
        g, ok = ackermann(fs)
        t = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "simplify",
                    "tseitin-cnf", "nlsat")
        s = t.solver()
        s.set("timeout", int(timeout))
        s.add(g)
        r = s.check()
        if r == z3.sat and not ok:
            return z3.unknown, None
        return r, (s.model() if r == z3.sat else None)
    except z3.Z3Exception:
        return z3.unknown, None


def cvc5_check(fs, timeout):
    try:
        import cvc5
        s = z3.Solver()
        s.add(fs)
        txt = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        sl = cvc5.Solver(tm) if tm else cvc5.Solver()
        sl.setOption("tlimit-per", str(int(timeout)))
        sl.setOption("nl-ext-tplanes", "true")
        pr = cvc5.InputParser(sl)
        txt = "(set-logic ALL)\n" + txt
        pr.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = pr.getSymbolManager()
        res = "unknown"
        while True:
            c = pr.nextCommand()
            if c.isNull():
                break
            o = c.invoke(sl, sm)
            o = o.strip() if isinstance(o, str) else ""
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception as x:  # a solver that cannot parse the query proves nothing
        if LOG:
            LOG("cvc5: " + str(x)[:200])
        return "unknown"


def ideal(fs):
    """goal p = q follows from the equalities among the hypotheses: the remainder of p - q
    modulo a Groebner basis of the hypotheses is zero"""
    import sympy
    goal = fs[-1]
    if not z3.is_not(goal) or not z3.is_eq(goal.arg(0)) or goal.arg(0).arg(0).sort() != z3.RealSort():
        return "unknown"
    atoms = {}

    def atom(t):
        k = z3.simplify(t).sexpr()
        if k not in atoms:
            atoms[k] = sympy.Symbol(f"a{len(atoms)}")
        return atoms[k]

    def conv(t):
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t):
            return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*[conv(c) for c in t.children()])
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*[conv(c) for c in t.children()])
        if k == z3.Z3_OP_SUB:
            return conv(t.arg(0)) - sympy.Add(*[conv(c) for c in t.children()[1:]])
        if k == z3.Z3_OP_UMINUS:
            return -conv(t.arg(0))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 \
                and 0 <= t.arg(1).numerator_as_long() <= 8:
            return conv(t.arg(0)) ** t.arg(1).numerator_as_long()
        if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and t.arg(1).numerator_as_long() != 0:
            return conv(t.arg(0)) / sympy.Rational(t.arg(1).numerator_as_long(), t.arg(1).denominator_as_long())
        return atom(t)
    p = sympy.expand(conv(goal.arg(0).arg(0)) - conv(goal.arg(0).arg(1)))
    hyps = []
    for f in fs[:-1]:
        if z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
            h = sympy.expand(conv(f.arg(0)) - conv(f.arg(1)))
            if h != 0:
                hyps.append(h)
    if p == 0:
        return "unsat"
    key = lambda x: int(x.name[1:])

    def attempt(rel, groebner):
        if not rel:
            return False
        gens = sorted(set().union(p.free_symbols, *[h.free_symbols for h in rel]), key=key)
        if not groebner:
            return sympy.reduced(p, rel, *gens, order="grevlex")[1] == 0
        G = sympy.groebner(rel, *gens, order="grevlex")
        return G.reduce(p)[1] == 0
    low = [h for h in hyps if sympy.total_degree(h) <= 3]
    inside = [h for h in low if h.free_symbols <= p.free_symbols]
    if attempt(inside, False) or attempt(inside, True):
        return "unsat"
    # close under shared symbols
    syms, rel, rest = set(p.free_symbols), [], list(low)
    for _ in range(4):
        add = [h for h in rest if len(h.free_symbols & syms) >= 1]
        if not add:
            break
        rel += add
        rest = [h for h in rest if not any(h is x for x in add)]
        for h in add:
            syms |= h.free_symbols
        if attempt(rel, False) or attempt(rel, True):
            return "unsat"
    return "unknown"


def noq(fs):
    from engine import _hasq as h
    return [f for f in fs if not h(f)]


def _race(jobs, timeout):
    """run solver attempts in child processes, hard time limit; first definite answer wins"""
    procs = {}
    for name, f in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CPU, (int(timeout / 1000) + 5,) * 2)
                out = f()
            except BaseException as x:
                out = ("unknown", {"error": str(x)[:200]})
            try:
                os.write(w, json.dumps([name, out[0], out[1]]).encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        procs[r] = pid
    buf = {r: b"" for r in procs}
    end = time.time() + timeout / 1000 + 2
    best = None
    live = set(procs)
    while live and best is None and time.time() < end:
        rd, _, _ = select.select(list(live), [], [], max(0.05, end - time.time()))
        for r in rd:
            d = os.read(r, 65536)
            if d:
                buf[r] += d
            else:
                live.discard(r)
                try:
                    n, st, m = json.loads(buf[r] or b"[0,\"unknown\",null]")
                except ValueError:
                    continue
                if st in ("unsat", "sat"):
                    best = (n, st, m)
    for r, pid in procs.items():
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        os.close(r)
    return best


def check(fs, timeout):
    """is the conjunction unsatisfiable? -> (status, backend, model, smt2 or None)"""
    q = _hasq(fs)
    r, m = _z3(fs, min(timeout, 1500))
    if r == z3.unsat:
        STATS["z3"] += 1
        return "proved", "z3", None, None
    if r == z3.sat:
        return "failed", "z3", model_dict(m), smt(fs)

    def wrap(g, satok=True):
        def run():
            r, m = g()
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat and satok:
                return "sat", model_dict(m)
            return "unknown", None
        return run
    jobs = [("z3", wrap(lambda: _z3(fs, timeout))),
            ("cvc5", lambda: (cvc5_check(fs, timeout), {})),
            ("ideal", lambda: (ideal(fs), None))]
    if q:
        g = noq(fs)
        jobs.append(("z3-nlsat", wrap(lambda: nlsat(g, timeout), False)))
        jobs.append(("z3", wrap(lambda: _z3(fs, timeout, **{"smt.mbqi": False}), False)))
    else:
        jobs.append(("z3-nlsat", wrap(lambda: nlsat(fs, timeout))))
        jobs.append(("z3", wrap(lambda: _z3(fs, timeout, **{"smt.arith.solver": 2}))))
    b = _race(jobs, timeout)
    if b and b[1] == "unsat":
        STATS[b[0]] += 1
        return "proved", b[0], None, None
    if b and b[1] == "sat":
        return "failed", b[0], b[2], smt(fs)
    return "unknown", "z3+nlsat+cvc5", None, smt(fs)


def smt(fs):
    s = z3.Solver()
    s.add(fs)
    t = s.to_smt2()
    return t if len(t) < 200000 else t[:200000]


def satisfiable(fs, timeout=4000):
    """'sat', 'unsat' or 'unknown'"""
    r, _ = _z3(fs, timeout)
    if r == z3.unknown and not _hasq(fs):
        r, _ = nlsat(fs, timeout)
    return str(r)
