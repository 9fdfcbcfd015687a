"""C20 histories and threads, C10 every secondary is transported"""
from spec import *
from common import *
from sens import same
import loops


def histories(en, this, args):
    pass


def source_sample(en, this, args):
    """contract of Source::Sample (C21): a particle that depends on the source and the seed only, without secondaries"""
    s = en.load(args[0])
    en.gset("sampled", en.gget("sampled", ()) + (s,))
    o = en.mk(rec_ty(en, "Particle"), "Source.Sample", [oid(en, this), s])
    en.assume(en.field(en.field(o, "secondaries"), "banked").n == 0)
    return o


def rec_ty(en, q):
    from fields import rec_type
    return rec_type(en, q)


def copied_set(en, this, args):
    """contract of the EstimatorSet copy constructor (C12): an equal set of its own"""
    a = en.load(args[0])
    o = en.copy(a)
    o.ident = None
    o.extra = {"set": en.gget("nsets", 0), "from": a}
    en.gset("nsets", en.gget("nsets", 0) + 1)
    return o


def get_proxy(en, this, args):
    """contract of EstimatorSet::GetProxy (C12): a proxy of exactly this set with nothing pending"""
    o = en.load(this)
    en.prove(z3.BoolVal(not en.gget("pending", False)), "scores of a history are committed before a new proxy is made")
    p = en.symobj("EstimatorSetProxy", f"proxy{en.nfresh}")
    en.nfresh += 1
    p.extra = {"of": o}
    en.gset("proxyset", en.gget("proxyset", ()) + ((p.extra["of"],),))
    return p


def proxy_ok(en, l):
    x = en.load(l).extra or {}
    return "of" in x and "set" in (x["of"].extra or {})


def commit(en, this, args):
    """contract of EstimatorSetProxy::CommitHistory (C12)"""
    en.prove(z3.BoolVal(proxy_ok(en, this)), "a history is committed to the worker's own estimators")
    en.gset("committed", en.gget("committed", 0) + 1)
    en.gset("pending", False)
    b = en.gget("bank")
    if b is not None:
        en.prove(en.field(en.load(b), "banked").n == 0, "the history is committed after its last particle")


def transport(en, this, args):
    """contract of Particle::Transport (C05, C06): the particle changes and may bank secondaries; scores go to the proxy"""
    o = en.load(this)
    en.gset("moved", en.gget("moved", ()) + (("transport", this),))
    en.prove(z3.BoolVal(proxy_ok(en, args[0])), "scores go to a proxy of the worker's own estimators")
    w = en.load(args[1])
    en.prove(oid(en, args[1]) == en.gget("world"), "particles move in the world of the input")
    en.gset("pending", True)
    sec = en.field(o, "secondaries")
    nb = en.mk(rec_ty(en, "Bank"), f"produced{en.nfresh}", [en.gget("K2", z3.IntVal(0))])
    en.nfresh += 1
    en.gset("produced", en.copy(en.field(nb, "banked")))
    en.store(en.member(this, "secondaries"), nb)
    en.store(en.member(this, "event"), en.fresh("event", I))
    en.store(en.member(this, "rng"), Opaque("rng", en.fresh("rng", I)))


def set_pert(en, this, args):
    """contract of Particle::SetPerturbations (C14)"""
    en.gset("moved", en.gget("moved", ()) + (("perturbations", this, oid(en, args[0])),))


WORK = {"Source::Sample": source_sample, "new EstimatorSet": copied_set, "EstimatorSet::GetProxy": get_proxy,
        "EstimatorSetProxy::CommitHistory": commit, "Particle::Transport": transport, "Particle::SetPerturbations": set_pert}


def local_writes_only(en, mark, stamp):
    """frame of a worker: every object written since `mark` was created by the worker itself"""
    bad = []
    for o, slot, old in en.trail[mark:]:
        if isinstance(o, loops._SymSlot):
            o = o.o
        if o is en.ghost or getattr(o, "stamp", stamp + 1) > stamp:
            continue
        bad.append(type(o).__name__ + " " + str(getattr(getattr(o, "rec", None), "get", lambda *_: "")("q")) + " " + str(slot))
    en.prove(z3.BoolVal(not bad), "a worker changes nothing that other threads see, except the history counter" + (f" ({bad[0]})" if bad else ""))


def worker(en, pid):
    def body():
        d = LBox(Box(en.symobj("FixedSource", "driver")))
        o = en.load(d)
        N, seed = en.field(o, "batchsize"), en.field(o, "seed")
        en.gset("world", oid(en, en.member(d, "world")))
        perts = oid(en, en.member(d, "perturbations"))
        init = en.field(o, "init_estimator_set")
        outer, inner = [], []
        counter = oid(en, en.member(d, "histories_elapsed")) if False else None
        mark, stamp = len(en.trail), Obj._n

        def ostart(en):
            en.gset("atomic", ())
            en.gset("sampled", ())
            en.gset("committed", 0)
            en.gset("histories", 0)
            en.gset("bank", None)
            en.gset("pending", False)

        def ticket(en):
            a = en.gget("atomic", ())
            ok = len([x for x in a if x[0] == "add"]) == 1 and not [x for x in a if x[0] == "store"]
            en.prove(z3.BoolVal(ok), "each round takes one number from the history counter, atomically")
            if not ok:
                raise PathEnd("no ticket")
            t = [x for x in a if x[0] == "add"][0]
            en.prove(t[3] == 1, "the counter advances by one")
            return t[2]

        def opost(en):
            t = ticket(en)
            s = en.gget("sampled", ())
            en.prove(t < N, "only requested histories are run")
            en.prove(z3.BoolVal(len(s) == 1), "each history has one source particle")
            if len(s) == 1:
                en.prove(s[0] == seed + t, "history i starts from the base seed plus i")
            en.prove(z3.BoolVal(en.gget("histories") == 1), "the particles of the history are transported")
            en.prove(z3.BoolVal(en.gget("committed") == 1 and not en.gget("pending")), "each history is committed once, at its end")

        def oleft(en):
            t = ticket(en)
            en.prove(t >= N, "a worker stops only when every requested history was taken")
            en.prove(z3.BoolVal(not en.gget("sampled") and not en.gget("pending") and not en.gget("committed")), "and then runs no history")

        def istart(en):
            en.gset("moved", ())

        def ihook(en, s, cb):
            if cb is None:
                return True
            b = [f.locals for f in en.frames][-1] if False else None
            bank = find_bank(en)
            seq = lambda: en.field(en.load(bank), "banked")
            en.prove(seq().n == 1, "a history starts with the source particle alone")
            en.gset("histories", en.gget("histories", 0) + 1)
            en.gset("bank", bank)
            before = []

            def start(en):
                en.gset("moved", ())
                before[:] = [en.copy(seq())]

            def post(en):
                m, B0, B1 = en.gget("moved"), before[0], seq()
                tr = [x for x in m if x[0] == "transport"]
                pe = [x for x in m if x[0] == "perturbations"]
                en.prove(z3.BoolVal(len(tr) == 1), "each round transports one particle")
                en.prove(z3.BoolVal([x[0] for x in m] == ["perturbations", "transport"] and same_place(pe[0][1], tr[0][1])), "after it was given its indirect effects")
                if len(pe) == 1:
                    en.prove(pe[0][2] == perts, "those of the perturbations of the input")
                if len(tr) != 1:
                    return
                i = elem_index(tr[0][1])
                en.prove(i == B0.n - 1, "it is the one at the back of the bank")
                P = en.gget("produced")
                en.prove(B1.n == B0.n - 1 + P.n, "it leaves the bank and its secondaries join it, none is lost or added")
                j = z3.Int("j")
                for a, b, n, nm in ((lambda: B1.elem(P.n + j), lambda: B0.elem(j), B0.n - 1, "particles already waiting stay in the bank"),
                                    (lambda: B1.elem(j), lambda: P.elem(j), P.n, "every secondary waits in the bank")):
                    for f in ("position", "direction", "energy", "rng", "cell"):
                        en.prove(z3.Implies(z3.And(0 <= j, j < n), tobool(same(en, en.field(a(), f), en.field(b(), f)))), f"{nm} ({f})")

            def left(en):
                en.prove(seq().n == 0, "a history ends only when no particle is waiting")
            r = loops.inv_loop(en, cb[0], cb[1], lambda en: [("the bank", seq().n >= 0)], start, post, left)
            en.prove(seq().n == 0, "a history ends only when no particle is waiting")
            return r

        def find_bank(en):
            for fr in reversed(en.frames):
                for l in fr["env"].values():
                    try:
                        v = en.load(l)
                    except Exception:
                        continue
                    if isinstance(v, Obj) and v.rec["q"] == "Bank":
                        return l
            raise Unsupported("no bank of particles in the worker")

        def hook(en, s, cb):
            if not outer or s is outer[0]:
                if not outer:
                    outer.append(s)
                if cb is None:
                    return True
                return loops.inv_loop(en, cb[0], cb[1], None, ostart, opost, oleft)
            return ihook(en, s, cb)
        en.loop_hook = hook
        r = method(en, d, "StartWorker")
        en.loop_hook = None
        c = chain(r)
        en.prove(z3.BoolVal(bool(c) and same_obj((c[-1].extra or {}).get("from"), init)), "a worker's estimators start from the initial ones")
        sets = {(x[0].extra or {}).get("set") for x in en.gget("proxyset", ())}
        en.prove(z3.BoolVal(sets <= {x.extra["set"] for x in c}), "the histories are scored in the estimators the worker returns")
        local_writes_only(en, mark, stamp)
    verify(en, "FixedSource::StartWorker", body)
    en.loop_hook = None


def chain(o):
    """a set, the set it was copied from, ..."""
    r = []
    while o is not None and "set" in (o.extra or {}):
        r.append(o)
        o = o.extra["from"]
    return r


def same_obj(a, b):
    if a is None or b is None:
        return False
    return a is b or (a.sym and b.sym and str(a.sym) == str(b.sym))


def same_place(a, b):
    return elem_index(a) is not None and elem_index(b) is not None and elem_index(a).eq(elem_index(b))


def elem_index(l):
    return z3.simplify(l.i) if isinstance(l, LElem) else None


unit("C20", "a worker runs histories", ["FixedSource::StartWorker"], contracts=WORK)(lambda en: worker(en, "C20"))


# ---- frame of the workers: what their code can reach changes no shared state
OWN = {"Bank", "Particle", "EstimatorSetProxy", "EstimatorProxy", "ScorableProxy", "Point", "Direction", "EstimatorSet",
       "Estimator", "Sensitivity", "Scorable", "CurrentEstimator"}
SYNC = ("std::atomic", "std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::once_flag")


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def reach(prog, f):
    """over-approximation of the functions a call of f can run: callees, every overrider, closures, address-taken"""
    seen, todo = {}, [f]
    while todo:
        g = todo.pop()
        if g.usr in seen:
            continue
        seen[g.usr] = g
        us = set()
        for n in walk(g.d):
            c = n.get("callee")
            if isinstance(c, dict) and c.get("usr"):
                us.add(c["usr"])
            for u in n.get("ops", ()) if n.get("k") == "Lambda" else ():
                us.add(u)
        for u in us:
            h = prog.func(g.tu, u)
            if h:
                todo.append(h)
            todo.extend(prog.overriders.get(u, ()))
    return seen


def type_of(prog, tu, i):
    t = prog.ty(tu, i)
    return t if t else {}


@unit("C20", "frame of the workers", ["FixedSource::StartWorker", "everything it can call"])
def u(en):
    def body():
        prog = en.prog
        R_ = reach(prog, fn(en, "FixedSource::StartWorker"))
        bad = {}
        for g in R_.values():
            q = g.q.split("(")[0]
            if "(lambda)" in g.q or "(anonymous" in g.q:
                pass
            elif "::" in q and not g.d.get("static") and not g.d.get("const") and g.d.get("method", True):
                cls, nm = q.rsplit("::", 1)
                c0 = cls.split("<")[0]
                if nm.lstrip("~") != c0.split("::")[-1] and c0 not in OWN and q != "FixedSource::StartWorker" and c0 in prog.recname:
                    bad.setdefault("methods that may change their object are called only on a worker's own objects", q)
            for n in walk(g.d):
                for d in n.get("decls", ()) if n.get("k") == "DeclStmt" else ():
                    if d.get("static") and not d.get("const") and not d.get("tls"):
                        t = type_of(prog, g.tu, d["type"])
                        if t.get("q") not in SYNC:
                            bad.setdefault("no function keeps a static variable that changes", f"{q} {d['name']}")
                if n.get("k") == "DeclRefExpr" and n.get("rk") == "global":
                    gl = prog.globals.get(n.get("usr"))
                    if gl is None or gl.get("const") or gl.get("constexpr") or n["q"].startswith("std::"):
                        continue
                    t = type_of(prog, gl["tu"], gl["type"])
                    if t.get("q") in SYNC or n["q"] == "Particle::transport_method":
                        continue
                    bad.setdefault("no variable of static storage is used that can change", f"{q} {n['q']}")
                if n.get("k") == "Cast" and n.get("explicit") and n.get("constcast"):
                    bad.setdefault("constness is not cast away", q)
        for r in prog.records.values():
            for f in r["fields"]:
                if f.get("mutable"):
                    t = type_of(prog, r["tu"], f["type"])
                    if t.get("q") not in SYNC:
                        bad.setdefault("no class has members that change in constant objects", f"{r['q']}::{f['name']}")
        for f in prog.funcs.values():
            if f.q == "Driver::Driver":
                continue
            for n in walk(f.d):
                if n.get("k") == "OpCall" and n.get("op") == "=" and n.get("c") and any(
                        x.get("k") == "DeclRefExpr" and x.get("q") == "Particle::transport_method" for x in walk(n["c"][0])):
                    if f.usr in R_:
                        bad.setdefault("workers do not replace the transport method", f.q)
        for nm in ("methods that may change their object are called only on a worker's own objects",
                   "no function keeps a static variable that changes", "no variable of static storage is used that can change",
                   "constness is not cast away", "no class has members that change in constant objects",
                   "workers do not replace the transport method"):
            en.prove(z3.BoolVal(nm not in bad), nm + (f" ({bad[nm]})" if nm in bad else ""), "frame")
        en.prove(z3.BoolVal(len(R_) > 50), "the call graph of the workers is found", "vacuity")
    verify(en, "workers", body)


# ---- the solution
def made(en, q, args):
    o = en.symobj(q, f"made {q}")
    o.extra = {"args": [en.load(a) for a in args]}
    return o


def started(en, this, args):
    """contract of FixedSource::StartWorker (own unit): a set of scores; which one is known by the order of starting"""
    l = en.gget("nstarted")
    n = en.load(l)
    en.store(l, z3.simplify(n + 1))
    note_call(en, oid(en, this), name="started")
    return en.mk(rec_ty(en, "EstimatorSet"), "worker result", [n])


def make_future(en, this, args):
    o = en.load(args[0])
    if not (isinstance(o, Obj) and o.sym and o.sym[0] == "worker result"):
        raise Unsupported("a thread that does not run a worker")
    return o.sym[1][0]


def get_future(en, this, args):
    n = en.load(this).data
    return en.mk(rec_ty(en, "EstimatorSet"), "worker result", [n])


def merged(en, this, args):
    """contract of EstimatorSet::operator+= (C12)"""
    r = en.load(args[0])
    note_call(en, r.sym[1][0] if r.sym and r.sym[0] == "worker result" else z3.IntVal(-1), name="merged")
    note_call(en, z3.IntVal((en.load(this).extra or {}).get("set", -1)), name="into")
    return this


@unit("C20", "every worker's scores are in the solution once", ["FixedSource::Solve"], contracts={
    "new EstimatorSet": copied_set, "FixedSource::StartWorker": started, "make future": make_future, "future.get": get_future,
    "EstimatorSet::operator+=": merged})
def u(en):
    def body():
        d = LBox(Box(en.symobj("FixedSource", "driver")))
        o = en.load(d)
        T = en.field(o, "threads")
        en.assume(T >= 1)
        en.assumed.add("schema: at least one thread")
        init = en.field(o, "init_estimator_set")
        a, b, _ = trace(en, "started"), trace(en, "merged"), trace(en, "into")
        en.gset("nstarted", LBox(Box(z3.IntVal(0))))
        r = method(en, d, "Solve")
        A, M = en.load(a), en.load(b)
        i = z3.Int("i")
        en.prove(A.n == T, "one worker per thread")
        en.prove(z3.Implies(z3.And(0 <= i, i < T), A.elem(i) == oid(en, d)), "each of this calculation")
        en.prove(M.n == T, "as many sets are merged as workers were started")
        en.prove(z3.Implies(z3.And(0 <= i, i < T), M.elem(i) == i), "each worker's set exactly once")
        c = chain(r)
        en.prove(z3.BoolVal(bool(c) and same_obj((c[-1].extra or {}).get("from"), init)), "they are merged into a copy of the initial estimators")
        t = en.load(en.gget("into")).elem(i)
        en.prove(z3.Implies(z3.And(0 <= i, i < T), z3.Or(*[t == x.extra["set"] for x in c])), "which is the solution returned")
    verify(en, "FixedSource::Solve", body)


@unit("C20", "a calculation starts with no history taken", ["FixedSource::FixedSource", "Driver::Driver"], contracts={
    **{"new " + q: (lambda q: lambda en, this, args: made(en, q, args))(q) for q in ("World", "PerturbationSet", "EstimatorSet", "Source")},
    "TransportMethod::Create": lambda en, this, args: new_method(en)})
def u(en):
    def body():
        n = XML("root")
        gen = child(en, n.id, "general")
        N, T = child(en, gen, "histories"), child(en, gen, "threads")
        sd = child(en, gen, "seed")
        en.assume(z3.And(gen != 0, N != 0, T != 0))
        en.assumed.add("schema: general has histories and threads")
        text = lambda c: S.xfn("str_int", I, I)(S.xfn("xml_text", I, I)(c))
        en.assume(z3.And(text(N) >= 0, text(sd) >= 0))
        en.assumed.add("numbers of histories and seeds are not negative")
        d = construct(en, "FixedSource", [n])
        o = en.load(d)
        en.prove(en.field(o, "batchsize") == text(N), "the number of histories is the one of the input")
        en.prove(z3.Implies(sd != 0, en.field(o, "seed") == text(sd)), "the base seed is the one of the input")
        en.prove(z3.Implies(sd == 0, en.field(o, "seed") == 1), "or one")
        en.prove(en.field(o, "threads") == text(T), "the number of threads is the one of the input")
        en.prove(en.field(o, "histories_elapsed") == 0, "no history is taken yet")
        e = en.field(o, "init_estimator_set").extra["args"]
        en.prove(e[-1].r == z3.ToReal(text(N)), "scores are normalised by the number of histories")
        w, ps = en.field(o, "world"), en.field(o, "perturbations")
    verify(en, "FixedSource::FixedSource", body)


def new_method(en):
    x = en.fresh("method", I)
    en.assume(x != 0)
    return Ptr(x)


unit("C10", "every secondary is transported once", ["FixedSource::StartWorker"], contracts=WORK)(lambda en: worker(en, "C10"))
