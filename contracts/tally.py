"""C11 bins, C12 tallies, C13 current estimator, C14 sensitivities"""
from spec import *
from common import *
from fields import rec_type


def bins_unit(q, what, spec):
    def body(en):
        def go():
            n = XML("bins")
            decl = S.xint(en, attr(en, n.id, "bins"))
            lo, hi = xdouble(en, n.id, "min"), xdouble(en, n.id, "max")
            en.assume(z3.And(decl >= 1, decl < 2 ** 52))
            en.assumed.add("schema: a bin specification has at least one and fewer than 2^52 bins")
            if q == "LogspaceBins":
                bs = attr(en, n.id, "base")
                en.assume(z3.Implies(bs != 0, S.xfn("xml_dbl", I, R)(bs) > 1))
                en.assumed.add("the base of logarithmic bins is greater than one")
            try:
                b = construct(en, q, [n])
            except CppThrow:
                del en.frames[:]
                en.prove(hi <= lo, "rejected only if the bounds are not increasing")
                return
            en.prove(lo < hi, "bounds that are not increasing are rejected")
            spec(en, b, n, decl, lo, hi)
        verify(en, q, go)
    return body


def lin(en, b, n, decl, lo, hi):
    v = z3.Real("v")
    size, i = method(en, b, "size"), method(en, b, "GetIndex", [FV(v)])
    partition(en, size, i, decl, lo, hi, v)


def partition(en, size, i, decl, lo, hi, v, vs=None):
    en.prove(size == decl + 2, "one bin per interval and one at either end")
    en.prove(z3.And(0 <= i, i < size), "the index is less than the number of bins")
    en.prove(z3.Implies(v < lo, i == 0), "values below the first boundary go to the first bin")
    en.prove(z3.Implies(v >= hi, i == size - 1), "values at or above the last boundary go to the last bin")
    w = z3.Real("width")
    en.assume(w * z3.ToReal(decl) == hi - lo)
    inner = z3.And(lo <= v, v < hi)
    en.prove(z3.Implies(inner, z3.And(1 <= i, i <= decl)), "values between the boundaries go to an inner bin")
    edge = lambda k: lo + z3.ToReal(k) * w
    en.prove(z3.Implies(inner, edge(i - 1) <= v), "the lower boundary of the bin is not above the value")
    en.prove(z3.Implies(inner, v < edge(i)), "the upper boundary of the bin is above the value")
    j = z3.Int("j")
    en.prove(z3.Implies(z3.And(inner, 1 <= j, j <= decl, edge(j - 1) <= v, v < edge(j)), i == j),
             "the bin between whose boundaries the value lies is the one used")


unit("C11", "linear bins", ["LinspaceBins::LinspaceBins", "LinspaceBins::GetIndex", "LinspaceBins::size"])(
    bins_unit("LinspaceBins", "linear", lin))


def logb(en, b, n, decl, lo, hi):
    """boundaries are powers of the base; v >= base^x exactly when log v / log base >= x"""
    bs = attr(en, n.id, "base")
    base = z3.If(bs == 0, z3.RealVal(10), S.xfn("xml_dbl", I, R)(bs))
    v = z3.Real("v")
    L = S.mfun("log", R, R)
    size, i = method(en, b, "size"), method(en, b, "GetIndex", [FV(v)])
    en.prove(L(base) > 0, "the base has a positive logarithm")
    en.prove(z3.Implies(v <= 0, i == 0), "values that are not positive go to the first bin")
    en.assume(v > 0)
    x = z3.Real("logv")
    en.assume(x * L(base) == L(v))
    partition(en, size, i, decl, lo, hi, x)


unit("C11", "logarithmic bins", ["LogspaceBins::LogspaceBins", "LogspaceBins::GetIndex", "LogspaceBins::size"])(
    bins_unit("LogspaceBins", "logarithmic", logb))


@unit("C11", "no bins", ["NoBins::GetIndex", "NoBins::size"])
def u(en):
    def body():
        b = construct(en, "NoBins", [])
        en.prove(method(en, b, "size") == 1, "there is one bin")
        en.prove(method(en, b, "GetIndex", [FV(z3.Real("v"))]) == 0, "every value goes to it")
    verify(en, "NoBins::GetIndex", body)


@unit("C11", "bins between explicit boundaries", ["BoundaryBins::BoundaryBins", "BoundaryBins::GetIndex", "BoundaryBins::size"])
def u(en):
    def body():
        n = XML("boundaries")
        st = S.xml_method(en, n, "child_value", [])
        text = z3.Int("text")
        en.assume(text == st.t)
        cnt = S.ntok(en, text)
        tok = lambda k: S.xfn("tok_dbl", I, I, R)(text, k)
        i, j = z3.Ints("i j")
        try:
            b = construct(en, "BoundaryBins", [n])
        except CppThrow:
            del en.frames[:]
            en.prove(z3.Not(z3.ForAll([i], z3.Implies(z3.And(0 < i, i < cnt), tok(i - 1) < tok(i)))),
                     "rejected only if the boundaries are not increasing")
            return
        en.prove(z3.Implies(z3.And(0 <= i, i + 1 < cnt), tok(i) < tok(i + 1)), "boundaries that are not increasing are rejected")
        v = z3.Real("v")
        sorted_from_adjacent(en, tok, cnt)
        size, g = method(en, b, "size"), method(en, b, "GetIndex", [FV(v)])
        en.prove(size == cnt + 1, "one bin more than boundaries")
        en.prove(z3.And(0 <= g, g < size), "the index is less than the number of bins")
        en.prove(z3.Implies(z3.And(0 <= j, j < g), tok(j) <= v), "the boundaries below the bin are not above the value")
        en.prove(z3.Implies(z3.And(g <= j, j < cnt), v < tok(j)), "the boundaries from the bin on are above the value")
    verify(en, "BoundaryBins::GetIndex", body)


@unit("C11", "choice of the bin type", ["Bins::Create"], contracts={
    "new " + q: (lambda en, this, args, q=q: made(en, q, args)) for q in ("NoBins", "LinspaceBins", "LogspaceBins", "BoundaryBins")})
def u(en):
    def body():
        n = XML("bins")
        nm = S.xml_method(en, n, "name", []).t
        types = {"": "NoBins", "linspace": "LinspaceBins", "logspace": "LogspaceBins", "boundaries": "BoundaryBins"}
        en.assume(z3.Or(*[nm == mkcode(t) for t in types]))
        en.assumed.add("schema: the bin type is one of linspace, logspace, boundaries or missing")
        r = static(en, "Bins::Create", [n])
        o = en.load(en.deref(r))
        for t, q in types.items():
            if o.rec["q"] == q:
                en.prove(nm == mkcode(t), f"{q} are made for \"{t}\"")
        en.prove(o.rec["q"] in types.values(), "one of the bin types is made")
        if o.rec["q"] != "NoBins":
            en.prove(en.gget("made_from") == n.id, "the bins are made from the given node")
    verify(en, "Bins::Create", body)


def made(en, q, args):
    o = Obj(en.prog.recname[q][0])
    o.extra = {"exact": True}
    if args:
        en.gset("made_from", en.load(args[0]).id)
    return o


# ---- contracts of Bins for callers: pure, index below the size
def bins_size(en, this, args):
    n = UF("Bins.size", I, I)(oid(en, this))
    en.assume(z3.And(n >= 1, n < 2 ** 31))
    return n


def bins_index(en, this, args):
    v = en.load(args[0])
    i = oid(en, this)
    r = UF("Bins.GetIndex", I, R, I)(i, v.r)
    en.prove(tobool(v.fin), "only finite values are binned", "requires")
    en.assume(z3.And(0 <= r, r < UF("Bins.size", I, I)(i)))
    return r


BINS = {"Bins::size": bins_size, "Bins::GetIndex": bins_index}


def particle(en, name, multigroup=None):
    p = LBox(Box(en.symobj("Particle", name)))
    return p


@unit("C11", "element of a tally", ["ParticleBins::ParticleBins", "ParticleBins::GetIndex", "ParticleBins::size"],
      contracts={**BINS, **GEOM, "Bins::Create": lambda en, this, args: bins_made(en, args)})
def u(en):
    def body():
        n = XML("bins")
        cn, ee = child(en, n.id, "cosine"), child(en, n.id, "energy")
        uvw = [xdouble(en, cn, c) for c in "uvw"]
        en.assume(z3.Or(*[c != 0 for c in uvw]))
        en.assumed.add("schema: the reference direction of cosine bins is not the zero vector")
        pb = construct(en, "ParticleBins", [n])
        p, q = particle(en, "p"), particle(en, "q")
        cos, ene = en.field(en.load(pb), "cosine").id, en.field(en.load(pb), "energy").id
        en.prove(z3.And(UF("made_from", I, I)(cos) == first(en, cn), UF("made_from", I, I)(ene) == first(en, ee)),
                 "cosine and energy bins are those declared")
        d = en.field(en.load(pb), "direction")
        if d.v is not None:
            D = xyz(en, d.v)
            en.prove(z3.And(norm2(D) == 1, dot(D, uvw) > 0, *[D[a] * uvw[b] == D[b] * uvw[a] for a, b in ((0, 1), (1, 2), (0, 2))]),
                     "the reference direction is the declared one, normalised")
        en.prove(tobool(d.has) == (cn != 0), "there is a reference direction exactly when cosine bins are declared")
        C, N = UF("Bins.size", I, I)(cos), UF("Bins.size", I, I)(ene)
        size = method(en, pb, "size")
        en.prove(size == C * N, "the tally has an element for every pair of bins")
        idx, cs, es = [], [], []
        for x in (p, q):
            g = method(en, pb, "GetIndex", [x])
            o = en.load(x)
            e = en.field(o, "energy")
            ev = energy_value(en, e)
            ei = UF("Bins.GetIndex", I, R, I)(ene, ev)
            d = en.field(en.load(pb), "direction")
            D = en.field(o, "direction")
            ci = z3.If(cn == 0, z3.IntVal(0), UF("Bins.GetIndex", I, R, I)(cos, dot(xyz(en, d.v), xyz(en, D)))) if d.v is not None else z3.IntVal(0)
            en.prove(g == N * ci + ei, "the element of the particle's cosine and energy bin is used")
            en.prove(z3.And(0 <= g, g < size), "the element lies inside the tally")
            idx.append(g), cs.append(ci), es.append(ei)
        en.prove((idx[0] == idx[1]) == z3.And(cs[0] == cs[1], es[0] == es[1]), "particles share an element exactly when they share all bins")
    verify(en, "ParticleBins::GetIndex", body)


def first(en, n):
    return S.xml_method(en, XNode(n), "first_child", []).id


def bins_made(en, args):
    f = fn(en, "Bins::Create")
    n = en.load(args[0])
    i = en.fresh("bins", I)
    en.assume(z3.And(i != 0, UF("made_from", I, I)(i) == n.id))
    return Ptr(i, None, rec_ty(en, "Bins"), True)


def rec_ty(en, q):
    from fields import rec_type
    return rec_type(en, q)


def energy_value(en, e):
    return z3.If(e.idx == 0, e.alts[0].r, z3.ToReal(e.alts[1]))


# ================================================================ C12
def score_of(en, this, args):
    """contract of Scorable::GetScore(particle): a finite number depending on the particle's state"""
    if len(args) != 1:
        return NotImplemented
    return FV(UF("Scorable.GetScore", I, I, R)(oid(en, this), oid(en, args[0])))


def elem_of(en, this, args):
    """contract of ParticleBins::GetIndex (its own unit)"""
    r = UF("ParticleBins.GetIndex", I, I, I)(oid(en, this), oid(en, args[0]))
    en.assume(z3.And(0 <= r, r < UF("ParticleBins.size", I, I)(oid(en, this))))
    return r


def elems(en, this, args):
    n = UF("ParticleBins.size", I, I)(oid(en, this))
    en.assume(n >= 1)
    return n


TALLY = {"Scorable::GetScore": score_of, "ParticleBins::GetIndex": elem_of, "ParticleBins::size": elems}


def pend(m, x):
    """pending score of element x"""
    return z3.If(tobool(m.dom(x)), m.val(x).r, z3.RealVal(0))


@unit("C12", "scoring of one event", ["ScorableProxy::Score"], contracts=TALLY)
def u(en):
    def body():
        o = LBox(Box(en.symobj("ScorableProxy", "proxy")))
        p = particle(en, "p")
        m0 = en.copy(en.field(en.load(o), "pending_scores"))
        orig = en.ptr_to(en.member(o, "original")).id
        bins = en.field(en.load(en.member(o, "original")), "bins").id
        en.assume(bins != 0)
        method(en, o, "Score", [p])
        m = en.field(en.load(o), "pending_scores")
        x = z3.Int("x")
        pid = oid(en, p)
        s = UF("Scorable.GetScore", I, I, R)(orig, pid)
        g = UF("ParticleBins.GetIndex", I, I, I)(bins, pid)
        en.prove(pend(m, x) == pend(m0, x) + z3.If(x == g, s, z3.RealVal(0)), "the score is added to the pending score of the particle's element only")
        en.prove(z3.Implies(z3.And(tobool(m.dom(x)), z3.Not(tobool(m0.dom(x)))), z3.And(x == g, s != 0)),
                 "only elements of the tally get a pending score")
    verify(en, "ScorableProxy::Score", body)


def cauchy_schwarz(en, k, s0, q0, j, v, w, s1, q1):
    """lemma: k q0 >= s0^2 (k histories so far) and j w >= v^2 (j more) carry over to the sums s1 = s0 + v, q1 = q0 + w"""
    ok = lambda k, s, q: z3.And(k >= 0, q >= 0, k * q >= s * s)
    en.prove(z3.Implies(z3.And(ok(k, s0, q0), ok(j, v, w)), ok(k + j, s1, q1)),
             "the squared sum stays below the sum of squares times the number of histories", "lemma")


@unit("C12", "commit of a history", ["ScorableProxy::CommitHistory"], contracts=TALLY)
def u(en):
    def body():
        o = LBox(Box(en.symobj("ScorableProxy", "proxy")))
        m = en.copy(en.field(en.load(o), "pending_scores"))
        orig = en.member(o, "original")
        ob = en.load(orig)
        sc0, sq0 = [en.copy(en.field(ob, f)) for f in ("scores", "square_scores")]
        k = z3.Int("_k")
        n = sc0.n
        en.assume(sq0.n == n)
        en.assume(z3.ForAll([k], z3.Implies(tobool(m.dom(k)), z3.And(0 <= k, k < n)), patterns=[m.pos(k)]))
        en.assumed.add("pending scores belong to elements of the tally (postcondition of ScorableProxy::Score)")
        method(en, o, "CommitHistory")
        ob = en.load(en.member(o, "original"))
        sc, sq = [en.field(ob, f) for f in ("scores", "square_scores")]
        x = z3.Int("x")
        inr = z3.And(0 <= x, x < n)
        en.prove(z3.And(sc.n == n, sq.n == n), "the tally keeps its size")
        en.prove(z3.Implies(inr, sc.elem(x).r == sc0.elem(x).r + pend(m, x)), "each element grows by its total score of the history")
        en.prove(z3.Implies(inr, sq.elem(x).r == sq0.elem(x).r + pend(m, x) * pend(m, x)), "each sum of squares grows by the square of that total")
        k, (s0, q0, v, s1, q1) = z3.Real("histories"), [en.fresh(t, R) for t in ("s0", "q0", "v", "s1", "q1")]
        en.assume(z3.And(inr, s0 == sc0.elem(x).r, q0 == sq0.elem(x).r, v == pend(m, x), s1 == sc.elem(x).r, q1 == sq.elem(x).r))
        en.assume(z3.And(s1 == s0 + v, q1 == q0 + v * v))      # just proved
        cauchy_schwarz(en, k, s0, q0, z3.RealVal(1), v, v * v, s1, q1)
    verify(en, "ScorableProxy::CommitHistory", body)


@unit("C12", "pending scores of a new history", ["ScorableProxy::ScorableProxy"])
def u(en):
    def body():
        s = LBox(Box(en.symobj("Scorable", "tally")))
        en.load(s).ident = en.fresh("tally.&", I)
        o = construct(en, "ScorableProxy", [s])
        m = en.field(en.load(o), "pending_scores")
        x = z3.Int("x")
        en.prove(z3.Not(tobool(m.dom(x))), "nothing is pending")
        en.prove(en.ptr_to(en.member(o, "original")).id == en.ptr_to(s).id, "the proxy scores to the tally it was made for")
    verify(en, "ScorableProxy::ScorableProxy", body)


@unit("C12", "merge of two tallies", ["Scorable::operator+="])
def u(en):
    def body():
        a, b = LBox(Box(en.symobj("Scorable", "a"))), LBox(Box(en.symobj("Scorable", "b")))
        A = [en.copy(en.field(en.load(a), f)) for f in ("scores", "square_scores")]
        Bv = [en.copy(en.field(en.load(b), f)) for f in ("scores", "square_scores")]
        n = A[0].n
        for v in A + Bv:
            en.assume(v.n == n)
        en.assumed.add("merged tallies are copies of one tally: same bins")
        method(en, a, "operator+=", [b])
        R2 = [en.field(en.load(a), f) for f in ("scores", "square_scores")]
        x = z3.Int("x")
        inr = z3.And(0 <= x, x < n)
        for r, s, t, what in zip(R2, A, Bv, ("sums", "sums of squares")):
            en.prove(r.n == n, f"{what}: same size")
            en.prove(z3.Implies(inr, r.elem(x).r == s.elem(x).r + t.elem(x).r), f"{what} are added element by element")
        for f, t in zip(("scores", "square_scores"), Bv):
            v = en.field(en.load(b), f)
            en.prove(z3.And(v.n == n, z3.Implies(inr, v.elem(x).r == t.elem(x).r)), "the other tally is unchanged")
        (k, j), (s0, q0, v, w, s1, q1) = z3.Reals("histories others"), [en.fresh(t, R) for t in ("s0", "q0", "v", "w", "s1", "q1")]
        en.assume(z3.And(inr, s0 == A[0].elem(x).r, q0 == A[1].elem(x).r, v == Bv[0].elem(x).r, w == Bv[1].elem(x).r, s1 == R2[0].elem(x).r, q1 == R2[1].elem(x).r))
        en.assume(z3.And(s1 == s0 + v, q1 == q0 + w))          # just proved
        cauchy_schwarz(en, k, s0, q0, j, v, w, s1, q1)
    verify(en, "Scorable::operator+=", body)


@unit("C12", "reported mean", ["Scorable::GetScore"])
def u(en):
    def body():
        a = LBox(Box(en.symobj("Scorable", "a")))
        i, w = z3.Int("i"), z3.Real("w")
        sc = en.field(en.load(a), "scores")
        en.assume(z3.And(0 <= i, i < sc.n, w > 0))
        r = static_on(en, "Scorable::GetScore", a, [i, FV(w)], 2)
        en.prove(r.r * w == sc.elem(i).r, "the mean is the sum over the number of histories")
    verify(en, "Scorable::GetScore", body)


def static_on(en, q, this, args, np):
    f = fn(en, q, nparams=np)
    r = en.call(f, this, [a if isinstance(a, Loc) else LBox(Box(a)) for a in args])
    return en.load(r) if isinstance(r, Loc) else r


# ---- sets of estimators
def logs(q, nargs=1):
    """effect contract: the call is recorded with the identities of the object and its argument"""
    def c(en, this, args):
        note_call(en, oid(en, this), *[oid(en, a) for a in args])
        return this if "operator" in q else None
    return {q: c}


def two(en):
    return trace(en, "trace0"), trace(en, "trace1")


@unit("C13", "an event reaches the estimator and its sensitivities", ["EstimatorProxy::Score"], contracts=logs("ScorableProxy::Score"))
def u(en):
    def body():
        A, Bt = two(en)
        o = LBox(Box(en.symobj("EstimatorProxy", "proxy")))
        p = particle(en, "p")
        s = en.copy(en.field(en.load(o), "sensitivity_proxies"))
        method(en, o, "Score", [p])
        a, b = en.load(A), en.load(Bt)
        i = z3.Int("i")
        en.prove(a.n == s.n + 1, "the estimator and each of its sensitivities are scored once")
        en.prove(z3.Implies(z3.And(0 <= i, i < a.n), b.elem(i) == oid(en, p)), "with this event")
        en.prove(a.elem(z3.IntVal(0)) == oid(en, o), "the estimator itself is scored")
        en.prove(z3.Implies(z3.And(0 <= i, i < s.n), a.elem(i + 1) == en.sym_ident(s.elem(i))), "each sensitivity is scored")
    verify(en, "EstimatorProxy::Score", body)


@unit("C13", "an event reaches every estimator", ["EstimatorSetProxy::Score"], contracts=logs("EstimatorProxy::Score"))
def u(en):
    def body():
        A, Bt = two(en)
        o = LBox(Box(en.symobj("EstimatorSetProxy", "proxy")))
        p = particle(en, "p")
        s = en.copy(en.field(en.load(o), "estimator_proxies"))
        method(en, o, "Score", [p])
        a, b = en.load(A), en.load(Bt)
        i = z3.Int("i")
        en.prove(a.n == s.n, "as many estimators are scored as there are")
        en.prove(z3.Implies(z3.And(0 <= i, i < a.n), z3.And(a.elem(i) == en.sym_ident(s.elem(i)), b.elem(i) == oid(en, p))),
                 "each estimator is scored once with this event")
    verify(en, "EstimatorSetProxy::Score", body)


@unit("C12", "commit of an estimator and its sensitivities", ["EstimatorProxy::CommitHistory"], contracts=logs("ScorableProxy::CommitHistory"))
def u(en):
    def body():
        A = trace(en)
        o = LBox(Box(en.symobj("EstimatorProxy", "proxy")))
        s = en.copy(en.field(en.load(o), "sensitivity_proxies"))
        method(en, o, "CommitHistory")
        a = en.load(A)
        i = z3.Int("i")
        en.prove(a.n == s.n + 1, "the estimator and each of its sensitivities are committed once")
        en.prove(a.elem(z3.IntVal(0)) == oid(en, o), "the estimator itself is committed")
        en.prove(z3.Implies(z3.And(0 <= i, i < s.n), a.elem(i + 1) == en.sym_ident(s.elem(i))), "each sensitivity is committed")
    verify(en, "EstimatorProxy::CommitHistory", body)


@unit("C12", "commit of every estimator", ["EstimatorSetProxy::CommitHistory"], contracts=logs("EstimatorProxy::CommitHistory"))
def u(en):
    def body():
        A = trace(en)
        o = LBox(Box(en.symobj("EstimatorSetProxy", "proxy")))
        s = en.copy(en.field(en.load(o), "estimator_proxies"))
        method(en, o, "CommitHistory")
        a = en.load(A)
        i = z3.Int("i")
        en.prove(a.n == s.n, "as many estimators are committed as there are")
        en.prove(z3.Implies(z3.And(0 <= i, i < a.n), a.elem(i) == en.sym_ident(s.elem(i))), "each estimator is committed once")
    verify(en, "EstimatorSetProxy::CommitHistory", body)


def nonnull(en, s):
    i = z3.Int("_q")
    e = s.elem(i)
    en.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), e.id != 0), patterns=[e.id]))
    en.assumed.add("owning containers hold no null pointers (postcondition of their constructors)")


@unit("C12", "proxy of an estimator", ["EstimatorProxy::EstimatorProxy"])
def u(en):
    def body():
        e = LBox(Box(en.symobj("Estimator", "estimator")))
        en.load(e).ident = en.fresh("estimator.&", I)
        s = en.copy(en.field(en.load(e), "sensitivities"))
        nonnull(en, s)
        o = construct(en, "EstimatorProxy", [e])
        i, x = z3.Ints("i x")
        m = en.field(en.load(o), "pending_scores")
        en.prove(z3.Not(tobool(m.dom(x))), "nothing is pending")
        en.prove(en.ptr_to(en.member(o, "original")).id == oid(en, e), "the proxy scores to the estimator it was made for")
        p = en.field(en.load(o), "sensitivity_proxies")
        en.prove(p.n == s.n, "one proxy per sensitivity")
        en.assume(z3.And(0 <= i, i < s.n))
        pi = p.elem(i)
        en.prove(z3.Not(tobool(en.field(pi, "pending_scores").dom(x))), "nothing is pending for sensitivities")
        en.prove(en.ptr_to(en.member(LBox(Box(pi)), "original")).id == s.elem(i).id, "sensitivity proxies score to the estimator's sensitivities in order")
    verify(en, "EstimatorProxy::EstimatorProxy", body)


@unit("C12", "proxies of a set of estimators", ["EstimatorSetProxy::EstimatorSetProxy", "EstimatorSet::GetProxy"],
      contracts={"new EstimatorProxy": lambda en, this, args: proxy_of(en, args[0])})
def u(en):
    def body():
        e = LBox(Box(en.symobj("EstimatorSet", "set")))
        s = en.copy(en.field(en.load(e), "estimators"))
        nonnull(en, s)
        o = method(en, e, "GetProxy")
        p = en.field(en.load(o) if isinstance(o, Loc) else o, "estimator_proxies")
        i = z3.Int("i")
        en.prove(p.n == s.n, "one proxy per estimator")
        en.assume(z3.And(0 <= i, i < s.n))
        en.prove(en.field(p.elem(i), "original").id == s.elem(i).id, "in the order of the estimators")
    verify(en, "EstimatorSetProxy::EstimatorSetProxy", body)


def proxy_of(en, est):
    """contract of the EstimatorProxy constructor: a proxy of that estimator"""
    o = Obj(en.prog.recname["EstimatorProxy"][0])
    o.fields["original"] = en.ptr_to(est)
    return o


def merge(en, this, args):
    note_call(en, oid(en, this), oid(en, args[0]))
    return this


def named(s):
    return lambda i: UF("Scorable.name", I, z3.StringSort())(i)


@unit("C12", "merge of an estimator and its sensitivities", ["Estimator::operator+=", "Sensitivity::operator+="], contracts={"Scorable::operator+=": merge})
def u(en):
    def body():
        A, Bt = two(en)
        a, b = [LBox(Box(en.symobj("Estimator", n))) for n in "ab"]
        sa, sb = [en.copy(en.field(en.load(x), "sensitivities")) for x in (a, b)]
        nonnull(en, sa)
        nonnull(en, sb)
        nm = lambda s, i: en.field(en.load(en.deref(s.elem(i))), "name").t
        i, j = z3.Ints("i j")
        en.assume(sa.n == sb.n)
        en.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sa.n), nm(sa, i) == nm(sb, i)), patterns=[nm(sa, i)]))
        en.assumed.add("merged estimators are copies of one estimator: same sensitivities")
        r = method(en, a, "operator+=", [b])
        ta, tb = en.load(A), en.load(Bt)
        en.prove(ta.n == sa.n + 1, "the estimator and each sensitivity is merged once")
        en.prove(z3.And(ta.elem(z3.IntVal(0)) == oid(en, a), tb.elem(z3.IntVal(0)) == oid(en, b)), "the estimator is merged with the other estimator")
        inr = z3.And(0 <= i, i < sa.n)
        en.prove(z3.Implies(inr, ta.elem(i + 1) == sa.elem(i).id), "every sensitivity receives the other's scores")
        en.assume(inr)
        en.prove(z3.Exists([j], z3.And(0 <= j, j < sb.n, tb.elem(i + 1) == sb.elem(j).id, nm(sb, j) == nm(sa, i))), "those of the sensitivity with the same name")
    verify(en, "Estimator::operator+=", body)


@unit("C12", "merge of sets of estimators", ["EstimatorSet::operator+="], contracts={"Estimator::operator+=": merge})
def u(en):
    def mk(n):
        x = LBox(Box(en.symobj("EstimatorSet", n)))
        s = en.copy(en.field(en.load(x), "estimators"))
        return x, s
    nm = lambda s, i: en.field(en.load(en.deref(s.elem(i))), "name").t
    i, j = z3.Ints("i j")

    def body():
        A, Bt = two(en)
        (a, sa), (b, sb) = mk("a"), mk("b")
        nonnull(en, sa)
        nonnull(en, sb)
        method(en, a, "operator+=", [b])
        ta, tb = en.load(A), en.load(Bt)
        en.prove(ta.n == sa.n, "each estimator is merged once")
        inr = z3.And(0 <= i, i < sa.n)
        en.prove(z3.Implies(inr, ta.elem(i) == sa.elem(i).id), "every estimator receives the other's scores")
        en.assume(inr)
        en.prove(z3.Exists([j], z3.And(0 <= j, j < sb.n, tb.elem(i) == sb.elem(j).id, nm(sb, j) == nm(sa, i))), "those of the estimator with the same name")

    def thrown():
        sa, sb = mk("a")[1], mk("b")[1]
        en.prove(z3.Exists([i], z3.And(0 <= i, i < sa.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < sb.n), nm(sa, i) != nm(sb, j))))),
                 "a set is refused only if an estimator has no namesake")
    verify(en, "EstimatorSet::operator+=", body, on_throw=lambda *a: thrown())


@unit("C12", "a new tally is empty", ["Scorable::Scorable"], contracts={**TALLY, "new ParticleBins": lambda en, this, args: made_bins(en, args)})
def u(en):
    def body():
        n = XML("bins")
        o = construct(en, "Scorable", [Str(z3.String("name")), n])
        b = en.field(en.load(o), "bins").id
        x = z3.Int("x")
        for f in ("scores", "square_scores"):
            s = en.field(en.load(o), f)
            en.prove(s.n == UF("ParticleBins.size", I, I)(b), f"{f}: one element per bin")
            en.prove(z3.Implies(z3.And(0 <= x, x < s.n), s.elem(x).r == 0), f"{f} start at zero")
    verify(en, "Scorable::Scorable", body)


def made_bins(en, args):
    o = en.symobj("ParticleBins", "bins")
    return o


@unit("C12", "a new sensitivity tally is empty and shares the bins", ["Scorable::Scorable(estimator, perturbation)"], contracts=TALLY)
def u(en):
    def body():
        e = LBox(Box(en.symobj("Scorable", "estimator")))
        p = LBox(Box(en.symobj("Perturbation", "perturbation")))
        eb = en.field(en.load(e), "bins").id
        en.assume(eb != 0)
        o = construct(en, "Scorable", [e, p])
        en.prove(en.field(en.load(o), "bins").id == eb, "the sensitivity uses the bins of its estimator")
        x = z3.Int("x")
        for f in ("scores", "square_scores"):
            s = en.field(en.load(o), f)
            en.prove(s.n == UF("ParticleBins.size", I, I)(eb), f"{f}: one element per bin")
            en.prove(z3.Implies(z3.And(0 <= x, x < s.n), s.elem(x).r == 0), f"{f} start at zero")
    verify(en, "Scorable::Scorable(estimator, perturbation)", body)


def printed(en, out, v):
    """every number written to the report, in order"""
    if isinstance(v, FV):
        from stdmodel import push_back
        push_back(en, en.gget("printed"), v)


@unit("C12", "reported mean and standard deviation", ["Scorable::GetScoreAsString"], contracts={"<<": printed})
def u(en):
    def body():
        a = LBox(Box(en.symobj("Scorable", "a")))
        sc, sq = [en.copy(en.field(en.load(a), f)) for f in ("scores", "square_scores")]
        N, i = z3.Real("N"), z3.Int("i")
        L = LBox(Box(Seq.of([], sc.elty, "vector")))
        en.gset("printed", L)
        n = sc.n
        en.assume(z3.And(N > 0, sq.n == n))
        en.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sq.elem(i).r * N >= sc.elem(i).r * sc.elem(i).r), patterns=[sq.elem(i).r]))
        en.assumed.add("sum of squares times N is at least the squared sum (invariant of the accumulation: lemma of the units commit and merge; zero at the start)")
        method(en, a, "GetScoreAsString", [FV(N)])
        t = en.load(L)
        en.prove(t.n == 2 * n, "one mean and one standard deviation per element")
        en.assume(z3.And(0 <= i, i < n))
        en.prove(t.elem(i).r * N == sc.elem(i).r, "the mean is sum/N")
        d = t.elem(n + i)
        en.prove(tobool(b_not(d.special())) if hasattr(d, "special") else z3.Not(tobool(d.nan)), "the standard deviation is a number")
        en.prove(z3.And(d.r >= 0, (d.r * N) * (d.r * N) == sq.elem(i).r - sc.elem(i).r * sc.elem(i).r / N), "the standard deviation is sqrt(sumsq - sum^2/N)/N")
    verify(en, "Scorable::GetScoreAsString", body)


def event(en, name):
    return z3.IntVal(en.prog.enums["Particle::Event"][name])


@unit("C13", "score of a current estimator", ["CurrentEstimator::GetScore"])
def u(en):
    def body():
        o = LBox(Box(en.symobj("CurrentEstimator", "current")))
        p = particle(en, "p")
        own, at = en.field(en.load(o), "surface").id, en.field(en.load(p), "current_surface").id
        ev = en.field(en.load(p), "event")
        en.assume(own != 0)
        r = method(en, o, "GetScore", [p])
        cross = z3.And(at == own, z3.Or(ev == event(en, "surface_cross"), ev == event(en, "leak")))
        en.prove(r.r == z3.If(cross, z3.RealVal(1), z3.RealVal(0)), "one exactly for a crossing of its own surface, else zero")
    verify(en, "CurrentEstimator::GetScore", body)


def lookup(rec, q):
    """contract of World::Find*ByName: the object with that name (its own unit, C17)"""
    def c(en, this, args):
        nm = en.load(args[-1])
        i = UF(q, I, I, I)(oid(en, this), nm.t)
        en.assume(i != 0)
        return Ptr(i, None, rec_type(en, rec))
    return {q: c}


@unit("C13", "surface of a current estimator", ["CurrentEstimator::CurrentEstimator", "Estimator::Create"],
      contracts={**lookup("CSGSurface", "World::FindSurfaceByName"), **TALLY, "new ParticleBins": lambda en, this, args: made_bins(en, args),
                 "Sensitivity::Create": lambda en, this, args: made_sens(en, args)})
def u(en):
    def body():
        n = XML("estimator")
        w = LBox(Box(en.symobj("World", "world")))
        ps = LBox(Box(en.symobj("PerturbationSet", "perturbations")))
        en.assume(z3.And(n.id != 0, S.xfn("xml_name", I, I)(n.id) == mkcode("current")))
        r = static(en, "Estimator::Create", [n, w, ps])
        o = en.load(en.deref(r))
        en.prove(o.rec["q"] == "CurrentEstimator", "a current node makes a current estimator")
        en.prove(en.field(o, "surface").id == UF("World::FindSurfaceByName", I, I, I)(oid(en, w), xstring(en, n.id, "surface")),
                 "the surface is the one named by the surface attribute")
        s = en.field(o, "sensitivities")
        sn = child(en, n.id, "sensitivities")
        en.prove(s.n == S.xkids(en, sn), "one sensitivity per listed perturbation")
        i = z3.Int("i")
        en.assume(z3.And(0 <= i, i < s.n))
        en.prove(s.elem(i).id == UF("Sensitivity::Create", I, I, I)(S.xkid(en, sn, i), oid(en, ps)), "made from its node, in order")
    verify(en, "Estimator::Create", body)


def made_sens(en, args):
    i = UF("Sensitivity::Create", I, I, I)(en.load(args[0]).id, oid(en, args[1]))
    en.assume(i != 0)
    return Ptr(i, None, rec_type(en, "Sensitivity"))


def made_est(en, this, args):
    i = UF("Estimator::Create", I, I, I, I)(en.load(args[0]).id, oid(en, args[1]), oid(en, args[2]))
    en.assume(i != 0)
    return Ptr(i, None, rec_type(en, "Estimator"))


@unit("C13", "one estimator per node", ["EstimatorSet::EstimatorSet"], contracts={"Estimator::Create": made_est})
def u(en):
    def body():
        n = XML("estimators")
        w = LBox(Box(en.symobj("World", "world")))
        ps = LBox(Box(en.symobj("PerturbationSet", "perturbations")))
        N = FV(z3.Real("N"))
        o = en.load(construct(en, "EstimatorSet", [n, w, ps, N]))
        s = en.field(o, "estimators")
        en.prove(s.n == S.xkids(en, n.id), "as many estimators as nodes")
        en.prove(en.field(o, "total_weight").r == N.r, "scores are normalised by the given weight")
        i = z3.Int("i")
        en.assume(z3.And(0 <= i, i < s.n))
        en.prove(s.elem(i).id == UF("Estimator::Create", I, I, I, I)(S.xkid(en, n.id, i), oid(en, w), oid(en, ps)), "made from the nodes in order")
    verify(en, "EstimatorSet::EstimatorSet", body)


def clone_of(rec):
    def c(en, this, args):
        i = UF(rec + ".Clone", I, I)(oid(en, this))
        en.assume(i != 0)
        return Ptr(i, None, rec_type(en, rec))
    return {rec + "::Clone": c}


@unit("C12", "copy of an estimator", ["CurrentEstimator::Clone", "CurrentEstimator::CurrentEstimator(copy)", "Estimator::Estimator(copy)"],
      contracts=clone_of("Sensitivity"))
def u(en):
    def body():
        a = LBox(Box(en.symobj("CurrentEstimator", "other")))
        en.load(a).extra = {"exact": True}
        A = en.load(a)
        k = kept_fields(en, A, ["name", "bins", "scores", "square_scores", "surface", "sensitivities"])
        nonnull(en, k["sensitivities"])
        r = method(en, a, "Clone")
        o = en.load(en.deref(r))
        i = z3.Int("i")
        en.prove(o.rec["q"] == "CurrentEstimator", "the copy is of the same kind")
        en.prove(z3.And(en.field(o, "name").t == k["name"].t, en.field(o, "surface").id == k["surface"].id, en.field(o, "bins").id == k["bins"].id),
                 "same name, surface and bins")
        for f in ("scores", "square_scores"):
            s = en.field(o, f)
            en.prove(z3.And(s.n == k[f].n, z3.Implies(z3.And(0 <= i, i < s.n), s.elem(i).r == k[f].elem(i).r)), f"same {f}")
        s = en.field(o, "sensitivities")
        en.prove(s.n == k["sensitivities"].n, "every sensitivity is copied")
        en.prove(z3.Implies(z3.And(0 <= i, i < s.n), s.elem(i).id == UF("Sensitivity.Clone", I, I)(k["sensitivities"].elem(i).id)), "in order")
    verify(en, "CurrentEstimator::Clone", body)


def kept_fields(en, o, names):
    return {n: en.copy(en.field(o, n)) for n in names}


@unit("C12", "copy of a set of estimators", ["EstimatorSet::EstimatorSet(copy)"], contracts=clone_of("Estimator"))
def u(en):
    def body():
        a = LBox(Box(en.symobj("EstimatorSet", "other")))
        k = kept_fields(en, en.load(a), ["estimators", "total_weight"])
        nonnull(en, k["estimators"])
        o = en.load(construct(en, "EstimatorSet", [a]))
        s = en.field(o, "estimators")
        i = z3.Int("i")
        en.prove(s.n == k["estimators"].n, "every estimator is copied")
        en.prove(z3.Implies(z3.And(0 <= i, i < s.n), s.elem(i).id == UF("Estimator.Clone", I, I)(k["estimators"].elem(i).id)), "in order")
        en.prove(en.field(o, "total_weight").r == k["total_weight"].r, "scores are normalised by the same weight")
    verify(en, "EstimatorSet::EstimatorSet", body)
