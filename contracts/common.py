"""Contracts used at call sites (each is discharged in the unit of its own function)."""
from spec import *


def norm2(v):
    return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def ideal_true(en, goal):
    """cheap algebraic check used to choose the form of a callee's result"""
    import backend
    g = z3.simplify(goal, som=True)
    if z3.is_true(g):
        return True
    fs = [f for f in en.pc if z3.is_eq(f)] + [z3.Not(goal)]
    b = backend._race([("ideal", lambda: (backend.ideal(fs), None))], 3000)
    return bool(b and b[1] == "unsat")


def normalized(en, v, name="dir"):
    """contract of the normalising constructors: the unit vector along v (v not zero)"""
    en.prove(z3.Or(*[c != 0 for c in v]), "vector to normalise is not zero", "requires")
    o = Obj(en.prog.recname["Direction"][0])
    o.extra = {"exact": True}
    if ideal_true(en, norm2(v) == 1):
        r = list(v)
    else:
        r = [en.fresh(name, R) for _ in v]
        n = en.fresh("len", R)
        en.assume(z3.And(n > 0, n * n == norm2(v)))
        for a, b in zip(r, v):
            en.assume(a * n == b)
        en.assume(norm2(r) == 1)
        for w in en.gget("vectors", ()):
            if ideal_true(en, dot(v, w) == 0):
                en.assume(dot(r, w) == 0)
    en.gset("vectors", en.gget("vectors", ()) + (tuple(r),))
    for c, x in zip("xyz", r):
        o.fields[c] = FV(x)
    return o


def know(en, v):
    en.gset("vectors", en.gget("vectors", ()) + (tuple(v),))


def new_direction(en, this, args):
    V = [en.load(a) for a in args]
    if len(V) == 1 and isinstance(V[0], Obj):
        if V[0].rec["q"] == "Direction":
            return en.copy(V[0])
        return normalized(en, xyz(en, V[0]))
    if len(V) == 1 and isinstance(V[0], XNode):
        return normalized(en, [xdouble(en, V[0].id, c) for c in "xyz"])
    if len(V) == 3 and all(isinstance(v, FV) for v in V):
        return normalized(en, [v.r for v in V])
    # isotropic and deflected directions: execute the body
    return en.load(construct(en, "Direction", args))


GEOM = {"new Direction": new_direction}


def sorted_from_adjacent(en, f, n):
    """lemma: a sequence whose neighbours increase is increasing (induction on the distance)"""
    i, j = z3.Ints("_li _lj")
    adj = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n), f(i) < f(i + 1)), patterns=[f(i)])
    en.prove(adj, "neighbouring elements increase", "lemma")
    a, b = z3.Ints("la lb")
    en.prove(z3.Implies(z3.And(0 <= a, a < b, b + 1 < n, f(a) < f(b)), f(a) < f(b + 1)),
             "increase carries over to the next element (induction step)", "lemma", assume_after=False)
    en.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))


__all__ = [n for n in list(globals()) if not n.startswith("__")]


# ---- interface contracts: pure functions of the object's identity and their arguments
def oid(en, this):
    o = en.load(this)
    if o.ident is not None:
        return o.ident
    return en.ptr_to(this).id


def UF(name, *sorts):
    return z3.Function(name, *sorts)


def s_contains(i, p):
    return UF("CSGSurface.Contains", I, R, R, R, B)(i, *p)


def s_distance(i, p, d):
    """value of CSGSurface::Distance: a positive real or plus infinity"""
    s = [I] + [R] * 6
    return FV(UF("CSGSurface.Distance", *s, R)(i, *p, *d), False, UF("CSGSurface.Distance.inf", *s, B)(i, *p, *d), False)


def csg_contains(en, this, args):
    return s_contains(oid(en, this), xyz(en, args[0]))


def csg_distance(en, this, args):
    r = s_distance(oid(en, this), xyz(en, args[0]), xyz(en, args[1]))
    en.assume(z3.Or(tobool(r.pinf), r.r > 0))
    return r


SURF = {"CSGSurface::Contains": csg_contains, "CSGSurface::Distance": csg_distance}


def allidx(n, f, name="_i"):
    i = z3.Int(name)
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(i)))


__all__ = [n for n in list(globals()) if not n.startswith("__")]


# ---- ghost trace: contracts of callees with effects append what they were called on
def trace(en, name="trace"):
    l = LBox(Box(Seq.of([], {"k": "int", "bits": 64, "signed": True, "q": "long"}, "vector")))
    en.gset(name, l)
    return l


def note_call(en, *ids, name="trace"):
    from stdmodel import push_back
    for j, i in enumerate(ids):
        push_back(en, en.gget(name + str(j)) if len(ids) > 1 else en.gget(name), i)


def global_of(en, q):
    """location of a static variable"""
    for usr, g in en.prog.globals.items():
        if g.get("q") == q:
            key = ("global", usr)
            if key not in en.statics:
                en.statics[key] = LBox(Box(en.mk(en.tyof(g["tu"], g["type"]), "global " + q)))
            v = en.load(en.statics[key])
            if isinstance(v, FV) and g.get("const") and "fval" in g:      # its value is left open but for the sign
                c = float.fromhex(g["fval"])
                en.assume(v.r > 0 if c > 0 else v.r < 0 if c < 0 else v.r == 0)
            return en.statics[key]
    raise MissingFunction(q)


__all__ = [n for n in list(globals()) if not n.startswith("__")]
