"""Trusted models of the library functions minimc calls (std, pugixml, HDF5).
Each model is an assumed contract; the names used on a run are listed in the
evidence as trusted."""
import z3
from fractions import Fraction
from values import *
import engine as E
from engine import (LBox, LField, LElem, LMap, LTup, LOpt, LVar, Loc, _LEntry, leafs, mkstr, strcode, CppThrow,
                    PathEnd, _hasq, same_leafs, Ret)

SEQ = {"std::vector", "std::list", "std::array", "std::deque", "std::initializer_list"}
MAPS = {"std::map", "std::set", "std::unordered_map", "std::unordered_set"}
PTRS = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access",
        "std::__shared_ptr_access"}


class Stream:
    """input string stream: token sequence of a string and a read position"""
    __slots__ = ("s", "pos", "fail", "stamp")

    def __init__(self, s):
        self.s, self.pos, self.fail = s, z3.IntVal(0), False
        Obj._n += 1
        self.stamp = Obj._n


# ------------------------------------------------------------------ symbolic std values
def mk_std(en, ty, name, args):
    q = ty["q"]
    if q in SEQ:
        el = en.targ(ty, 0)
        if q == "std::array":
            n = z3.IntVal(int(ty["targs"][1]["int"]))
        else:
            n = mkint(en, name + ".size", args)
        cont = el["k"] == "rec" and el["q"] in PTRS

        def elem(i, nm=name + "[]"):
            v = en.mk(el, nm, args + [i])
            if cont:
                nonnull(en, nm, v)
            return v
        return Seq(n, elem, el, q[5:], (name, args))
    if q in MAPS:
        return mk_map(en, ty, name, args)
    if q in ("std::shared_ptr", "std::unique_ptr"):
        t = mkint(en, name, args)
        return Ptr(t, None, en.targ(ty, 0), True)
    if q in ("std::basic_string", "std::basic_string_view"):
        return Str(mkint(en, name, args))
    if q in ("std::pair", "std::tuple"):
        return Tup([en.mk(en.prog.types[ty["tu"]][a["type"]], f"{name}.{i}", args)
                    for i, a in enumerate(ty["targs"])], q[5:])
    if q == "std::optional":
        has = z3.Const(name + ".has", B) if not args else z3.Function(name + ".has", *[a.sort() for a in args], B)(*args)
        return Opt(has, en.mk(en.targ(ty, 0), name + ".value", args))
    if q == "std::variant":
        n = len(ty["targs"])
        idx = mkint(en, name + ".index", args, 0, n - 1)
        return Var(idx, [en.mk(en.prog.types[ty["tu"]][a["type"]], f"{name}.alt{i}", args)
                         for i, a in enumerate(ty["targs"])])
    if q in ("std::atomic", "std::__atomic_base"):
        # shared with other threads: every access observes an arbitrary value
        return Opaque("atomic", en.targ(ty, 0))
    if q == "pugi::xml_node":
        return XNode(mkint(en, name, args))
    if q == "pugi::xml_attribute":
        return XNode(mkint(en, name, args), "attr")
    if q == "std::linear_congruential_engine":
        return Opaque("rng", mkint(en, name, args))
    if q.startswith("std::filesystem") or q.startswith("H5::") or q.startswith("std::basic_"):
        return Opaque(q, (name, args))
    return None


def mkint(en, name, args, lo=0, hi=None):
    t = z3.Const(name, I) if not args else z3.Function(name, *[a.sort() for a in args], I)(*args)
    en.range_axiom(name, t, args, lo, hi)
    return t


def nonnull(en, nm, v):
    """containers hold non-null pointers (class invariant, see DESIGN)"""
    en.assumed.add("pointers stored in containers are not null")
    t = v.id
    if not z3.is_app(t) or t.num_args() == 0:
        return
    f = t.decl()
    key = ("nonnull", f.name())
    if key not in en.axkeys:
        vs = [z3.Const(f"_q{j}", f.domain(j)) for j in range(f.arity())]
        en.axiom(key, z3.ForAll(vs, f(*vs) >= 1, patterns=[f(*vs)]))


def key_sorted(kty):
    return kty["k"] in ("int", "float")


def from_leafs(en, ty, ls):
    """value of a scalar key type from one leaf"""
    k = ty["k"]
    if k == "float":
        return FV(ls[0])
    if k in ("int", "enum", "bool"):
        return ls[0]
    if k == "ptr":
        return Ptr(ls[0], None, en.prog.types[ty["tu"]][ty["to"]])
    if k == "rec" and ty["q"] in PTRS:
        return Ptr(ls[0], None, en.targ(ty, 0), True)
    if k == "rec" and ty["q"] == "std::basic_string":
        return Str(ls[0])
    raise Unsupported(f"map key type {ty['s']}")


def key_sort(ty):
    return R if ty["k"] == "float" else B if ty["k"] == "bool" else I


def mk_map(en, ty, name, args):
    kty = en.targ(ty, 0)
    isset = ty["q"].endswith("set")
    vty = kty if isset else en.targ(ty, 1)
    n = mkint(en, name + ".size", args)
    ks = key_sort(kty)
    sorts = [a.sort() for a in args]
    keyf = z3.Function(name + ".key", *sorts, I, ks)
    posf = z3.Function(name + ".pos", *sorts, ks, I)
    vs = [z3.Const(f"_q{j}", s) for j, s in enumerate(sorts)]
    i, j = z3.Ints("_i _j")
    nn = z3.Function(name + ".size", *sorts, I)(*vs) if args else n
    key = ("map", name)
    if key not in en.axkeys:
        en.axiom(key, z3.ForAll(vs + [i], z3.Implies(z3.And(i >= 0, i < nn), posf(*vs, keyf(*vs, i)) == i),
                                patterns=[keyf(*vs, i)]))
        if key_sorted(kty):
            en.axiom(("mapsort", name), z3.ForAll(
                vs + [i, j], z3.Implies(z3.And(0 <= i, i < j, j < nn), keyf(*vs, i) < keyf(*vs, j)),
                patterns=[z3.MultiPattern(keyf(*vs, i), keyf(*vs, j))]))
        if kty["k"] == "ptr" or (kty["k"] == "rec" and kty["q"] in PTRS):
            en.assumed.add("pointers stored in containers are not null")
            en.axiom(("mapnn", name), z3.ForAll(vs + [i], keyf(*vs, i) >= 1, patterns=[keyf(*vs, i)]))

    def kf(i):
        return from_leafs(en, kty, [keyf(*args, i)])

    def pf(k):
        return posf(*args, *leafs(k))

    def dom(k):
        p = pf(k)
        return z3.And(p >= 0, p < n, keyf(*args, p) == leafs(k)[0])

    ptrval = (not isset) and vty["k"] == "rec" and vty["q"] in PTRS

    def val(k):
        if isset:
            return k
        v = en.mk(vty, name + ".val", args + leafs(k))
        if ptrval:
            nonnull(en, name, v)
        return v
    return MapV(n, kf, pf, dom, val, kty, vty, "set" if isset else "map", (name, args))


def empty_map(en, ty):
    kty = en.targ(ty, 0)
    isset = ty["q"].endswith("set")

    def no(*_):
        raise Unsupported("entry of an empty map")
    return MapV(z3.IntVal(0), no, lambda k: z3.IntVal(-1), lambda k: False, no, kty,
                kty if isset else en.targ(ty, 1), "set" if isset else "map")


def map_insert(en, m, k, v, overwrite=False):
    """map after emplace(k, v): present keys keep their value unless overwrite"""
    had = m.dom(k)
    had = _fold(z3.simplify(had)) if z3.is_expr(had) else had
    kl = leafs(k)
    old = en.copy(m)

    def dom(x):
        return b_or(same_leafs(leafs(x), kl), old.dom(x))

    def val(x):
        is_k = same_leafs(leafs(x), kl)
        nv = v
        if not overwrite and had is not False:
            try:
                ov = old.val(k)
                nv = v_ite(had, ov, v)
            except Unsupported:
                nv = v
        if is_k is True:
            return nv
        if is_k is False:
            return old.val(x)
        if const_of(z3.simplify(old.n)) == 0:
            return nv
        return v_ite(is_k, nv, old.val(x))
    val.upd = ("assign" if overwrite else "emplace", (old.val, old.dom), k, v)
    n = old.n + 1 if had is False else z3.simplify(z3.If(tobool(had), old.n, old.n + 1))
    n = z3.simplify(n)
    key, pos = reenumerate(en, n, dom, m.kty)
    if const_of(n) == 1 and had is False:
        key, pos = (lambda i: k), (lambda x: z3.If(tobool(dom(x)), z3.IntVal(0), z3.IntVal(-1)))
    return MapV(n, key, pos, dom, val, m.kty, m.vty, m.kind)


ENUMS = {}         # key function of an enumeration -> its position function


def reenumerate(en, n, dom, kty):
    """a fresh enumeration of the domain (iteration order of the new container)"""
    ks = key_sort(kty)
    kf = en.fresh_fn("mkey", I, ks)
    pf = en.fresh_fn("mpos", ks, I)
    ENUMS[kf.name()] = pf
    i, j = z3.Ints("_i _j")
    x = z3.Const("_x", ks)
    d = lambda t: tobool(dom(from_leafs(en, kty, [t])))
    en.axiom(("menum", kf.name()), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(d(kf(i)), pf(kf(i)) == i)),
                                             patterns=[kf(i)]))
    en.axiom(("mposx", pf.name()), z3.ForAll([x], z3.Implies(d(x), z3.And(0 <= pf(x), pf(x) < n, kf(pf(x)) == x)),
                                             patterns=[pf(x)]))
    if key_sorted(kty):
        en.axiom(("msort", kf.name()), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), kf(i) < kf(j)),
                                                 patterns=[z3.MultiPattern(kf(i), kf(j))]))
    return (lambda i: from_leafs(en, kty, [kf(i)])), (lambda k: pf(*leafs(k)))


def default_std(en, ty):
    q = ty["q"]
    if q == "std::array":
        el = en.targ(ty, 0)
        n = int(ty["targs"][1]["int"])
        try:
            return Seq.of([en.zero(el) for _ in range(n)], el, "array")
        except Unsupported:
            return Seq.of([None] * n, el, "array")
    if q in SEQ:
        return Seq.of([], en.targ(ty, 0), q[5:])
    if q in MAPS:
        return empty_map(en, ty)
    if q in ("std::shared_ptr", "std::unique_ptr"):
        return Ptr(0, None, en.targ(ty, 0), True)
    if q == "std::basic_string":
        return mkstr("")
    if q == "std::optional":
        return Opt(False, None)
    if q in ("std::pair", "std::tuple"):
        return Tup([en.zero(en.prog.types[ty["tu"]][a["type"]]) for a in ty["targs"]], q[5:])
    if q == "std::variant":
        vs = []
        for a in ty["targs"]:
            vs.append(en.zero(en.prog.types[ty["tu"]][a["type"]]))
        return Var(z3.IntVal(0), vs)
    if q in ("std::atomic",):
        return en.zero(en.targ(ty, 0))
    if q == "pugi::xml_node":
        return XNode(z3.IntVal(0))
    if q == "std::basic_stringstream" or q == "std::basic_istringstream":
        return Stream(mkstr("").t)
    if q in DISTS:
        return Dist(DISTS[q], {"uniform": [FV(0), FV(1)], "exponential": [FV(1)], "bernoulli": [FV(Fraction(1, 2))],
                               "normal": [FV(0), FV(1)]}.get(DISTS[q], []))
    if q == "std::linear_congruential_engine":
        return Opaque("rng", z3.IntVal(1))
    if q.startswith(("std::", "pugi::", "H5::", "xercesc")):
        return Opaque(q)
    return None


DISTS = {"std::uniform_real_distribution": "uniform", "std::exponential_distribution": "exponential",
         "std::bernoulli_distribution": "bernoulli", "std::normal_distribution": "normal",
         "std::uniform_int_distribution": "uniform_int", "std::discrete_distribution": "discrete"}


def moved_from(en, loc, v):
    """leave a moved-from library object in its usual empty state"""
    try:
        if isinstance(v, Seq) and v.kind in ("vector", "list"):
            en.store(loc, Seq.of([], v.elty, v.kind))
        elif isinstance(v, Ptr) and v.smart:
            en.store(loc, Ptr(0, None, v.to, True))
    except Unsupported:
        pass


# ------------------------------------------------------------------ iteration
def iteration(en, r):
    """(n(), at(i)) of a range location"""
    v = en.load(r)
    if isinstance(v, Seq):
        return (lambda: en.load(r).n), (lambda i: LElem(r, i))
    if isinstance(v, MapV):
        return (lambda: en.load(r).n), (lambda i: en.map_entry(r, i))
    if isinstance(v, XNode):
        return (lambda: xkids(en, v.id)), (lambda i: LBox(Box(XNode(xkid(en, v.id, i)), "xml child")))
    if isinstance(v, Opt):
        raise Unsupported("iteration over optional")
    if isinstance(v, Obj):
        # a class with begin()/end() returning iterators
        f = None
        for m in v.rec["methods"]:
            if m["name"] == "begin":
                f = en.prog.funcs.get(m["usr"])
        if f:
            it = en.load(en.call(f, r, []))
            if isinstance(it, Iter):
                n, at = iteration(en, it.c)
                return n, at
    raise Unsupported(f"iteration over {type(v).__name__}")


# ---- XML
def xfn(name, *sorts):
    return z3.Function(name, *sorts)


def xkids(en, n):
    f = xfn("xml_nkids", I, I)
    q = z3.Int("_q0")
    en.axiom(("xml_nkids",), z3.ForAll([q], z3.And(f(q) >= 0, z3.Implies(q == 0, f(q) == 0)), patterns=[f(q)]))
    return f(n)


def xkid(en, n, i):
    f = xfn("xml_kid", I, I, I)
    a, b = z3.Ints("_q0 _q1")
    en.axiom(("xml_kid",), z3.ForAll([a, b], f(a, b) >= 1, patterns=[f(a, b)]))
    return f(n, i)


def xchild(en, n, s, fn="xml_child"):
    f = xfn(fn, I, I, I)
    a, b = z3.Ints("_q0 _q1")
    en.axiom((fn,), z3.ForAll([a, b], z3.And(f(a, b) >= 0, z3.Implies(a == 0, f(a, b) == 0)), patterns=[f(a, b)]))
    return f(n, s)


def xdbl(en, a):
    return FV(z3.If(a == 0, z3.RealVal(0), xfn("xml_dbl", I, R)(a)))


def xstr(en, a):
    f = xfn("xml_str", I, I)
    return Str(z3.If(a == 0, z3.IntVal(0), f(a)))


def xint(en, a, nm="xml_uint"):
    f = xfn(nm, I, I)
    q = z3.Int("_q0")
    en.axiom((nm,), z3.ForAll([q], f(q) >= 0, patterns=[f(q)]))
    return z3.If(a == 0, z3.IntVal(0), f(a))


def xml_find(en, n, attr, val):
    """first child whose attribute `attr` exists and equals val, else null"""
    i = en.fresh("xfind", I)
    if z3.is_app_of(n, z3.Z3_OP_ITE):
        n0, n = n, en.fresh("xnode", I)
        en.assume(n == n0)
    cnt = xkids(en, n)
    P = lambda j: z3.And(xchild(en, xkid(en, n, j), attr, "xml_attr") != 0,
                         xfn("xml_str", I, I)(xchild(en, xkid(en, n, j), attr, "xml_attr")) == val)
    j = z3.Int("_j")
    en.assume(z3.And(0 <= i, i <= cnt))
    en.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(P(j))), patterns=[xkid(en, n, j)]))
    en.assume(z3.Implies(i < cnt, P(i)))
    en.gset("xml_find", en.gget("xml_find", ()) + ((n, attr, val, i),))
    return XNode(z3.If(i < cnt, xkid(en, n, i), z3.IntVal(0)))


def xml_method(en, v, name, args):
    en.models.add("pugixml: nodes and attributes are an immutable tree")
    A = [en.load(a) for a in args]
    n = v.id
    if v.kind == "attr":
        if A and name != "operator!":
            if name == "as_double" or name == "as_float":
                return FV(z3.If(n == 0, A[0].r, xfn("xml_dbl", I, R)(n)))
            if name in ("as_uint", "as_ullong", "as_int", "as_llong"):
                return z3.If(n == 0, A[0] if z3.is_expr(A[0]) else z3.IntVal(A[0]), xint(en, n))
            if name in ("as_string", "value"):
                return Str(z3.If(n == 0, A[0].t, xfn("xml_str", I, I)(n)))
        if name == "as_double" or name == "as_float": return xdbl(en, n)
        if name == "as_string" or name == "value": return xstr(en, n)
        if name in ("as_uint", "as_ullong", "as_int", "as_llong"): return xint(en, n)
        if name == "as_bool": return z3.And(n != 0, xfn("xml_bool", I, B)(n))
        if name == "empty" or name == "operator!": return n == 0
        if name == "operator_conv": return n != 0
        if name == "name": return Str(xfn("xml_attrname", I, I)(n))
    else:
        if name == "child": return XNode(xchild(en, n, A[0].t))
        if name == "attribute": return XNode(xchild(en, n, A[0].t, "xml_attr"), "attr")
        if name == "first_child":
            return XNode(z3.If(xkids(en, n) > 0, xkid(en, n, z3.IntVal(0)), z3.IntVal(0)))
        if name == "name":
            return Str(z3.If(n == 0, z3.IntVal(0), xfn("xml_name", I, I)(n)))
        if name == "child_value" or name == "text" or name == "value":
            return Str(z3.If(n == 0, z3.IntVal(0), xfn("xml_text", I, I)(n)))
        if name in ("parent", "root"):
            return XNode(xfn("xml_" + name, I, I)(n))
        if name == "path": return Str(xfn("xml_path", I, I)(n))
        if name == "find_child_by_attribute" and len(A) == 2: return xml_find(en, n, A[0].t, A[1].t)
        if name == "operator_conv": return n != 0
        if name in ("operator!", "empty"): return n == 0
        if name == "begin": return Iter(LBox(Box(v)), z3.IntVal(0))
        if name == "end": return Iter(LBox(Box(v)), xkids(en, n))
        if name == "children": return v
        if name == "select_node": return Opaque("xpath", (n, A[0]))
    raise Unsupported(f"pugixml {v.kind}::{name}")


# ------------------------------------------------------------------ quantified evaluation
def summarise(en, thunk):
    """value of a side-effect-free computation, merged over its paths"""
    res = []
    stamp0 = Obj._n
    mark0 = len(en.trail)
    npc = len(en.pc)
    throws = []

    def done(out):
        kind, v = out
        if kind == "end":
            return
        for o, slot, old in en.trail[mark0:]:
            if getattr(o, "stamp", 10 ** 18) <= stamp0 and not isinstance(o, E._SymSlot):
                raise Unsupported("side effect in a quantified computation")
        c = [x for x in en.pc[npc:]]
        if kind == "throw":
            if en.check_valid(z3.BoolVal(False), 10000)[0] != "proved":
                throws.append(c)
            return
        v = en.load(v) if isinstance(v, Loc) else v
        res.append((b_and(*c), v))
    en.explore(thunk, done)
    if throws:
        raise Unsupported("exception in a quantified computation")
    if not res:
        raise PathEnd("no path through a summarised computation")
    val = res[-1][1]
    for c, v in reversed(res[:-1]):
        val = v_ite(c, v, val)
    return val


def pred_at(en, f, i, lo, hi):
    """Bool term: predicate f at index i, evaluated assuming lo <= i < hi"""
    def th():
        en.assume(z3.And(i >= lo, i < hi))
        return en.truth(en.load(f(i)))
    nf = len(en.freshlog)
    v = summarise(en, th)
    return v, en.freshlog[nf:]


def forall(en, f, lo, hi, neg=False):
    """(forall i in [lo,hi): f(i))"""
    clo, chi = const_of(z3.simplify(lo)), const_of(z3.simplify(hi))
    if clo is not None and chi is not None:
        ps = []
        for i in range(clo, chi):
            p, _ = pred_at(en, f, z3.IntVal(i), lo, hi)
            ps.append(b_not(p) if neg else p)
        return b_and(*ps)
    j = en.fresh("qi", I)
    p, fr = pred_at(en, f, j, lo, hi)
    p = tobool(b_not(p) if neg else p)
    bad = set(x.decl().name() for x in fr) - {j.decl().name()}
    if bad & E.symbols(p):
        raise Unsupported("fresh value under a quantifier")
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), p))


def rng_bounds(en, first, last):
    if not (isinstance(first, Iter) and isinstance(last, Iter)):
        raise Unsupported("algorithm over something that is not an iterator range")
    return first.c, first.i, last.i


def rev_iter(en, a, b):
    """(at, n) for a possibly reversed range"""
    cl = a.c
    _, at = iteration(en, cl)
    if a.rev:
        # index i of a reverse iterator refers to element i-1
        n = z3.simplify(a.i - b.i)
        return (lambda k: at(z3.simplify(a.i - 1 - k))), n
    n = z3.simplify(b.i - a.i)
    return (lambda k: at(z3.simplify(a.i + k))), n


def pyloop(en, n, body, acc=None):
    """reference loop of a library algorithm: body(k) for k in [0, n)"""
    idx = Box(z3.IntVal(0), "alg-index")

    def c():
        return _fold(z3.simplify(idx.v < n))

    def b():
        body(idx.v)
        en.setslot(idx, "v", z3.simplify(idx.v + 1))
    en.loop(c, b, {"k": "alg", "acc": acc})


def algorithm(en, name, A):
    L = en.load
    V = [L(a) for a in A]
    if name in ("all_of", "any_of", "none_of"):
        cl, lo, hi = rng_bounds(en, V[0], V[1])
        at, n = rev_iter(en, V[0], V[1])
        f = lambda i: en.apply(V[2], [at(i)])
        neg = name != "all_of"
        q = forall(en, f, z3.IntVal(0), n, neg)
        if is_c(q) or not _hasq(q):
            return b_not(q) if name == "any_of" else q
        b = en.fresh("alg_" + name, B)
        w = en.fresh("w", I)
        holds = z3.Not(b) if name == "any_of" else b
        en.assume(z3.Implies(holds, q))
        p, _ = pred_at(en, f, w, z3.IntVal(0), n)
        p = tobool(p) if neg else z3.Not(tobool(p))
        en.assume(z3.Implies(z3.Not(holds), z3.And(0 <= w, w < n, p)))
        return b
    if name in ("find_if", "find", "find_if_not"):
        at, n = rev_iter(en, V[0], V[1])
        if name == "find":
            f = lambda i: equal(en, L(at(i)), V[2])
        else:
            f = lambda i: en.apply(V[2], [at(i)])
        neg = name == "find_if_not"
        cn = const_of(z3.simplify(n))
        if cn is not None:
            for k in range(cn):
                c = en.truth(L(f(z3.IntVal(k))))
                if en.branch(b_not(c) if neg else c):
                    return Iter(V[0].c, z3.simplify(V[0].i + k), V[0].rev)
            return V[1]
        r = en.fresh("found", I)
        en.assume(z3.And(0 <= r, r <= n))
        en.assume(forall(en, f, z3.IntVal(0), r, not neg))
        p, _ = pred_at(en, f, r, z3.IntVal(0), n)
        en.assume(z3.Implies(r < n, tobool(b_not(p) if neg else p)))
        return Iter(V[0].c, z3.simplify(V[0].i + r), V[0].rev)
    if name in ("min_element", "max_element"):
        at, n = rev_iter(en, V[0], V[1])

        def less(i, j):
            if len(A) > 2:
                return en.truth(L(en.apply(V[2], [at(i), at(j)])))
            return compare(en, "<", L(at(i)), L(at(j)))
        r = en.fresh("minel", I)
        en.assume(z3.And(0 <= r, r <= n, (r == n) == (n == 0)))
        mx = name == "max_element"

        def nomore(j):
            return b_not(less(r, j) if mx else less(j, r))

        def strict(j):
            return less(j, r) if mx else less(r, j)
        if en.branch(n == 0):
            return V[1]
        # assume r in range for the element predicates
        en.assume(z3.And(0 <= r, r < n))
        en.assume(forall(en, nomore, z3.IntVal(0), n))
        en.assume(forall(en, strict, z3.IntVal(0), r))
        return Iter(V[0].c, z3.simplify(V[0].i + r), V[0].rev)
    if name in ("upper_bound", "lower_bound"):
        at, n = rev_iter(en, V[0], V[1])
        val = V[2]

        def before(i):    # element i lies before the bound
            e = at(i)
            if name == "upper_bound":
                c = en.truth(L(en.apply(V[3], [A[2], e]))) if len(A) > 3 else compare(en, "<", val, L(e))
                return b_not(c)
            return en.truth(L(en.apply(V[3], [e, A[2]]))) if len(A) > 3 else compare(en, "<", L(e), val)
        # the range must be partitioned with respect to the value
        i, j = en.fresh("pi", I), en.fresh("pj", I)
        pi, _ = pred_at(en, before, i, z3.IntVal(0), n)
        pj, _ = pred_at(en, before, j, z3.IntVal(0), n)
        en.prove(z3.Implies(z3.And(0 <= i, i < j, j < n, tobool(pj)), tobool(pi)),
                 f"std::{name}: range partitioned", "safety", assume_after=False)
        r = en.fresh(name, I)
        en.assume(z3.And(0 <= r, r <= n))
        en.assume(forall(en, before, z3.IntVal(0), r))
        en.assume(forall(en, before, r, n, True))
        # ground instances next to the bound
        for k in (r - 1, r):
            p, _ = pred_at(en, before, k, z3.IntVal(0), n)
            en.assume(z3.Implies(z3.And(0 <= k, k < n), tobool(p) == (k < r)))
        return Iter(V[0].c, z3.simplify(V[0].i + r), V[0].rev)
    if name == "accumulate":
        at, n = rev_iter(en, V[0], V[1])
        acc = Box(en.copy(V[2]), "accumulated")

        def body(k):
            e = at(k)
            if len(A) > 3:
                v = L(en.apply(A[3], [LBox(acc), e]))
            else:
                v = plus(en, acc.v, L(e))
            if isinstance(acc.v, Seq) and isinstance(v, Seq):
                en.store(LBox(acc), v)
            else:
                en.setslot(acc, "v", v)
        if isinstance(acc.v, Str):
            return Str(en.fresh("msg", I))
        pyloop(en, n, body, acc)
        return acc.v
    if name == "for_each":
        at, n = rev_iter(en, V[0], V[1])
        pyloop(en, n, lambda k: en.apply(A[2], [at(k)]))
        return V[2]
    if name == "count_if" or name == "count":
        at, n = rev_iter(en, V[0], V[1])
        acc = Box(z3.IntVal(0), "count")

        def body(k):
            c = en.truth(L(en.apply(A[2], [at(k)]))) if name == "count_if" else equal(en, L(at(k)), V[2])
            if en.branch(c):
                en.setslot(acc, "v", z3.simplify(acc.v + 1))
        pyloop(en, n, body)
        return acc.v
    if name == "transform" or name == "copy":
        at, n = rev_iter(en, V[0], V[1])
        two = name == "transform" and len(A) == 5
        out = V[3] if two else V[2]
        if two:
            _, at2 = iteration(en, V[2].c)

        def body(k):
            e = at(k)
            if name == "copy":
                v = L(e)
            elif two:
                v = L(en.apply(A[4], [e, at2(z3.simplify(V[2].i + k))]))
            else:
                v = L(en.apply(A[3], [e]))
            put(en, out, k, v)
        pyloop(en, n, body)
        return out
    if name == "partial_sum":
        at, n = rev_iter(en, V[0], V[1])
        out = V[2]
        acc = Box(None, "partial")

        def body(k):
            v = L(at(k))
            if acc.v is None:
                nv = v
            elif len(A) > 3:
                nv = L(en.apply(A[3], [LBox(acc), LBox(Box(v))]))
            else:
                nv = plus(en, acc.v, v)
            en.setslot(acc, "v", nv)
            put(en, out, k, nv)
        if const_of(z3.simplify(n)) is None:
            raise Unsupported("partial_sum over a symbolic range")
        pyloop(en, n, body)
        return out
    raise Unsupported(f"std::{name}")


def put(en, out, k, v):
    if isinstance(out, Iter):
        c = en.load(out.c)
        if out.rev:
            i = z3.simplify(out.i - 1 - k)
        else:
            i = z3.simplify(out.i + k)
        en.prove(b_and(i >= 0, i < c.n), "output iterator in range", "safety")
        en.store(LElem(out.c, i), v)
    elif isinstance(out, Opaque) and out.kind == "back_inserter":
        push_back(en, out.data, v)
    else:
        raise Unsupported("output iterator")


def push_back(en, l, v):
    s = en.load(l)
    n = z3.simplify(s.n)
    items = getattr(s.elem, "items", None)
    if const_of(n) is not None and items is not None and const_of(n) == len(items):
        en.store(l, Seq.of(items + [en.copy(v)], s.elty, s.kind))
    else:
        en.store(l, Seq(z3.simplify(n + 1), E.upd(s.elem, n, en.copy(v)), s.elty, s.kind))


# ------------------------------------------------------------------ scalar helpers
def equal(en, a, b):
    if isinstance(a, Str) and isinstance(b, Str):
        return _fold(z3.simplify(a.t == b.t))
    if isinstance(a, FV) and isinstance(b, FV):
        return f_eq(a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return _fold(z3.simplify(a.id == b.id))
    if isinstance(a, XNode) and isinstance(b, XNode):
        return _fold(z3.simplify(a.id == b.id))
    if isinstance(a, Iter) and isinstance(b, Iter):
        return _fold(z3.simplify(a.i == b.i))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return b_and(*[equal(en, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Var) and isinstance(b, Var):
        return b_and(a.idx == b.idx, *[z3.Implies(a.idx == i, tobool(equal(en, x, y)))
                                       for i, (x, y) in enumerate(zip(a.alts, b.alts))])
    if isinstance(a, bool) or isinstance(b, bool):
        return _fold(z3.simplify(tobool(a) == tobool(b)))
    if z3.is_expr(a) and z3.is_expr(b):
        return _fold(z3.simplify(a == b))
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


def compare(en, op, a, b):
    if op == "==":
        return equal(en, a, b)
    if op == "!=":
        return b_not(equal(en, a, b))
    if op == ">":
        return compare(en, "<", b, a)
    if op == ">=":
        return compare(en, "<=", b, a)
    if isinstance(a, FV) and isinstance(b, FV):
        return f_lt(a, b) if op == "<" else f_le(a, b)
    if z3.is_expr(a) and z3.is_expr(b):
        return _fold(z3.simplify(a < b if op == "<" else a <= b))
    if isinstance(a, Iter) and isinstance(b, Iter):
        return _fold(z3.simplify(a.i < b.i if op == "<" else a.i <= b.i))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return _fold(z3.simplify(a.id < b.id if op == "<" else a.id <= b.id))
    raise Unsupported(f"comparison of {type(a).__name__}")


def plus(en, a, b):
    if isinstance(a, FV):
        return f_add(a, b if isinstance(b, FV) else FV(z3.ToReal(b)))
    return z3.simplify(a + b)


def functor(en, kind, A):
    V = [en.load(a) for a in A]
    if kind == "std::multiplies":
        return f_mul(*V) if isinstance(V[0], FV) else z3.simplify(V[0] * V[1])
    if kind == "std::plus":
        return plus(en, *V)
    if kind == "std::minus":
        return f_sub(*V) if isinstance(V[0], FV) else en.wrap(V[0] - V[1], {"k": "int", "signed": False, "bits": 64})
    if kind == "std::less":
        return compare(en, "<", *V)
    if kind == "std::greater":
        return compare(en, ">", *V)
    raise Unsupported(kind)


# ------------------------------------------------------------------ math
def mfun(name, *sorts):
    return z3.Function("m_" + name, *sorts)


EST = {}


def same_argument(en, r):
    """equal function values are written in the same way: an argument seen before if it is the same rational function"""
    import algebra
    if const_of(r) is not None:
        return r
    k = algebra.estimate(r, EST)
    for h, q in en.roots:
        if z3.eq(q, r):
            return q
    for h, q in en.roots:
        if abs(h - k) <= 1e-9 * (abs(h) + abs(k)) and algebra.same(en, q, r):
            return q
    en.roots.append((k, r))
    return r


def sqrt_(en, v):
    if v.pinf is not False or v.ninf is not False or v.nan is not False:
        if en.valid_quick(v.fin):
            v = FV(v.r)
        else:
            s = sqrt_(en, FV(z3.If(tobool(v.fin), v.r, z3.RealVal(0))))
            return FV(s.r, b_or(v.nan, v.ninf, b_and(v.fin, s.nan)), v.pinf, False)
    c = const_of(z3.simplify(v.r))
    if c is not None and c >= 0:
        import math
        c = Fraction(c)
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if Fraction(n, d) ** 2 == c:
            return FV(num(Fraction(n, d)))
    s = mfun("sqrt", R, R)(same_argument(en, v.r))
    if (c is not None and c >= 0) or en.valid_quick(v.r >= 0):
        en.assume(s >= 0)
        en.assume(s * s == v.r)
        return FV(s)
    en.assume(z3.Implies(v.r >= 0, z3.And(s >= 0, s * s == v.r)))
    return FV(s, v.r < 0)


def exp_(en, v):
    if not v.finite:
        if not en.valid_quick(v.fin):
            raise Unsupported("exp of a special value")
    v = FV(same_argument(en, v.r))
    e = mfun("exp", R, R)
    x, y = z3.Reals("_x _y")
    en.axiom(("exp",), z3.ForAll([x], z3.And(e(x) > 0, z3.Implies(x <= 0, e(x) <= 1), z3.Implies(x >= 0, e(x) >= 1),
                                             e(x) >= 1 + x), patterns=[e(x)]))
    en.axiom(("expm",), z3.ForAll([x, y], z3.Implies(x < y, e(x) < e(y)), patterns=[z3.MultiPattern(e(x), e(y))]))
    en.axiom(("explog",), z3.ForAll([x], mfun("log", R, R)(e(x)) == x, patterns=[e(x)]))
    en.models.add("exp: positive, increasing, inverse of log")
    return FV(e(v.r))


def log_(en, v):
    if not v.finite and not en.valid_quick(v.fin):
        raise Unsupported("log of a special value")
    f = mfun("log", R, R)
    x, y = z3.Reals("_x _y")
    en.axiom(("log",), z3.ForAll([x, y], z3.Implies(z3.And(0 < x, x < y), f(x) < f(y)),
                                 patterns=[z3.MultiPattern(f(x), f(y))]))
    en.axiom(("logexp",), z3.ForAll([x], z3.Implies(x > 0, mfun("exp", R, R)(f(x)) == x), patterns=[f(x)]))
    en.axiom(("log1",), f(z3.RealVal(1)) == 0)
    en.models.add("log: increasing on positive reals, nan below zero, -inf at zero")
    z = _fold(z3.simplify(v.r == 0))
    ng = _fold(z3.simplify(v.r < 0))
    if not is_c(z) and en.valid_quick(v.r > 0):
        z = ng = False
    c = const_of(z3.simplify(v.r))
    if c == 1:
        return FV(0)
    if z is False and en.valid_quick(v.r < 1):
        en.assume(f(v.r) < 0)
    return FV(f(v.r), ng, False, z)


def erf_(en, v):
    f = mfun("erf", R, R)
    x, y = z3.Reals("_x _y")
    en.axiom(("erf",), z3.ForAll([x], z3.And(f(x) > -1, f(x) < 1, z3.Implies(x >= 0, f(x) >= 0),
                                             z3.Implies(x <= 0, f(x) <= 0)), patterns=[f(x)]))
    en.axiom(("erfm",), z3.ForAll([x, y], z3.Implies(x < y, f(x) < f(y)), patterns=[z3.MultiPattern(f(x), f(y))]))
    en.models.add("erf: increasing, odd sign, in (-1, 1)")
    if not v.finite:
        return FV(z3.If(tobool(v.fin), f(v.r), z3.If(tobool(v.pinf), z3.RealVal(1), z3.RealVal(-1))), v.nan)
    return FV(f(v.r))


def trig(en, nm, v):
    if not v.finite and not en.valid_quick(v.fin):
        raise Unsupported("trigonometry of a special value")
    c, s = mfun("cos", R, R), mfun("sin", R, R)
    v = FV(same_argument(en, v.r))
    x = z3.Real("_x")
    en.axiom(("trig-c",), z3.ForAll([x], c(x) * c(x) + s(x) * s(x) == 1, patterns=[c(x)]))
    en.axiom(("trig-s",), z3.ForAll([x], c(x) * c(x) + s(x) * s(x) == 1, patterns=[s(x)]))
    en.assume(c(v.r) * c(v.r) + s(v.r) * s(v.r) == 1)
    en.models.add("sin/cos: sin^2 + cos^2 = 1")
    return FV((c if nm == "cos" else s)(v.r))


def math(en, name, V):
    V = [v if isinstance(v, FV) else FV(z3.ToReal(v)) if z3.is_expr(v) and v.sort() == I else v for v in V]
    if name == "sqrt": return sqrt_(en, V[0])
    if name == "exp": return exp_(en, V[0])
    if name == "log": return log_(en, V[0])
    if name == "erf": return erf_(en, V[0])
    if name in ("cos", "sin"): return trig(en, name, V[0])
    if name in ("abs", "fabs"):
        v = V[0]
        return FV(z3.If(v.r >= 0, v.r, -v.r), v.nan, b_or(v.pinf, v.ninf), False)
    if name == "pow":
        c = const_of(z3.simplify(V[1].r)) if V[1].finite else None
        if c is not None and c == int(c) and 0 <= c <= 8:
            r = FV(1)
            for _ in range(int(c)):
                r = f_mul(r, V[0])
            return r
        if c == Fraction(1, 2):
            return sqrt_(en, V[0])
        en.models.add("pow: uninterpreted apart from small integer exponents; positive for positive base")
        p = mfun("pow", R, R, R)
        x, y = z3.Reals("_x _y")
        en.axiom(("pow",), z3.ForAll([x, y], z3.Implies(x > 0, p(x, y) > 0), patterns=[p(x, y)]))
        return FV(p(V[0].r, V[1].r))
    if name == "floor":
        if not V[0].finite and not en.valid_quick(V[0].fin):
            raise Unsupported("floor of a special value")
        return FV(z3.ToReal(z3.ToInt(V[0].r)))
    if name == "ceil":
        return FV(z3.ToReal(-z3.ToInt(-V[0].r)))
    if name == "trunc":
        r = V[0].r
        return FV(z3.ToReal(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))))
    if name == "hypot":
        return sqrt_(en, f_add(f_mul(V[0], V[0]), f_mul(V[1], V[1])))
    if name == "isnan": return V[0].nan
    if name == "isinf": return b_or(V[0].pinf, V[0].ninf)
    if name == "isfinite": return V[0].fin
    if name == "fma": return f_add(f_mul(V[0], V[1]), V[2])
    raise Unsupported(f"math function {name}")


MATH = {"sqrt", "exp", "log", "erf", "cos", "sin", "abs", "fabs", "pow", "floor", "ceil", "trunc", "hypot", "isnan",
        "isinf", "isfinite", "fma"}
ALGS = {"all_of", "any_of", "none_of", "find_if", "find", "find_if_not", "min_element", "max_element", "upper_bound",
        "lower_bound", "accumulate", "for_each", "count_if", "count", "transform", "copy", "partial_sum"}


# ------------------------------------------------------------------ calls
def call(en, callee, this, args, e):
    q, name = callee["q"], callee["name"]
    if name in MATH and (q == name or q == "std::" + name):
        V = [en.load(a) for a in args]
        if name == "abs" and z3.is_expr(V[0]) and V[0].sort() == I:
            return z3.If(V[0] >= 0, V[0], -V[0])
        en.models.add("std::" + name)
        return math(en, name, V)
    if q == "std::" + name and name in ALGS:
        en.models.add("std::" + name)
        return algorithm(en, name, args)
    if name in ("move", "forward", "as_const", "ref", "cref") and q.startswith("std::"):
        if name == "move" and len(args) == 1:
            return args[0]
        return args[0]
    if name in ("make_unique", "make_shared") and q.startswith("std::"):
        ty = en.prog.types[en.fr["f"].tu][callee["targs"][0]["type"]]
        return make(en, ty, args)
    if name == "make_tuple" or name == "make_pair" or name == "tie":
        if name == "tie":
            raise Unsupported("std::tie")
        return Tup([en.copy(en.load(a)) for a in args], "tuple" if name == "make_tuple" else "pair")
    if name == "make_optional":
        ty = en.prog.types[en.fr["f"].tu][callee["targs"][0]["type"]] if callee.get("targs") else None
        v = en.load(args[0]) if args else None
        if ty is not None and ty["k"] == "rec" and en.prog.record_of(ty) is not None and not (isinstance(v, Obj) and v.rec["q"] == ty["q"]):
            return Opt(True, make_elem(en, ty, args))
        return Opt(True, en.copy(v))
    if name == "get" and q == "std::get":
        return std_get(en, callee, args[0])
    if name == "get_if":
        raise Unsupported("std::get_if")
    if name == "holds_alternative":
        v = en.load(args[0])
        return _fold(z3.simplify(v.idx == alt_index(en, callee, args[0])))
    if name == "visit":
        v = en.load(args[1])
        if isinstance(v, Var):
            for i in range(len(v.alts)):
                if i == len(v.alts) - 1 or en.branch(v.idx == i):
                    return en.apply(args[0], [LVar(args[1], i)])
        raise Unsupported("std::visit")
    if name in ("begin", "cbegin", "end", "cend", "size", "empty", "rbegin", "rend", "crbegin", "crend") and q.startswith("std::"):
        return seq_method(en, name, args[0], [], None)
    if name in ("next", "prev", "advance"):
        it = en.load(args[0])
        d = en.load(args[1]) if len(args) > 1 else z3.IntVal(1)
        if name == "prev":
            d = -d
        if it.rev:
            d = -d
        r = Iter(it.c, z3.simplify(it.i + d), it.rev)
        if name == "advance":
            en.store(args[0], r)
            return None
        return r
    if name == "distance":
        a, b = en.load(args[0]), en.load(args[1])
        return z3.simplify(b.i - a.i) if not a.rev else z3.simplify(a.i - b.i)
    if name in ("min", "max") and len(args) == 2:
        a, b = en.load(args[0]), en.load(args[1])
        c = compare(en, "<", b, a) if name == "min" else compare(en, "<", a, b)
        return LBox(Box(v_ite(c, b, a)))
    if name == "clamp" and len(args) == 3:
        v, lo, hi = [en.load(a) for a in args]
        return LBox(Box(v_ite(compare(en, "<", v, lo), lo, v_ite(compare(en, "<", hi, v), hi, v))))
    if name == "swap" and len(args) == 2:
        a, b = en.copy(en.load(args[0])), en.copy(en.load(args[1]))
        en.store(args[0], b)
        en.store(args[1], a)
        return None
    if name == "exchange":
        a = en.copy(en.load(args[0]))
        en.store(args[0], en.copy(en.load(args[1])))
        return a
    if name == "infinity": return INF()
    if name in ("quiet_NaN", "signaling_NaN"): return NAN()
    if name == "epsilon": return FV(Fraction(1, 1 << 52))
    if name == "max" and "numeric_limits" in q:
        t = en.prog.types[en.fr["f"].tu][callee["ret"]]
        if t["k"] == "float": return FV(Fraction(1.7976931348623157e308))
        return z3.IntVal((1 << t["bits"] - (1 if t["signed"] else 0)) - 1)
    if name == "lowest" and "numeric_limits" in q: return FV(Fraction(-1.7976931348623157e308))
    if name == "min" and "numeric_limits" in q:
        t = en.prog.types[en.fr["f"].tu][callee["ret"]]
        if t["k"] == "float": return FV(Fraction(2.2250738585072014e-308))
        return z3.IntVal(0 if not t["signed"] else -(1 << t["bits"] - 1))
    if name == "to_string":
        c = const_of(z3.simplify(en.load(args[0]))) if z3.is_expr(en.load(args[0])) else None
        if isinstance(c, int):
            return mkstr(str(c))
        return Str(en.fresh("str", I))
    if name in ("stod", "stof", "stoi", "stoul", "stoull", "stol"):
        s = en.load(args[0])
        if name in ("stod", "stof"):
            return FV(xfn("str_dbl", I, R)(s.t))
        if s.lit is not None and s.lit.strip().lstrip("+-").isdigit():
            return z3.IntVal(int(s.lit))
        t = xfn("str_int", I, I)(s.t)
        if name in ("stoul", "stoull"):
            en.assume(t >= 0)
        return t
    if name == "back_inserter":
        return Opaque("back_inserter", args[0])
    if name == "async":
        fn = args[0]
        fnv = en.load(fn)
        r = en.apply(fnv, [en.deref(en.load(a)) if isinstance(en.load(a), Ptr) and i == 0 else a
                           for i, a in enumerate(args[1:])])
        if en.contracts.get("make future"):
            return Opaque("future", en.contracts["make future"](en, None, [r]))
        return Opaque("future", en.copy(en.load(r)))
    if name == "exists":
        return xfn("file_exists", I, B)(en.load(args[0]).data if isinstance(en.load(args[0]), Opaque) else z3.IntVal(0))
    if q.startswith(("H5",)):
        return None
    if name in ("isspace",):
        return en.fresh("isspace", I)
    raise Unsupported(f"library function {q}")


def make(en, ty, args):
    """make_unique / make_shared"""
    if ty["k"] == "rec":
        rec = en.prog.record_of(ty)
        if rec is None:
            v = construct_std(en, ty, args, None)
            return Ptr(en.new_addr(), LBox(Box(v)), ty, True)
        c = en.contracts.get("new " + rec["q"])
        if c:
            en.used_contracts.add("new " + rec["q"])
            v = c(en, None, args)
            return en.new_object(v, ty, True) if isinstance(v, Obj) else v
        o = Obj(rec)
        b = LBox(Box(o, "new"))
        f = find_ctor(en, rec, args)
        if f == "copy":
            o = en.copy(en.load(args[0]))
        elif f is None:
            if args:
                raise Unsupported(f"no constructor of {rec['q']} with {len(args)} arguments")
            en.default_fields(rec, o)
        else:
            av = []
            for p, a in zip(f.params, args):
                pt = f.ty(p["type"])
                av.append(convert_arg(en, pt, a))
            en.call(f, b, av)
        return en.new_object(o, ty, True)
    v = en.copy(en.load(args[0])) if args else en.zero(ty)
    return Ptr(en.new_addr(), LBox(Box(v)), ty, True)


def convert_arg(en, pt, a):
    """implicit conversion of a forwarded argument to a parameter type"""
    t = en.prog.types[pt["tu"]][pt["to"]] if pt["k"] == "ref" else pt
    v = en.load(a)
    if t["k"] == "rec" and t["q"] == "std::variant" and not isinstance(v, Var):
        return LBox(Box(to_variant(en, t, v)))
    if t["k"] == "float" and not isinstance(v, FV):
        return LBox(Box(FV(z3.ToReal(v))))
    if t["k"] == "rec" and en.prog.record_of(t) and isinstance(v, Obj) and v.rec["q"] != t["q"]:
        pass
    return a if pt["k"] == "ref" else v


def to_variant(en, t, v):
    alts, idx = [], None
    for i, a in enumerate(t["targs"]):
        at = en.prog.types[t["tu"]][a["type"]]
        ok = (isinstance(v, FV) and at["k"] == "float") or \
             (z3.is_expr(v) and v.sort() == I and at["k"] == "int") or \
             (isinstance(v, Obj) and at["k"] == "rec" and at["q"] == v.rec["q"])
        if ok and idx is None:
            idx = i
            alts.append(v)
        else:
            alts.append(en.zero(at))
    if idx is None:
        raise Unsupported(f"conversion to {t['s']}")
    return Var(z3.IntVal(idx), alts)


def value_matches(en, pt, a):
    t = en.prog.types[pt["tu"]][pt["to"]] if pt["k"] == "ref" else pt
    v = en.load(a)
    k = t["k"]
    if isinstance(v, FV): return k == "float" or (k == "rec" and t["q"] == "std::variant") or k == "int"
    if isinstance(v, bool): return k == "bool"
    if z3.is_expr(v):
        if v.sort() == B: return k == "bool"
        return k in ("int", "enum", "float") or (k == "rec" and t["q"] == "std::variant")
    if isinstance(v, XNode): return k == "rec" and t["q"].startswith("pugi::")
    if isinstance(v, Str): return k == "rec" and "string" in t["q"] or k == "ptr"
    if isinstance(v, Ptr): return k == "ptr" or (k == "rec" and t["q"] in PTRS)
    if isinstance(v, Obj):
        if k != "rec":
            return False
        if t["q"] == v.rec["q"]:
            return True
        return derives(en, v.rec, t["q"])
    if isinstance(v, Seq): return k == "rec" and t["q"] in SEQ
    if isinstance(v, MapV): return k == "rec" and t["q"] in MAPS
    if isinstance(v, Var): return k == "rec" and t["q"] == "std::variant"
    if isinstance(v, Tup): return k == "rec" and t["q"] in ("std::pair", "std::tuple")
    if isinstance(v, Opaque):
        if v.kind == "rng": return k == "rec" and t["q"] == "std::linear_congruential_engine"
        return k == "rec" and not t["q"].startswith("pugi::")
    if isinstance(v, Opt): return k == "rec" and t["q"] == "std::optional"
    return k == "rec"


def derives(en, rec, q):
    for b in rec["bases"]:
        t = en.prog.types[rec["tu"]][b]
        if t.get("q") == q:
            return True
        br = en.prog.record_of(t)
        if br and derives(en, br, q):
            return True
    return False


def find_ctor(en, rec, args):
    cands = []
    if len(args) == 1:
        v = en.load(args[0])
        if isinstance(v, Obj) and v.rec["q"] == rec["q"]:
            for m in rec["methods"]:
                f = en.prog.funcs.get(m["usr"])
                if f and f.d.get("ctor") and len(f.params) == 1 and not f.d.get("implicit"):
                    pt = f.ty(f.params[0]["type"])
                    if pt["k"] == "ref" and en.prog.types[pt["tu"]][pt["to"]].get("q") == rec["q"] \
                            and value_matches(en, pt, args[0]):
                        return f
            return "copy"
    for m in rec["methods"]:
        f = en.prog.funcs.get(m["usr"])
        if not f or not f.d.get("ctor"):
            continue
        req = [p for p in f.params if "default" not in p]
        if len(req) <= len(args) <= len(f.params) and all(
                value_matches(en, f.ty(p["type"]), a) for p, a in zip(f.params, args)):
            cands.append(f)
    if not cands:
        return None
    if len(cands) > 1:
        def exact(f):
            s = 0
            for p, a in zip(f.params, args):
                t = f.ty(p["type"])
                t = en.prog.types[t["tu"]][t["to"]] if t["k"] == "ref" else t
                v = en.load(a)
                if isinstance(v, Obj) and t.get("q") == v.rec["q"]: s += 2
                if isinstance(v, FV) and t["k"] == "float": s += 1
            return s
        cands.sort(key=exact, reverse=True)
    return cands[0]


def alt_index(en, callee, arg):
    t = callee["targs"][0]
    v = en.load(arg)
    if "int" in t:
        return int(t["int"])
    ty = en.prog.types[en.fr["f"].tu][t["type"]]
    # find by alternative type of the argument
    at = callee["params"][0]
    pt = en.prog.types[en.fr["f"].tu][at]
    pt = en.prog.types[pt["tu"]][pt["to"]] if pt["k"] == "ref" else pt
    for i, a in enumerate(pt["targs"]):
        if en.prog.types[pt["tu"]][a["type"]]["s"] == ty["s"]:
            return i
    raise Unsupported("alternative of a variant")


def std_get(en, callee, a):
    v = en.load(a)
    if not isinstance(a, Loc):
        a = LBox(Box(v))
    if isinstance(v, Tup):
        t = callee["targs"][0]
        if "int" in t:
            return LTup(a, int(t["int"]))
        return LTup(a, alt_index(en, callee, a))
    if isinstance(v, Var):
        i = alt_index(en, callee, a)
        if not en.branch(_fold(z3.simplify(v.idx == i))):
            raise CppThrow("std::bad_variant_access", "std::bad_variant_access")
        return LVar(a, i)
    if isinstance(v, Seq):
        return LElem(a, z3.IntVal(int(callee["targs"][0]["int"])))
    raise Unsupported("std::get")


# ------------------------------------------------------------------ construction
def construct(en, e, ty, args):
    return construct_std(en, ty, args, e)


def construct_std(en, ty, args, e):
    q = ty["q"]
    V = [en.load(a) for a in args]
    if q == "std::basic_string":
        if not V: return mkstr("")
        if isinstance(V[0], Str): return V[0]
        return Str(en.fresh("str", I))
    if q in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
        if not V: return Ptr(0, None, en.targ(ty, 0), True)
        if isinstance(V[0], Ptr):
            r = Ptr(V[0].id, V[0].loc, V[0].to if V[0].loc is not None and V[0].to is not None else en.targ(ty, 0), True)
            if V[0].loc is None:
                r.to = en.targ(ty, 0)
            if V[0].smart and isinstance(args[0], Loc):
                pass
            return r
    if q in ("std::pair", "std::tuple"):
        if not V: return default_std(en, ty)
        if len(V) == 1 and isinstance(V[0], Tup): return Tup(V[0].v, q[5:])
        return Tup([en.copy(v) for v in V[:len(ty["targs"])]], q[5:])
    if q == "std::optional":
        if not V or (isinstance(V[0], Opaque) and "nullopt" in V[0].kind): return Opt(False, None)
        if isinstance(V[0], Opt): return en.copy(V[0])
        if isinstance(V[0], Opaque) and "in_place" in V[0].kind:
            return Opt(True, en.copy(en.load(en.deref(make(en, en.targ(ty, 0), args[1:])))))
        return Opt(True, en.copy(V[0]))
    if q == "std::variant":
        if not V: return default_std(en, ty)
        return to_variant(en, ty, V[0]) if not isinstance(V[0], Var) else en.copy(V[0])
    if q in MAPS:
        if not V: return empty_map(en, ty)
        if isinstance(V[0], MapV): return en.copy(V[0])
        raise Unsupported(f"construction of {q}")
    if q in SEQ:
        el = en.targ(ty, 0)
        kind = q[5:]
        V = [v for v in V if not (isinstance(v, Opaque) and "allocator" in v.kind)]
        if not V: return default_std(en, ty)
        if len(V) == 1 and isinstance(V[0], Seq):
            return Seq(V[0].n, V[0].elem, el, kind)
        if len(V) == 2 and isinstance(V[0], Iter):
            _, at = iteration(en, V[0].c)
            a, b = V
            n = z3.simplify(b.i - a.i)
            src = en.copy(en.load(a.c))
            if isinstance(src, Seq) and not a.rev:
                return Seq(n, lambda i, s=src.elem: s(z3.simplify(a.i + i)), el, kind)
            raise Unsupported("construction from iterators")
        if z3.is_expr(V[0]):      # count [, value]
            v = en.copy(V[1]) if len(V) > 1 else en.zero(el)
            if isinstance(v, FV) is False and el["k"] == "float":
                v = FV(z3.ToReal(v))
            c = const_of(z3.simplify(V[0]))
            if c is not None and c <= 64:
                return Seq.of([v] * c, el, kind)
            return Seq(V[0], lambda i: v, el, kind)
        raise Unsupported(f"construction of {q}")
    if q in DISTS:
        V2 = [v if isinstance(v, FV) or DISTS[q] == "uniform_int" else FV(z3.ToReal(v)) for v in V]
        return Dist(DISTS[q], V2) if V2 else default_std(en, ty)
    if q == "std::linear_congruential_engine":
        return Opaque("rng", V[0]) if V else Opaque("rng", z3.IntVal(1))
    if q in ("std::basic_stringstream", "std::basic_istringstream"):
        return Stream(V[0].t if V and isinstance(V[0], Str) else mkstr("").t)
    if q in ("std::atomic", "std::__atomic_base"):
        return V[0] if V else en.zero(en.targ(ty, 0))
    if q == "pugi::xml_node":
        return V[0] if V else XNode(z3.IntVal(0))
    if q.startswith("__gnu_cxx::__normal_iterator") or "iterator" in q:
        return V[0]
    if q == "std::filesystem::path" or q.endswith("::path"):
        return Opaque("path", V[0].t if V and isinstance(V[0], Str) else V[0].data if V and isinstance(V[0], Opaque) else None)
    if q == "std::function":
        return V[0] if V else Opaque(q)
    if q == "H5::H5File":
        return Opaque("h5file", V[0].t)
    return Opaque(q)


# ------------------------------------------------------------------ methods
def method(en, callee, this, args, e):
    name = callee["name"]
    if callee["q"].endswith("operator_conv"):
        name = "operator_conv"
    v = en.load(this)
    if isinstance(v, XNode):
        return xml_method(en, v, name, args)
    if isinstance(v, Ptr):
        if name == "get": return Ptr(v.id, v.loc, v.to)
        if name == "operator_conv": return en.truth(v)
        if name == "reset" and not args:
            en.store(this, Ptr(0, None, v.to, True))
            return None
        if name == "reset":
            n = en.load(args[0])
            en.store(this, Ptr(n.id, n.loc, n.to or v.to, True))
            return None
        raise Unsupported(f"pointer method {name}")
    if isinstance(v, Seq):
        return seq_method(en, name, this, args, e)
    if isinstance(v, MapV):
        return map_method(en, name, this, args, e)
    if isinstance(v, Str):
        if name == "empty": return _fold(z3.simplify(v.t == 0))
        if name in ("c_str", "data", "str"): return v
        if name in ("size", "length"):
            f = xfn("str_len", I, I)
            en.assume(z3.And(f(v.t) >= 0, (f(v.t) == 0) == (v.t == 0)))
            return f(v.t)
        if name == "append":
            en.store(this, Str(en.fresh("str", I)))
            return this
        if name == "compare": raise Unsupported("string compare")
    if isinstance(v, Opt):
        if name in ("has_value", "operator_conv"): return v.has
        if name == "value":
            if not en.branch(v.has):
                raise CppThrow("bad_optional_access", "std::bad_optional_access")
            return LOpt(this)
        if name == "value_or":
            return v_ite(v.has, v.v, en.load(args[0])) if v.v is not None else en.load(args[0])
    if isinstance(v, Var):
        if name == "index": return v.idx
    if isinstance(v, Stream):
        if name == "str": return Str(v.s)
        if name in ("operator_conv", "good"): return b_not(v.fail)
        if name in ("eof",):
            return _fold(z3.simplify(v.pos >= ntok(en, v.s)))
        if name in ("fail", "bad"): return v.fail
    if isinstance(v, Dist):
        raise Unsupported("distribution method")
    if isinstance(v, Opaque):
        return opaque_method(en, v, name, this, args)
    if z3.is_expr(v) and v.sort() == I:
        if name in ("load", "operator_conv"): return v
        if name == "fetch_add":
            d = en.load(args[0])
            en.store(this, z3.simplify(v + d))
            return v
        if name == "store":
            en.store(this, en.load(args[0]))
            return None
    raise Unsupported(f"method {callee['q']} on {type(v).__name__}")


def atomic_access(en, loc, kind, delta=None):
    """one indivisible access of a std::atomic; returns the value before it"""
    x = en.fresh("atomic", I)
    en.assume(x >= 0)
    en.models.add("std::atomic: indivisible accesses, other threads may change the value in between")
    en.gset("atomic", en.gget("atomic", ()) + ((kind, loc, x, delta),))
    return x


def opaque_method(en, v, name, this, args):
    if v.kind == "atomic":
        if name in ("load", "operator_conv"):
            return atomic_access(en, this, "load")
        if name in ("fetch_add", "fetch_sub"):
            d = en.load(args[0])
            return atomic_access(en, this, "add", d if name == "fetch_add" else -d)
        if name in ("store", "exchange"):
            return atomic_access(en, this, "store", en.load(args[0]))
    if v.kind == "future" and name == "get" and en.contracts.get("future.get"):
        return en.contracts["future.get"](en, this, [])
    if v.kind == "future" and name == "get": return v.data
    if v.kind == "xpath" and name == "node":
        n, p = v.data
        return XNode(xchild(en, n, p.t, "xml_select"))
    if v.kind == "path" and name == "string":
        return Str(v.data if z3.is_expr(v.data) else en.fresh("path", I))
    if v.kind == "rng":
        if name == "operator()":
            return draw_raw(en, this)
        if name == "seed":
            en.store(this, Opaque("rng", en.load(args[0])))
            return None
    if v.kind.startswith("h5"):
        return h5_method(en, v, name, args)
    h = en.contracts.get("opaque " + v.kind)
    if h:
        return h(en, v, name, this, args)
    if "stream" in v.kind or v.kind.startswith("global std::"):
        if name in ("str",): return Str(en.fresh("str", I))
        return v
    raise Unsupported(f"method {name} of {v.kind}")


def h5_method(en, v, name, args):
    """HDF5: a file is a function from (group, name) to attributes and arrays"""
    en.models.add("HDF5 objects hold the attribute values and arrays of the file named by their path")
    A = [en.load(a) for a in args]
    n = v.data
    if name == "openGroup": return Opaque("h5group", xfn("h5_group", I, I, I)(n, A[0].t))
    if name == "openDataSet": return Opaque("h5set", xfn("h5_set", I, I, I)(n, A[0].t))
    if name == "openAttribute": return Opaque("h5attr", xfn("h5_attr", I, I, I)(n, A[0].t))
    if name == "getSpace": return Opaque("h5space", n)
    if name == "getSimpleExtentNpoints":
        t = h5_npoints(n)
        en.assume(t >= 0)
        return t
    if name == "read" and v.kind == "h5attr" and isinstance(A[1], Ptr):
        t = xfn("h5_attrval", I, I)(n)
        en.assume(t >= 0)
        en.store(en.deref(A[1]), t)
        return None
    if name == "read" and v.kind == "h5set" and isinstance(A[0], Opaque) and A[0].kind == "data":
        l = A[0].data
        s = en.load(l)
        en.prove(h5_npoints(n) <= s.n, "HDF5 read fits into the buffer", "safety")
        d = xfn("h5_data", I, I, R)
        old = s.elem
        npts = h5_npoints(n)
        if z3.simplify(npts == s.n) is not None and en.valid_quick(npts == s.n):
            el = lambda i: FV(d(n, i))
        else:
            el = lambda i: v_ite(i < npts, FV(d(n, i)), old(i))
        en.store(l, Seq(s.n, el, s.elty, s.kind))
        return None
    raise Unsupported(f"HDF5 {v.kind}::{name}")


def h5_npoints(n):
    return xfn("h5_npoints", I, I)(n)


def seq_method(en, name, this, args, e):
    s = en.copy(en.load(this))
    if isinstance(s, MapV):
        return map_method(en, name, this, args, e)
    if isinstance(s, XNode):
        return xml_method(en, s, name, args)
    if name in ("begin", "cbegin"): return Iter(this, z3.IntVal(0))
    if name in ("end", "cend"): return Iter(this, s.n)
    if name in ("rbegin", "crbegin"): return Iter(this, s.n, True)
    if name in ("rend", "crend"): return Iter(this, z3.IntVal(0), True)
    if name == "size": return s.n
    if name == "empty": return _fold(z3.simplify(s.n == 0))
    if name in ("reserve", "shrink_to_fit"): return None
    if name == "data": return Opaque("data", this)
    if name in ("at", "operator[]"):
        i = en.load(args[0])
        inb = _fold(z3.simplify(z3.And(i >= 0, i < s.n)))
        if name == "at":
            if inb is not True and not en.branch(inb):
                raise CppThrow("out_of_range", "std::out_of_range")
        else:
            en.prove(inb, "index in range", "safety")
        return LElem(this, i)
    if name in ("front", "back"):
        en.prove(s.n >= 1, f"{name}() of a non-empty container", "safety")
        return LElem(this, z3.IntVal(0) if name == "front" else z3.simplify(s.n - 1))
    if name in ("push_back",):
        push_back(en, this, en.load(args[0]))
        return None
    if name == "emplace_back":
        v = make_elem(en, s.elty, args)
        push_back(en, this, v)
        return LElem(this, z3.simplify(en.load(this).n - 1))
    if name in ("push_front", "emplace_front"):
        v = en.load(args[0]) if name == "push_front" else make_elem(en, s.elty, args)
        items = getattr(s.elem, "items", None)
        if items is not None:
            en.store(this, Seq.of([v] + items, s.elty, s.kind))
        else:
            en.store(this, Seq(z3.simplify(s.n + 1), lambda i: v_ite(i == 0, v, s.elem(z3.simplify(i - 1))), s.elty, s.kind))
        return None
    if name == "pop_back":
        en.prove(s.n >= 1, "pop_back of a non-empty container", "safety")
        items = getattr(s.elem, "items", None)
        if items is not None:
            en.store(this, Seq.of(items[:-1], s.elty, s.kind))
        else:
            en.store(this, Seq(z3.simplify(s.n - 1), s.elem, s.elty, s.kind))
        return None
    if name == "pop_front":
        en.prove(s.n >= 1, "pop_front of a non-empty container", "safety")
        en.store(this, Seq(z3.simplify(s.n - 1), lambda i: s.elem(z3.simplify(i + 1)), s.elty, s.kind))
        return None
    if name == "clear":
        en.store(this, Seq.of([], s.elty, s.kind))
        return None
    if name == "splice":
        pos = en.load(args[0])
        o = en.load(args[1])
        splice(en, this, pos, args[1], o)
        return None
    if name == "insert":
        if len(args) == 3 and isinstance(en.load(args[1]), Iter):
            pos, a, b = [en.load(x) for x in args]
            src = en.copy(en.load(a.c))
            n2 = z3.simplify(b.i - a.i)
            ins = lambda i: src.elem(z3.simplify(a.i + i))
            joined(en, this, s, pos.i, n2, ins)
            return Iter(this, pos.i)
        if len(args) == 2:
            pos, v = en.load(args[0]), en.copy(en.load(args[1]))
            joined(en, this, s, pos.i, z3.IntVal(1), lambda i: v)
            return Iter(this, pos.i)
    if name in ("resize", "assign"):
        n = en.load(args[0])
        v = en.load(args[1]) if len(args) > 1 else en.zero(s.elty)
        if name == "assign":
            en.store(this, Seq(n, lambda i: v, s.elty, s.kind))
        else:
            en.store(this, Seq(n, lambda i: v_ite(i < s.n, s.elem(i), v), s.elty, s.kind))
        return None
    if name == "fill":
        v = en.load(args[0])
        en.store(this, Seq(s.n, lambda i: v, s.elty, s.kind))
        return None
    raise Unsupported(f"container method {name}")


def joined(en, this, s, pos, n2, ins):
    items = getattr(s.elem, "items", None)
    cn, cp = const_of(z3.simplify(n2)), const_of(z3.simplify(pos))
    if items is not None and cn is not None and cp is not None:
        en.store(this, Seq.of(items[:cp] + [ins(z3.IntVal(k)) for k in range(cn)] + items[cp:], s.elty, s.kind))
        return

    def elem(i):
        a = _fold(z3.simplify(i < pos))
        b = _fold(z3.simplify(i < pos + n2))
        if a is True:
            return s.elem(i)
        if const_of(z3.simplify(s.n)) == 0:
            return ins(z3.simplify(i - pos))
        tail = s.elem(z3.simplify(i - n2)) if b is not True else None
        mid = ins(z3.simplify(i - pos)) if b is not False and cn != 0 else tail
        inner = mid if b is True else tail if b is False else v_ite(b, mid, tail)
        return inner if a is False else v_ite(a, s.elem(i), inner)
    en.store(this, Seq(z3.simplify(s.n + n2), elem, s.elty, s.kind))


def splice(en, this, pos, ol, o):
    s, o = en.copy(en.load(this)), en.copy(o)
    joined(en, this, s, pos.i, o.n, o.elem)
    en.store(ol, Seq.of([], o.elty, o.kind))


def make_elem(en, elty, args):
    if elty["k"] == "rec":
        rec = en.prog.record_of(elty)
        if rec is None:
            if elty["q"] in ("std::shared_ptr", "std::unique_ptr"):
                p = en.load(args[0])
                return Ptr(p.id, p.loc, p.to, True)
            return construct_std(en, elty, args, None)
        p = make(en, elty, args)
        return en.load(p.loc) if isinstance(p, Ptr) else p
    v = en.load(args[0]) if args else en.zero(elty)
    return v


def map_method(en, name, this, args, e):
    m = en.copy(en.load(this))      # snapshot: the stored container is updated in place
    if name in ("begin", "cbegin"): return Iter(this, z3.IntVal(0))
    if name in ("end", "cend"): return Iter(this, m.n)
    if name in ("rbegin", "crbegin"): return Iter(this, m.n, True)
    if name in ("rend", "crend"): return Iter(this, z3.IntVal(0), True)
    if name == "size": return m.n
    if name == "empty": return _fold(z3.simplify(m.n == 0))
    if name == "at":
        k = en.load(args[0])
        if not en.branch(m.dom(k)):
            raise CppThrow("map::at", "std::out_of_range")
        return LMap(this, k)
    if name == "operator[]":
        k = en.copy(en.load(args[0]))
        if not en.branch(m.dom(k)):
            en.store(this, map_insert(en, m, k, en.zero(m.vty)))
        return LMap(this, k)
    if name in ("find", "count", "contains"):
        k = en.load(args[0])
        if name != "find":
            d = m.dom(k)
            return d if name == "contains" else z3.If(tobool(d), z3.IntVal(1), z3.IntVal(0))
        if en.branch(m.dom(k)):
            i = m.pos(k)
            en.assume(z3.And(0 <= i, i < m.n))
            en.assume(same_leafs(leafs(m.key(i)), leafs(k)))
            return Iter(this, i)
        return Iter(this, m.n)
    if name in ("emplace", "insert", "try_emplace", "insert_or_assign"):
        if m.kind == "set":
            k, v = en.copy(en.load(args[0])), en.copy(en.load(args[0]))
        elif len(args) == 1:
            t = en.load(args[0])
            if isinstance(t, Opaque) or not isinstance(t, Tup):
                raise Unsupported("map insert")
            k, v = en.copy(t.v[0]), en.copy(t.v[1])
        else:
            k = en.copy(en.load(args[0]))
            v = coerce(en, m.vty, args[1:])
        if isinstance(k, Str) is False and m.kty["k"] == "rec" and m.kty["q"] == "std::basic_string":
            k = Str(k)
        if m.kty["k"] == "float" and not isinstance(k, FV):
            k = FV(z3.ToReal(k))
        if m.kind != "set" and m.vty["k"] == "float" and z3.is_expr(v) and v.sort() == I:
            v = FV(z3.ToReal(v))
        en.store(this, map_insert(en, m, k, v, name == "insert_or_assign"))
        return Tup([Iter(this, z3.IntVal(0)), b_not(m.dom(k))], "pair")
    if name in ("upper_bound", "lower_bound"):
        k = en.load(args[0])
        r = en.fresh(name, I)
        j = z3.Int("_j")
        en.assume(z3.And(0 <= r, r <= m.n))

        def before(i):
            return compare(en, "<=" if name == "upper_bound" else "<", m.key(i), k)
        en.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r), tobool(before(j)))))
        en.assume(z3.ForAll([j], z3.Implies(z3.And(r <= j, j < m.n), tobool(b_not(before(j))))))
        for i in (r - 1, r):
            en.assume(z3.Implies(z3.And(0 <= i, i < m.n), tobool(before(i)) == (i < r)))
        return Iter(this, r)
    if name == "clear":
        v = MapV(z3.IntVal(0), m.key, lambda k: z3.IntVal(-1), lambda k: False, m.val, m.kty, m.vty, m.kind)
        en.store(this, v)
        return None
    raise Unsupported(f"map method {name}")


def coerce(en, ty, args):
    if ty["k"] == "rec" and en.prog.record_of(ty) is None and len(args) == 1:
        v = en.load(args[0])
        if isinstance(v, Ptr):
            return Ptr(v.id, v.loc, v.to, True)
        if ty["q"] == "std::variant" and not isinstance(v, Var):
            return to_variant(en, ty, v)
        return en.copy(v)
    if ty["k"] == "rec" and en.prog.record_of(ty) is not None:
        if len(args) == 1 and isinstance(en.load(args[0]), Obj) and en.load(args[0]).rec["q"] == ty["q"]:
            return en.copy(en.load(args[0]))
        return make_elem(en, ty, args)
    v = en.copy(en.load(args[0]))
    if ty["k"] == "float" and not isinstance(v, FV):
        v = FV(z3.ToReal(v))
    return v


# ------------------------------------------------------------------ streams and random numbers
def ntok(en, s):
    f = xfn("str_ntok", I, I)
    q = z3.Int("_q0")
    en.axiom(("ntok",), z3.ForAll([q], f(q) >= 0, patterns=[f(q)]))
    return f(s)


def stream_read(en, l, target):
    st = en.load(l)
    n = ntok(en, st.s)
    ok = b_and(b_not(st.fail), st.pos < n)
    cur = target.b.v if isinstance(target, LBox) else en.load(target)
    if cur is None:
        ty = target.b.ty
        cur = en.zero(ty)
    if isinstance(cur, FV):
        tok = FV(xfn("tok_dbl", I, I, R)(st.s, st.pos))
    elif isinstance(cur, Str):
        tok = Str(xfn("tok_str", I, I, I)(st.s, st.pos))
    elif z3.is_expr(cur) and cur.sort() == I:
        tok = xfn("tok_int", I, I, I)(st.s, st.pos)
    else:
        raise Unsupported("stream extraction")
    en.models.add("string stream extraction reads the whitespace separated tokens in order (all tokens well formed)")
    if en.branch(ok):
        en.store(target, tok)
        en.setslot(st, "pos", z3.simplify(st.pos + 1))
    else:
        en.setslot(st, "fail", True)
    return l


def draw(en, d, rngloc):
    """one random draw: logged with its distribution"""
    hook = en.contracts.get("draw")
    if hook:
        r = hook(en, d, rngloc)
        if r is not None:
            return r
    en.models.add("random distributions return values in their support; draws are logged in order")
    k = d.kind
    n = en.gget("ndraws", 0)
    if k == "uniform":
        a, b = d.params
        if not (a.finite and b.finite):
            raise Unsupported("distribution parameter")
        u = en.fresh("u", R)
        en.assume(z3.And(u >= 0, u < 1))
        if getattr(en, "open_draws", False):
            en.assume(u > 0)
            en.assumed.add("no drawn number is exactly zero (probability 2^-53 each)")
        one = const_of(z3.simplify(a.r)) == 0 and const_of(z3.simplify(b.r)) == 1
        v = FV(u if one else a.r + (b.r - a.r) * u)
        rec = ("uniform", a, b, v, u)
    elif k == "exponential":
        v = FV(en.fresh("xexp", R))
        en.assume(v.r >= 0)
        rec = ("exponential", d.params[0], None, v, None)
    elif k == "bernoulli":
        p = d.params[0]
        b = en.fresh("bern", B)
        # never true for p <= 0, always true for p >= 1
        en.assume(z3.Implies(tobool(f_le(p, FV(0))), z3.Not(b)))
        en.assume(z3.Implies(tobool(f_le(FV(1), p)), b))
        v = b
        rec = ("bernoulli", p, None, v, None)
    elif k == "normal":
        v = FV(en.fresh("xnorm", R))
        rec = ("normal", d.params[0], d.params[1], v, None)
    elif k == "uniform_int":
        v = en.fresh("uint", I)
        en.assume(z3.And(v >= d.params[0], v <= d.params[1]))
        rec = ("uniform_int", d.params[0], d.params[1], v, None)
    else:
        raise Unsupported(f"{k} distribution")
    log_draw(en, rec, rngloc)
    return v


def log_draw(en, rec, rngloc):
    en.gset("draws", en.gget("draws", ()) + ((rec, rngloc),))
    advance(en, rngloc)


def advance(en, rngloc):
    r = en.load(rngloc)
    st = r.data if isinstance(r, Opaque) else r
    nxt = xfn("rng_next", I, I)
    if isinstance(r, Opaque) and z3.is_expr(r.data):
        en.store(rngloc, Opaque("rng", nxt(r.data)))


def draw_raw(en, rngloc):
    r = en.load(rngloc)
    v = xfn("rng_out", I, I)(r.data)
    en.assume(v >= 0)
    log_draw(en, ("raw", None, None, v, None), rngloc)
    return v


def operator(en, op, callee, args, e):
    name = callee["name"] if callee else ""
    a = args[0]
    v = en.load(a) if not isinstance(a, _LEntry) else a
    if op == "()":
        if isinstance(v, Dist):
            return draw(en, v, args[1])
        if isinstance(v, Opaque) and v.kind == "rng":
            return draw_raw(en, a)
        return en.apply(v, args[1:])
    if op == "=" and len(args) == 2:
        w = en.load(args[1])
        if isinstance(v, Ptr) and isinstance(w, Ptr):
            en.store(a, Ptr(w.id, w.loc, w.to or v.to, True))
            return a
        if isinstance(v, Var) and not isinstance(w, Var):
            t = en.prog.types[en.fr["f"].tu][callee["ret"]]
            t = en.prog.types[t["tu"]][t["to"]] if t["k"] == "ref" else t
            en.store(a, to_variant(en, t, w))
            return a
        if isinstance(v, Opt) and not isinstance(w, Opt):
            en.store(a, Opt(False, None) if isinstance(w, Opaque) else Opt(True, en.copy(w)))
            return a
        moved = callee and callee["params"] and en.prog.types[en.fr["f"].tu][callee["params"][0]].get("rvalue")
        en.store(a, en.copy(w))
        if moved and isinstance(args[1], Loc):
            moved_from(en, args[1], w)
        return a
    if op == "*" and len(args) == 1:
        if isinstance(v, Opt):
            en.prove(v.has, "optional has a value", "safety")
            return LOpt(a)
        return en.deref(v)
    if op == "->":
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Opt):
            en.prove(v.has, "optional has a value", "safety")
            return Ptr(z3.IntVal(999998), LOpt(a))
        if isinstance(v, Iter):
            return Ptr(z3.IntVal(999999), en.iter_loc(v))
    if op == "[]":
        if isinstance(v, (Seq, MapV)):
            return (seq_method if isinstance(v, Seq) else map_method)(en, "operator[]", a, args[1:], e)
        if isinstance(v, Ptr):
            raise Unsupported("pointer subscript")
    if op in ("++", "--"):
        d = 1 if op == "++" else -1
        post = len(args) > 1
        if isinstance(v, Iter):
            n = Iter(v.c, z3.simplify(v.i + (-d if v.rev else d)), v.rev)
            en.store(a, n)
            return v if post else a
        if isinstance(v, Opaque) and v.kind == "atomic":
            x = atomic_access(en, a, "add", d)
            return x if post else z3.simplify(x + d)
        if z3.is_expr(v):
            n = z3.simplify(v + d)
            en.gset("atomic", en.gget("atomic", ()) + ((a, v, n),))
            en.store(a, n)
            return v if post else n
    if op in ("==", "!=", "<", ">", "<=", ">="):
        w = en.load(args[1])
        if isinstance(v, Opt) or isinstance(w, Opt):
            raise Unsupported("comparison of optional")
        return compare(en, op, v, w)
    if op == "!":
        return b_not(en.truth(v))
    if op in ("+", "-") and len(args) == 2:
        w = en.load(args[1])
        if isinstance(v, Str) or isinstance(w, Str):
            if isinstance(v, Str) and v.lit == "" and isinstance(w, Str): return w
            if isinstance(v, Str) and isinstance(w, Str) and v.lit is not None and w.lit is not None:
                return mkstr(v.lit + w.lit)
            return Str(en.fresh("str", I))
        if isinstance(v, Iter) and isinstance(w, Iter):
            return z3.simplify(v.i - w.i) if not v.rev else z3.simplify(w.i - v.i)
        if isinstance(v, Iter):
            d = w if op == "+" else -w
            return Iter(v.c, z3.simplify(v.i + (-d if v.rev else d)), v.rev)
    if op in ("+=", "-=") and len(args) == 2:
        if isinstance(v, Str):
            en.store(a, Str(en.fresh("str", I)))
            return a
        if isinstance(v, Iter):
            w = en.load(args[1])
            d = w if op == "+=" else -w
            en.store(a, Iter(v.c, z3.simplify(v.i + (-d if v.rev else d)), v.rev))
            return a
        if isinstance(v, Opaque) and v.kind == "atomic":
            w = en.load(args[1])
            w = w if op == "+=" else z3.simplify(-w)
            return z3.simplify(atomic_access(en, a, "add", w) + w)
        if z3.is_expr(v) and v.sort() == I:
            w = en.load(args[1])
            n = z3.simplify(v + w if op == "+=" else v - w)
            en.gset("atomic", en.gget("atomic", ()) + ((a, v, n),))
            en.store(a, n)
            return n
    if op == "<<":
        if en.contracts.get("<<"):
            en.contracts["<<"](en, a, en.load(args[1]))
        return a
    if op == ">>":
        if isinstance(v, Stream):
            return stream_read(en, a, args[1])
    if op == "/" and isinstance(v, Opaque) and v.kind == "path":
        return Opaque("path", en.fresh("path", I))
    if op == "|":
        return en.load(a)
    raise Unsupported(f"operator {op} on {type(v).__name__}")
