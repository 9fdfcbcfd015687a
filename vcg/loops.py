"""The loop rule. A loop is an iterated transition; one generic iteration k is
executed symbolically and the state before iteration k is expressed in closed
form (constant step, sum of a k-dependent summand, last written value, one
array/map element written per iteration, append). Closed forms are exact by
induction on k; a slot that has none becomes an arbitrary function of k
('opq' symbols: an obligation that fails with such a symbol is reported as not
decided, never as violated). There is no bound on the number of iterations."""
import os
import z3
from values import *
import engine as E
from engine import LBox, leafs, PathEnd, Brk, Cont, _hasq, symbols, _SymSlot


class Slot:
    def __init__(self, o, name, gkey=None):
        self.o, self.name, self.gkey = o, name, gkey
        self.kind = None          # scalar / seq / map / none
        self.special = False
        self.v0 = None
        self.gen = None           # generic value
        self.gleaves = None
        self.results = []         # (path index, value)
        self.closed = None        # k -> value

    def key(self):
        return (id(self.o), self.name, self.gkey)

    def read(self, en):
        if self.kind in ("seq", "map"):
            return self.o
        if self.gkey is not None:
            return self.o.v.get(self.gkey)
        if isinstance(self.o, Obj):
            return self.o.fields.get(self.name)
        return getattr(self.o, self.name)

    def write(self, en, v):
        if self.kind in ("seq", "map"):
            for s in en.STATE[type(self.o)]:
                en.setslot(self.o, s, getattr(v, s))
        elif self.gkey is not None:
            en.gset(self.gkey, v)
        else:
            en.setslot(self.o, self.name, v)

    def label(self):
        nm = getattr(self.o, "name", None) or (self.o.rec["q"] if isinstance(self.o, Obj) else type(self.o).__name__)
        return f"{nm}.{self.gkey or self.name}"


def flat(v, special=False):
    """(leaves, rebuild) of a scalar-like value"""
    if isinstance(v, bool):
        return [z3.BoolVal(v)], lambda l: E._fold(l[0])
    if z3.is_expr(v):
        return [v], lambda l: l[0]
    if isinstance(v, FV):
        if not special:
            return [v.r], lambda l: FV(l[0])
        return [v.r, tobool(v.nan), tobool(v.pinf), tobool(v.ninf)], lambda l: FV(*l)
    if isinstance(v, Ptr):
        return [v.id], lambda l: Ptr(l[0], None, v.to, v.smart)
    if isinstance(v, Str):
        return [v.t], lambda l: Str(l[0])
    if isinstance(v, XNode):
        return [v.id], lambda l: XNode(l[0], v.kind)
    if isinstance(v, Iter):
        return [v.i], lambda l: Iter(v.c, l[0], v.rev)
    if isinstance(v, Opaque):
        if v.kind == "rng" and z3.is_expr(v.data):
            return [v.data], lambda l: Opaque("rng", l[0])
        return [], lambda l: v
    if isinstance(v, (Tup, list)):
        items = v.v if isinstance(v, Tup) else v
        parts = [flat(x, special) for x in items]

        def rb(l):
            out, p = [], 0
            for ls, r in parts:
                out.append(r(l[p:p + len(ls)]))
                p += len(ls)
            return Tup(out, v.kind) if isinstance(v, Tup) else out
        return [x for ls, _ in parts for x in ls], rb
    if isinstance(v, Opt) and v.v is not None:
        ls, r = flat(v.v, special)
        return [tobool(v.has)] + ls, lambda l: Opt(E._fold(l[0]), r(l[1:]))
    if isinstance(v, (tuple, dict, str, int)) or v is None:
        raise Unsupported("loop-carried specification state")
    raise Unsupported(f"loop-carried value of type {type(v).__name__}")


def allfinite(en, v):
    if isinstance(v, FV):
        return v.finite or en.valid_quick(v.fin)
    if isinstance(v, (Tup, list)):
        return all(allfinite(en, x) for x in (v.v if isinstance(v, Tup) else v))
    return True


def subst(v, f):
    """apply the term rewriting f to every term of a value, closures included"""
    if isinstance(v, bool) or v is None:
        return v
    if z3.is_expr(v):
        return f(v)
    if isinstance(v, FV):
        g = lambda x: x if is_c(x) else E._fold(f(x))
        return FV(f(v.r), g(v.nan), g(v.pinf), g(v.ninf))
    if isinstance(v, Ptr):
        if v.loc is not None and isinstance(v.loc, tuple):
            return Ptr(f(v.id), None, v.to, v.smart)
        nid, loc, to = f(v.id), v.loc, v.to
        if isinstance(loc, E.LBox) and isinstance(loc.b.v, Obj) and loc.b.v.ident is not None and loc.b.v.sym and not nid.eq(v.id):
            # the same expression at another index: a different object of the heap
            r = loc.b.v.rec
            loc, to = None, to if to is not None and to.get("k") == "rec" else {"k": "rec", "q": r["q"], "usr": r["usr"], "s": r["q"], "tu": r["tu"]}
        return Ptr(nid, loc, to, v.smart)
    if isinstance(v, Str):
        return v if v.lit is not None else Str(f(v.t))
    if isinstance(v, XNode):
        return XNode(f(v.id), v.kind)
    if isinstance(v, Iter):
        return Iter(v.c, f(v.i), v.rev)
    if isinstance(v, Tup):
        return Tup([subst(x, f) for x in v.v], v.kind)
    if isinstance(v, list):
        return [subst(x, f) for x in v]
    if isinstance(v, Opt):
        h = v.has if is_c(v.has) else E._fold(f(v.has))
        return Opt(h, subst(v.v, f))
    if isinstance(v, Var):
        return Var(f(v.idx), [subst(x, f) for x in v.alts])
    if isinstance(v, Opaque):
        return Opaque(v.kind, f(v.data)) if z3.is_expr(v.data) else v
    if isinstance(v, Seq):
        return Seq(f(v.n), lambda i: subst(v.elem(i), f), v.elty, v.kind)
    if isinstance(v, MapV):
        return MapV(f(v.n), lambda i: subst(v.key(i), f), lambda x: f(v.pos(x)),
                    lambda x: (lambda d: d if is_c(d) else f(d))(v.dom(x)),
                    lambda x: subst(v.val(x), f), v.kty, v.vty, v.kind)
    if isinstance(v, Obj):
        o = Obj(v.rec, {k: subst(x, f) for k, x in v.fields.items()}, v.sym, v.ident)
        if v.sym is not None:
            if v.sym[0] == "merge" and len(v.sym) == 4:
                _, c, a, b = v.sym
                o.sym = ("merge", c if is_c(c) else f(c), subst(a, f), subst(b, f))
            else:
                o.sym = (v.sym[0], [f(a) for a in v.sym[1]])
        if o.ident is not None:
            o.ident = f(o.ident)
        o.extra = v.extra
        return o
    if isinstance(v, (Dist, Lam, PyFn)):
        return v
    raise Unsupported(f"substitution in {type(v).__name__}")


# ------------------------------------------------------------------ sums
SUMS = {}          # name -> (k const, params, term)


def free_consts(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        else:
            todo.extend(x.children())
    out.sort(key=lambda c: c.decl().name())
    return out


def mentions(t, c):
    return any(x.eq(c) for x in free_consts(t))


def summation(en, term, k, upto):
    """sum of term(k) for 0 <= k < upto, normalised"""
    t = z3.simplify(term, som=False, arith_lhs=False)
    if not mentions(t, k):
        return t * z3.ToReal(upto) if t.sort() == R else t * upto
    if z3.is_add(t):
        r = [summation(en, c, k, upto) for c in t.children()]
        return z3.Sum(r)
    d = t.decl().kind()
    if d == z3.Z3_OP_UMINUS:
        return -summation(en, t.arg(0), k, upto)
    if d == z3.Z3_OP_MUL:
        out = [c for c in t.children() if not mentions(c, k)]
        inn = [c for c in t.children() if mentions(c, k)]
        if out:
            s = summation(en, z3.Product(inn) if len(inn) > 1 else inn[0], k, upto)
            return z3.Product(out + [s]) if len(out) > 1 else out[0] * s
    if d == z3.Z3_OP_DIV and not mentions(t.arg(1), k):
        return summation(en, t.arg(0), k, upto) / t.arg(1)
    ps = [c for c in free_consts(t) if not c.eq(k)]
    kk = z3.Int("_sk")
    canon = [z3.Const(f"_sp{i}", p.sort()) for i, p in enumerate(ps)]
    tt = z3.substitute(t, [(k, kk)] + list(zip(ps, canon)))
    import hashlib
    name = "SUM_" + hashlib.sha1(tt.sexpr().encode()).hexdigest()[:12]
    SUMS[name] = (kk, canon, tt)
    f = z3.Function(name, I, *[p.sort() for p in ps], t.sort())
    return f(upto, *ps)


def sum_term(app, j):
    kk, canon, tt = SUMS[app.decl().name()]
    return z3.substitute(tt, [(kk, j)] + list(zip(canon, app.children()[1:])))


def sum_apps(fs):
    out, seen, todo = [], set(), list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue                      # bound arguments: not ground
        if z3.is_app(x):
            if x.decl().name() in SUMS:
                out.append(x)
            todo.extend(x.children())
    return out


def sum_facts(fs, prove=None):
    """unfolding instances and lemmas for the ground sum applications in fs"""
    apps = sum_apps(fs)
    if not apps:
        return []
    for a in sum_apps([sum_term(a, z3.Int("_js")) for a in apps]):
        if not any(a.eq(b) for b in apps) and not mentions(a, z3.Int("_js")):
            apps.append(a)
    out, keys = [], set()

    def add(c):
        if c.get_id() not in keys:
            keys.add(c.get_id())
            out.append(c)
    for a in apps:
        f, n, ps = a.decl(), a.arg(0), a.children()[1:]
        zero = z3.RealVal(0) if a.sort() == R else z3.IntVal(0)
        add(f(z3.IntVal(0), *ps) == zero)
        c = const_of(z3.simplify(n))
        if c is not None and 0 < c <= 12:
            add(a == z3.Sum([sum_term(a, z3.IntVal(j)) for j in range(c)]))
            continue
        add(z3.Implies(n >= 0, f(z3.simplify(n + 1), *ps) == a + sum_term(a, n)))
        add(z3.Implies(n > 0, a == f(z3.simplify(n - 1), *ps) + sum_term(a, z3.simplify(n - 1))))
        add(z3.Implies(n <= 0, a == zero))
    if prove is not None:
        # lemmas by induction on the bound: sign, equality and order of summands
        bases = {}
        for a in apps:
            bases.setdefault(tuple([a.decl().name()] + [c.get_id() for c in a.children()[1:]]), []).append(a)
        js = z3.FreshInt("j")
        reps = [l[0] for l in bases.values()]
        prove0 = prove
        prove = lambda g: prove0(g, out)
        for key, l in bases.items():
            t = sum_term(l[0], js)
            for a in l:
                n = a.arg(0)
                if prove(z3.Implies(z3.And(js >= 0, js < n), t >= 0)):
                    add(a >= 0)
                    if prove(z3.Implies(z3.And(js >= 0, js < n), t > 0)):
                        add(z3.Implies(n > 0, a > 0))
                    f, ps = a.decl(), a.children()[1:]
                    add(z3.Implies(n > 0, z3.And(a >= f(z3.simplify(n - 1), *ps), f(z3.simplify(n - 1), *ps) >= 0)))
                    jq = z3.Int("_jm")
                    add(z3.ForAll([jq], z3.Implies(z3.And(0 <= jq, jq <= n), z3.And(f(jq, *ps) <= a, f(jq, *ps) >= 0)),
                                  patterns=[f(jq, *ps)]))
        al = [a for a in apps]
        cnt = 0
        for i in range(len(al)):
            for j in range(i):
                a, b = al[i], al[j]
                if a.sort() != b.sort() or a.eq(b):
                    continue
                if not a.arg(0).eq(b.arg(0)) and (const_of(z3.simplify(a.arg(0) - b.arg(0))) is not None
                                                  or not prove(a.arg(0) == b.arg(0))):
                    continue
                if a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children(), b.children())):
                    continue
                cnt += 1
                if cnt > 10:
                    break
                n = a.arg(0)
                ta, tb = sum_term(a, js), sum_term(b, js)
                rng = z3.And(js >= 0, js < n)
                if prove(z3.Implies(rng, ta == tb)):
                    add(a == b)
                else:
                    if prove(z3.Implies(rng, ta <= tb)):
                        add(a <= b)
                    if prove(z3.Implies(rng, ta >= tb)):
                        add(a >= b)
                    if a.sort() == R:
                        # the same summands up to a constant factor
                        for x, y, tx, ty in ((a, b, ta, tb), (b, a, tb, ta)):
                            if prove(z3.Implies(rng, tx * y == ty)):
                                add(x * y == y)
    return out


# ------------------------------------------------------------------ the rule
def symbolic_loop(en, cond, body, s):
    if en.loop_hook:
        r = en.loop_hook(en, s, (cond, body))
        if r is not None:
            return
    info = infer(en, cond, body)
    n = en.fresh("iters", I)
    en.assume(n >= 0)
    info.enter(n)
    info.facts(n)
    if en.branch(en_truth(cond())):
        try:
            body()
        except Brk:
            return
        raise PathEnd("loop iteration")
    return


def en_truth(c):
    return c


class Info:
    def __init__(self, en):
        self.en = en
        self.slots, self.k, self.pre, self.skol, self.path = [], None, [], [], None

    def rewrite(self, at):
        """term rewriting: k -> at, per-iteration constants -> functions of the iteration"""
        pairs = [(self.k, at)] + [(c, f(at)) for c, f in self.skol]

        def f(t):
            return z3.simplify(z3.substitute(t, *pairs)) if not _hasq(t) else z3.substitute(t, *pairs)
        return f

    def enter(self, n):
        for s in self.slots:
            if s.closed is not None:
                s.write(self.en, s.closed(n))

    def facts(self, n):
        """every earlier iteration went on"""
        en = self.en
        if self.path is None or is_c(self.path):
            return
        j = z3.Const(f"_it{en.nfresh}", I)
        en.nfresh += 1
        p = self.rewrite(j)(self.path)
        g = self.rewrite(z3.simplify(n - 1))(self.path)
        try:
            en.assume(z3.Implies(n > 0, g))
            en.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), p)))
        except z3.Z3Exception as x:
            raise Unsupported(f"loop facts: {x}")


def infer(en, cond, body):
    slots = {}
    for attempt in range(8):
        new = attempt_infer(en, cond, body, slots)
        if isinstance(new, Info):
            return new
    raise Unsupported("loop summary does not settle")


def attempt_infer(en, cond, body, slots):
    info = Info(en)
    info.slots = list(slots.values())
    mark = len(en.trail)
    npc = len(en.pc)
    k = en.fresh("k", I)
    info.k = k
    stamp0 = Obj._n
    nf = len(en.freshlog)
    nfn = len(en.freshfns)
    found, paths = {}, []
    restart = [False]
    en.silent += 1
    nbr = [0]

    def thunk():
        en.assume(k >= 0)
        if not en.branch(cond()):
            raise PathEnd("loop-done")
        body()

    def on_path(out):
        # slots written on this path (a path that leaves the loop carries nothing to a later iteration)
        for o, slot, old in en.trail[mark0:] if out[0] in ("ok", "cont") else ():
            if isinstance(o, _SymSlot):
                if o.o.stamp <= stamp0:
                    raise Unsupported("whole-object assignment in a loop")
                continue
            if getattr(o, "stamp", 0) > stamp0:
                continue
            if isinstance(o, Seq):
                key, sl = (id(o), "seq", None), Slot(o, "seq")
                sl.kind = "seq"
            elif isinstance(o, MapV):
                key, sl = (id(o), "map", None), Slot(o, "map")
                sl.kind = "map"
            elif o is en.ghost:
                for gk in set(o.v) | set(old or {}):
                    if o.v.get(gk) is not (old or {}).get(gk):
                        key = (id(o), "v", gk)
                        if key not in slots:
                            found.setdefault(key, Slot(o, "v", gk))
                continue
            else:
                if isinstance(o, Obj) and o.ident is not None and o.sym and o.sym[1] and any(
                        mentions(a, k) or any(mentions(a, c) for c in en.freshlog[nf:]) for a in o.sym[1]):
                    raise Unsupported("a loop writes to a different heap object in each iteration")
                key, sl = (id(o), slot, None), Slot(o, slot)
            if key not in slots:
                found.setdefault(key, sl)
        kind, v = out
        if kind in ("ok", "cont"):
            vals = {}
            for sl in info.slots:
                x = sl.read(en)
                if sl.kind in ("seq", "map"):
                    x = en.copy(x)
                if sl.kind == "scalar" and not sl.special and not allfinite(en, x):
                    sl.special = True
                    restart[0] = True
                vals[sl.key()] = x
            paths.append((b_and(*en.pc[npc0:]), vals))
    try:
        # generic state
        for sl in info.slots:
            generic(en, sl, k)
        mark0, npc0 = len(en.trail), len(en.pc)
        en.explore(thunk, on_path, limit=400)
    finally:
        en.silent -= 1
        en.undo(mark)
    if found:
        for key, sl in found.items():
            sl.v0 = sl.read(en)
            slots[key] = sl
        return None
    if restart[0]:
        return None
    fr = en.freshlog[nf:]
    info.skol = [(c, z3.Function(c.decl().name() + "@", I, c.sort())) for c in fr]
    info.fns = set(en.freshfns[nfn:])
    if not paths:
        # no iteration ever falls through: at most the current one
        for sl in info.slots:
            sl.closed = lambda n, sl=sl: sl.v0c
            sl.v0c = snapshot(en, sl)
        info.path = z3.BoolVal(False)
        return info
    resolve(en, info, paths)
    return info


def snapshot(en, sl):
    v = sl.read(en)
    return en.copy(v) if sl.kind in ("seq", "map") else v


def generic(en, sl, k):
    v = sl.read(en)
    sl.v0 = en.copy(v) if sl.kind in ("seq", "map") else v
    if sl.kind == "seq":
        n = en.fresh("gn", I)
        nm = f"gs!{en.nfresh}"
        en.nfresh += 1
        el = sl.v0.elty
        gen = lambda i: en.mk(el, nm, [i])
        sl.gsym, sl.gn = nm, n
        sl.gelem = gen
        sl.gen = Seq(n, gen, el, sl.v0.kind)
        sl.write(en, sl.gen)
        return
    if sl.kind == "map":
        m = sl.v0
        nm = f"gm!{en.nfresh}"
        en.nfresh += 1
        ks = _std().key_sort(m.kty)
        n = en.fresh("gn", I)
        domf = z3.Function(nm + ".dom", ks, B)
        keyf, posf = z3.Function(nm + ".key", I, ks), z3.Function(nm + ".pos", ks, I)
        dom = lambda x: domf(*leafs(x))
        val = (lambda x: x) if m.kind == "set" else (lambda x: en.mk(m.vty, nm + ".val", leafs(x)))
        sl.gsym, sl.gn, sl.gdom, sl.gval = nm, n, dom, val
        key = m.key if False else (lambda i: _std().from_leafs(en, m.kty, [keyf(i)]))
        sl.gen = MapV(n, key, lambda x: posf(*leafs(x)), dom, val, m.kty, m.vty, m.kind)
        sl.write(en, sl.gen)
        return
    if sl.v0 is None:
        sl.kind = "none"
        return
    try:
        ls, rb = flat(sl.v0, sl.special)
    except Unsupported:
        if sl.gkey is not None:
            raise Unsupported(f"loop changes specification state {sl.gkey}")
        raise Unsupported(f"loop changes {sl.label()} ({type(sl.v0).__name__})")
    if not sl.special and not allfinite(en, sl.v0):
        sl.special = True
        ls, rb = flat(sl.v0, True)
    sl.kind = "scalar"
    sl.l0, sl.rb = ls, rb
    sl.gleaves = [en.fresh("g", l.sort()) for l in ls]
    sl.gen = rb(sl.gleaves)
    sl.write(en, sl.gen)


def _std():
    import stdmodel
    return stdmodel


def chain(elem, base):
    """writes [(index, value)] on top of base, oldest first; None if not of that form"""
    w = []
    while elem is not base:
        u = getattr(elem, "upd", None)
        if u is None:
            return None
        elem, i, v = u
        w.append((i, v))
    w.reverse()
    return w


def mergev(paths, get):
    """value merged over the fallthrough paths"""
    v = get(paths[-1])
    for p in reversed(paths[:-1]):
        v = v_ite(p[0], get(p), v)
    return v


def resolve(en, info, paths):
    k = info.k
    conds = [tobool(p[0]) for p in paths]
    if len(paths) == 1:
        mconds = [True]
    known = []            # (generic const, closed term in k)
    todo = []             # (slot, leaf index, merged next term)
    for sl in info.slots:
        if sl.kind == "scalar":
            nxt = []
            for c, vals in paths:
                v = vals[sl.key()]
                ls, _ = flat(v, sl.special)
                if len(ls) != len(sl.gleaves):
                    raise Unsupported(f"loop changes the shape of {sl.label()}")
                nxt.append(ls)
            if isinstance(sl.gen, Iter):
                if any(vals[sl.key()].c is not sl.gen.c and not _sameloc(vals[sl.key()].c, sl.gen.c) for _, vals in paths):
                    raise Unsupported("iterator moves to another container in a loop")
            if isinstance(sl.gen, Ptr):
                if any(vals[sl.key()].loc is not None for _, vals in paths):
                    sl.opaqueptr = True
            for i in range(len(sl.gleaves)):
                t = nxt[-1][i]
                for (c, _), l in zip(reversed(paths[:-1]), reversed(nxt[:-1])):
                    t = l[i] if l[i].eq(t) else z3.If(tobool(c), l[i], t)
                todo.append([sl, i, z3.simplify(t)])
        elif sl.kind == "none":
            pass
    closed = {}
    gens = [g for sl in info.slots if sl.kind == "scalar" for g in sl.gleaves]
    changed = True
    while changed and todo:
        changed = False
        for it in list(todo):
            sl, i, t = it
            g = sl.gleaves[i]
            if known:
                t = settle_ites(en, z3.simplify(z3.substitute(t, *known)), k, gens)
            unres = [s2.gleaves[j] for s2, j, _ in todo]
            un2 = [u for u in unres if not u.eq(g)]
            fc = free_consts(t)
            if any(any(u.eq(c) for c in fc) for u in un2):
                continue
            if usesgen(t, info):
                continue
            l0 = sl.l0[i]
            form = None
            if t.eq(g):
                form = lambda at, l0=l0: l0
            elif t.sort() in (R, I):
                d = z3.simplify(t - g, som=True)
                if not mentions(d, g):
                    form = sumform(en, info, l0, d)
            if form is None and not mentions(t, g):
                form = lambda at, t=t, l0=l0: lastform(info, l0, t, at)
            if form is None:
                continue
            closed[(id(sl), i)] = form
            known.append((g, form(k)))
            todo.remove(it)
            changed = True
    for sl, i, t in todo:
        f = z3.Function(f"opq!{en.nfresh}", I, sl.gleaves[i].sort())
        en.nfresh += 1
        l0 = sl.l0[i]
        en.note_opaque(sl.label())
        if os.environ.get("VCG_LOOPDEBUG"):
            print("  opaque scalar:", sl.label(), "gen", sl.gleaves[i], "next", t, "unresolved", [s2.gleaves[j] for s2, j, _ in todo])
        closed[(id(sl), i)] = lambda at, f=f, l0=l0: l0 if const_of(z3.simplify(at)) == 0 else z3.If(at == 0, l0, f(at))
        known.append((sl.gleaves[i], closed[(id(sl), i)](k)))
    for sl in info.slots:
        if sl.kind == "scalar":
            sl.closed = lambda n, sl=sl: sl.rb([closed[(id(sl), i)](n) for i in range(len(sl.gleaves))])
        elif sl.kind == "none":
            sl.closed = lambda n: None
            sl.write_none = True
    kn = [(a, b) for a, b in known]

    def fin(t):
        """generic constants -> closed forms in k"""
        if not kn:
            return t
        for _ in range(3):
            t2 = z3.substitute(t, *kn)
            if t2.eq(t):
                break
            t = t2
        return t
    info.fin = fin
    for sl in info.slots:
        if sl.kind == "seq":
            resolve_seq(en, info, sl, paths)
        elif sl.kind == "map":
            resolve_map(en, info, sl, paths)
    p = z3.Or(conds) if len(conds) > 1 else conds[0]
    p = fin(p)
    # generic container content in the path condition: replace by closed content where possible
    if usesgen(p, info):
        keep = []
        for c in conds:
            c = fin(c)
            cs = c.children() if z3.is_and(c) else [c]
            cs = [x for x in cs if not usesgen(x, info)]
            keep.append(z3.And(cs) if cs else z3.BoolVal(True))
        p = z3.Or(keep) if len(keep) > 1 else keep[0]
    if info.fns and symbols(p) & info.fns:
        p = z3.BoolVal(True)
    info.path = z3.simplify(p) if not _hasq(p) else p
    if z3.is_true(info.path):
        info.path = None


def settle_ites(en, t, k, gens, budget=6):
    """drop the branch of an integer case distinction that no iteration k >= 0 takes"""
    seen, conds, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == I and not any(mentions(x.arg(0), g) for g in gens) and mentions(x.arg(0), k):
                conds.append(x)
            st.extend(x.children())
    sub = []
    for x in conds[:budget]:
        if en.valid_quick(z3.Implies(k >= 0, x.arg(0))):
            sub.append((x, x.arg(1)))
    return z3.simplify(z3.substitute(t, *sub)) if sub else t


def _sameloc(a, b):
    return type(a) is type(b) and getattr(a, "b", 1) is getattr(b, "b", 2)


def usesgen(t, info):
    """mentions content of a generic container"""
    sy = symbols(t)
    for sl in info.slots:
        if sl.kind in ("seq", "map"):
            nm = sl.gsym
            if any(x == nm or x.startswith(nm + ".") or x.startswith(nm + "[") for x in sy):
                return True
    return False


def sumform(en, info, l0, d):
    d1 = d
    if not mentions(d1, info.k) and not any(mentions(d1, c) for c, _ in info.skol):
        c = d1
        if c.sort() == I:
            return lambda at: z3.simplify(l0 + c * at)
        return lambda at: z3.simplify(l0 + c * z3.ToReal(at))
    dk = info.rewrite(info.k)(d1)
    return lambda at: l0 + summation(en, dk, info.k, at)


def lastform(info, l0, t, at):
    prev = info.rewrite(z3.simplify(at - 1))(t)
    c = const_of(z3.simplify(at))
    if c == 0:
        return l0
    return z3.If(at == 0, l0, prev)


def affine(t, k):
    """t = sign*k + c with sign +-1 -> (sign, c)"""
    c = z3.simplify(t - k)
    if not mentions(c, k):
        return 1, c
    c = z3.simplify(t + k)
    if not mentions(c, k):
        return -1, c
    return None


def resolve_seq(en, info, sl, paths):
    k, fin = info.k, info.fin
    ws = []
    for c, vals in paths:
        v = vals[sl.key()]
        w = chain(v.elem, sl.gelem)
        if w is None:
            return opaque_seq(en, info, sl, paths)
        n1 = z3.simplify(v.n - sl.gn)
        n1 = const_of(n1)
        if n1 is None or n1 < 0:
            return opaque_seq(en, info, sl, paths)
        ws.append((c, w, n1))
    n1s = set(x[2] for x in ws)
    if len(n1s) != 1:
        return opaque_seq(en, info, sl, paths)
    grow = n1s.pop()
    n0 = sl.v0.n
    lens = lambda at: n0 if grow == 0 else z3.simplify(n0 + grow * at)
    gnsub = [(sl.gn, lens(k))]

    def cl(t):
        return z3.simplify(z3.substitute(fin(t), *gnsub))
    # one index per iteration (grow <= 1); the same on all writing paths
    idx = None
    for c, w, _ in ws:
        for i, v in w:
            i = cl(i)
            if idx is None:
                idx = i
            elif not idx.eq(i):
                return opaque_seq(en, info, sl, paths)
    if grow > 1:
        return opaque_seq(en, info, sl, paths)
    if idx is None:
        sl.closed = lambda n: sl.v0
        return
    af = affine(idx, k)
    inv = None
    if af is None and grow == 0 and not usesgen(idx, info):
        inv, inj = inverse(en, info, idx, I)
        if not inj:
            inv = None
    if inv is None and (af is None or usesgen(idx, info) or any(mentions(idx, c) for c, _ in info.skol)):
        return opaque_seq(en, info, sl, paths)
    sign, off = af if inv is None else (0, None)
    v0 = sl.v0
    # value written in iteration k
    vals = [(c, w[-1][1] if w else None) for c, w, _ in ws]

    # content of this container read in the iteration is the original content at the written index
    # (other indices: only if not yet written; checked syntactically)
    probe = sl.gelem(idx)

    def own(t):
        """replace reads of the generic content at idx by the original content"""
        t = cl(t)
        reads = reads_of(t, sl.gsym)
        subs = []
        for r in reads:
            ii = z3.simplify(r.arg(r.num_args() - 1))
            if not ii.eq(idx):
                raise Unsupported("loop reads other elements of an array it writes")
            subs.append((r, r))
        return t
    cur0 = None

    def written(at):
        rw = info.rewrite(at)

        def f(t):
            t = own(t)
            t = sub_reads(en, t, sl, v0)
            if usesgen(t, info):
                raise Unsupported("array element depends on other containers changed by the loop")
            return rw(t)
        r = None
        for c, v in reversed(vals):
            if v is None:
                v = v0.elem(rw(idx))
                x = v
            else:
                x = subst(v, f)
            r = x if r is None else v_ite(E._fold(f(tobool(c))), x, r)
        return r
    try:
        written(k)
    except Unsupported as x:
        LASTX[0] = x
        return opaque_seq(en, info, sl, paths)

    def closed(n):
        empty = const_of(z3.simplify(v0.n)) == 0

        def elem(i):
            at = z3.simplify(i - off) if sign == 1 else z3.simplify(off - i) if sign else inv(i)
            inr = z3.And(at >= 0, at < n)
            if sign == 0:
                inr = z3.And(inr, info.rewrite(at)(idx) == i)
            inr = E._fold(z3.simplify(inr))
            if inr is False:
                return v0.elem(i)
            if inr is True or (empty and grow == 1):
                return written(at)
            return v_ite(inr, written(at), v0.elem(i))
        return Seq(lens(n), elem, v0.elty, v0.kind)
    sl.closed = closed


def reads_of(t, gsym):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            nm = x.decl().name()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (nm == gsym or nm.startswith(gsym + ".")) and x.num_args():
                out.append(x)
            todo.extend(x.children())
    return out


def sub_reads(en, t, sl, v0):
    """generic element reads -> original element (leaf by leaf)"""
    subs = []
    for r in reads_of(t, sl.gsym):
        i = r.arg(r.num_args() - 1)
        if sl.kind == "seq":
            g, o = sl.gelem(i), v0.elem(z3.simplify(z3.substitute(i, (sl.gn, sl.gn))))
        else:
            kv = _std().from_leafs(en, v0.kty, [i])
            if r.decl().name() == sl.gsym + ".dom":
                d = v0.dom(kv)
                subs.append((r, tobool(d)))
                continue
            g, o = sl.gval(kv), v0.val(kv)
        try:
            gl, ol = flat(g, True)[0], flat(o, True)[0]
        except Unsupported:
            continue
        for a, b in zip(gl, ol):
            if a.eq(r):
                subs.append((r, b))
    return z3.substitute(t, *subs) if subs else t


def why_opaque(sl, paths):
    import os, sys
    if os.environ.get("VCG_LOOPDEBUG"):
        f = sys._getframe(2)
        print("  opaque:", sl.label(), "line", f.f_lineno, "paths", len(paths))
        x = sys.exc_info()[1] or LASTX[0]
        print("   ", x)
        for c, vals in paths:
            v = vals[sl.key()]
            if sl.kind == "map":
                print("    path", c, [(a, leafs(b)) for a, b, _ in (map_chain(v, sl) or [])])
            elif sl.kind == "seq":
                print("    path", c, v.n, [i for i, _ in (chain(v.elem, sl.gelem) or [])])


LASTX = [None]


def opaque_seq(en, info, sl, paths):
    why_opaque(sl, paths)
    nm = f"opq!{en.nfresh}"
    en.nfresh += 1
    el = sl.v0.elty
    v0 = sl.v0
    en.note_opaque(sl.label())

    def closed(n):
        ln = _std().mkint(en, nm + ".size", [n])
        return Seq(ln, lambda i: en.mk(el, nm, [n, i]), el, v0.kind)
    sl.closed = closed


def opaque_map(en, info, sl, paths):
    why_opaque(sl, paths)
    nm = f"opq!{en.nfresh}"
    en.nfresh += 1
    m = sl.v0
    en.note_opaque(sl.label())
    ks = _std().key_sort(m.kty)
    domf = z3.Function(nm + ".dom", I, ks, B)

    def closed(n):
        ln = _std().mkint(en, nm + ".size", [n])
        dom = lambda x: domf(n, *leafs(x))
        val = (lambda x: x) if m.kind == "set" else (lambda x: en.mk(m.vty, nm + ".val", [n] + leafs(x)))
        key, pos = _std().reenumerate(en, ln, dom, m.kty)
        return MapV(ln, key, pos, dom, val, m.kty, m.vty, m.kind)
    sl.closed = closed


def resolve_map(en, info, sl, paths):
    k, fin = info.k, info.fin
    m0 = sl.v0
    ks = _std().key_sort(m0.kty)
    ops = []
    for c, vals in paths:
        v = vals[sl.key()]
        w = map_chain(v, sl)
        if w is not None and len(w) == 2 and w[0][0] in ("emplace", "assign") and w[1][0] == "store" \
                and z3.simplify(leafs(w[0][1])[0]).eq(z3.simplify(leafs(w[1][1])[0])):
            w = [("assign", w[1][1], w[1][2])]          # operator[] on an absent key, then assignment
        if w is None or len(w) > 1:
            return opaque_map(en, info, sl, paths)
        ops.append((c, w[0] if w else None))
    if any(o and o[0] == "assign" for _, o in ops) and all(o and o[0] in ("assign", "store") for _, o in ops):
        # a store happens on a present key: the same as insert_or_assign
        ops = [(c, ("assign",) + tuple(o[1:])) for c, o in ops]
    kinds = set(o[0] for _, o in ops if o)
    if not kinds:
        sl.closed = lambda n: m0
        return
    if len(kinds) != 1:
        return opaque_map(en, info, sl, paths)
    kind = kinds.pop()
    key = None
    for c, o in ops:
        if o:
            kt = z3.simplify(fin(leafs(o[1])[0]))
            if key is None:
                key = kt
            elif not key.eq(kt):
                return opaque_map(en, info, sl, paths)
    if usesgen(key, info):
        # the loop iterates over this very map: its enumeration is unchanged
        key2 = orig_enum(en, key, sl, m0)
        if key2 is None or usesgen(key2, info):
            return opaque_map(en, info, sl, paths)
        key = key2

    def norm(t):
        t = fin(t)
        t = orig_enum(en, t, sl, m0) if kind == "store" else t
        t = z3.simplify(t) if not _hasq(t) else t
        for r in reads_of(t, sl.gsym):
            if r.decl().name() in (sl.gsym + ".key", sl.gsym + ".pos"):
                raise Unsupported("map enumeration")
            if not z3.simplify(r.arg(r.num_args() - 1)).eq(key):
                raise Unsupported("loop reads other entries of a map it writes")
        return sub_reads(en, t, sl, m0)

    def written(at):
        rw = info.rewrite(at)

        def f(t):
            t = norm(t)
            if usesgen(t, info):
                raise Unsupported("map entry depends on other containers changed by the loop")
            return rw(t)
        r = None
        kk = _std().from_leafs(en, m0.kty, [rw(key)])
        for c, o in reversed(ops):
            x = subst(o[2], f) if o else m0.val(kk)
            r = x if r is None else r if same_value(x, r) else v_ite(E._fold(f(tobool(c))), x, r)
        return r
    try:
        if m0.kind != "set":
            written(k)
    except Unsupported as x:
        LASTX[0] = x
        return opaque_map(en, info, sl, paths)
    if kind == "store":
        # keys visited: inverse of the key function
        inv = inverse(en, info, key, ks, first=True)
        if inv is None:
            return opaque_map(en, info, sl, paths)
        injective = inv[1]
        if not injective:
            return opaque_map(en, info, sl, paths)

        def closed(n):
            def val(x):
                j = inv[0](leafs(x)[0])
                c = E._fold(z3.simplify(z3.And(0 <= j, j < n, info.rewrite(j)(key) == leafs(x)[0])))
                if c is False:
                    return m0.val(x)
                return v_ite(c, written(j), m0.val(x))
            return MapV(m0.n, m0.key, m0.pos, m0.dom, val, m0.kty, m0.vty, m0.kind)
        sl.closed = closed
        return
    if kind == "assign":
        if any(usesgen(l, info) for _, o in ops for l in value_leaves(en, o[2], fin)):
            return opaque_map(en, info, sl, paths)
        w = en.fresh_fn("lastkey", I, ks, I)
        en.freshfns.remove(w.name())
        x, j, nn = z3.Const("_x", ks), z3.Int("_j"), z3.Int("_n")
        kj = info.rewrite(j)(key)
        pats = [z3.MultiPattern(w(nn, x), kj)] if z3.is_app(kj) and kj.num_args() and \
            kj.decl().kind() == z3.Z3_OP_UNINTERPRETED and mentions(kj, j) else []
        en.axiom(("lastk", w.name()), z3.ForAll(
            [nn, j, x], z3.Implies(z3.And(0 <= j, j < nn, kj == x), z3.And(w(nn, x) >= j, w(nn, x) < nn)),
            **({"patterns": pats} if pats else {})))
        en.axiom(("lastk2", w.name()), z3.ForAll(
            [nn, x], z3.Implies(w(nn, x) >= 0, z3.And(w(nn, x) < nn, info.rewrite(w(nn, x))(key) == x)),
            patterns=[w(nn, x)]))
        nm = f"msize!{en.nfresh}"
        en.nfresh += 1

        def closed(n):
            empty = const_of(z3.simplify(m0.n)) == 0

            def hit(x):
                j = w(n, leafs(x)[0])
                return j, j >= 0

            def dom(x):
                return b_or(m0.dom(x), hit(x)[1])

            def val(x):
                j, h = hit(x)
                return written(j) if empty else v_ite(h, written(j), m0.val(x))
            ln = _std().mkint(en, nm, [n])
            en.assume(z3.And(ln <= m0.n + n, ln >= m0.n))
            if empty:
                a, b = en.fresh("ia", I), en.fresh("ib", I)
                lc = [z3.And(0 <= a, a < b, b < n)]
                if info.path is not None and not is_c(info.path):
                    lc += [info.rewrite(a)(info.path), info.rewrite(b)(info.path)]
                if en.check_valid(z3.Implies(z3.And(lc), info.rewrite(a)(key) != info.rewrite(b)(key)), 3000)[0] == "proved":
                    en.assume(ln == n)
            kf, pf = _std().reenumerate(en, ln, dom, m0.kty)
            return MapV(ln, kf, pf, dom, val, m0.kty, m0.vty, m0.kind)
        sl.closed = closed
        return
    if kind == "emplace":
        if any(o is None for _, o in ops):
            return opaque_map(en, info, sl, paths)
        inv = inverse(en, info, key, ks, first=True)
        nm = f"msize!{en.nfresh}"
        en.nfresh += 1

        def closed(n):
            empty = const_of(z3.simplify(m0.n)) == 0

            def hit(x):
                j = inv[0](leafs(x)[0])
                return j, z3.And(0 <= j, j < n, info.rewrite(j)(key) == leafs(x)[0])

            def dom(x):
                j, h = hit(x)
                return b_or(m0.dom(x), h)

            def val(x):
                if m0.kind == "set":
                    return x
                j, h = hit(x)
                if empty:
                    return written(j)
                return v_ite(m0.dom(x), m0.val(x), written(j))
            ln = _std().mkint(en, nm, [n])
            en.assume(z3.And(ln <= m0.n + n, ln >= m0.n))
            if inv[1] and empty:
                en.assume(ln == n)
            kf, pf = _std().reenumerate(en, ln, dom, m0.kty)
            return MapV(ln, kf, pf, dom, val, m0.kty, m0.vty, m0.kind)
        sl.closed = closed
        return
    return opaque_map(en, info, sl, paths)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.rec is b.rec and not a.fields and not b.fields and a.sym and b.sym and a.sym[0] == b.sym[0] \
            and len(a.sym[1]) == len(b.sym[1]) and all(x.eq(y) for x, y in zip(a.sym[1], b.sym[1]))
    try:
        la, lb = flat(a, True)[0], flat(b, True)[0]
    except Unsupported:
        return False
    return len(la) == len(lb) and all(x.eq(y) for x, y in zip(la, lb))


def value_leaves(en, v, fin):
    if isinstance(v, Obj):
        out = []
        for x in (v.sym[1] if v.sym and v.sym[0] != "merge" else []):
            out.append(fin(x))
        for x in v.fields.values():
            out += value_leaves(en, x, fin)
        return out
    return [fin(x) for x in flat(v, True)[0]]


def map_chain(v, sl):
    """operations on top of the generic map: [(kind, key, value)]"""
    out = []
    val, dom = v.val, v.dom
    while val is not sl.gval or dom is not sl.gdom:
        u = getattr(val, "upd", None)
        if u is None:
            return None
        kind, old, key, x = u
        out.append((kind, key, x))
        val = old[0]
        if old[1] is not None:
            dom = old[1]
    out.reverse()
    return out


def orig_enum(en, t, sl, m0):
    """iteration over the map being updated: its key order is the original one"""
    subs = []
    for r in reads_of(t, sl.gsym):
        if r.decl().name() == sl.gsym + ".key":
            subs.append((r, leafs(m0.key(r.arg(0)))[0]))
    t = z3.substitute(t, *subs) if subs else t
    t = z3.substitute(t, (sl.gn, m0.n))
    return t


def inverse(en, info, key, ks, first=True):
    """(x -> index j with key(j) = x, injective?) for the key term of iteration k"""
    k = info.k
    # key function of a container enumeration: its own inverse
    if z3.is_app(key) and key.num_args() and key.decl().name().endswith(".key"):
        d = key.decl()
        last = key.arg(key.num_args() - 1)
        if last.eq(k):
            pos = z3.Function(d.name()[:-4] + ".pos", *[a.sort() for a in key.children()[:-1]], ks, I)
            pre = key.children()[:-1]
            return (lambda x: pos(*pre, x)), True
    e = _std().ENUMS.get(key.decl().name()) if z3.is_app(key) and key.num_args() == 1 else None
    if e is not None and key.arg(0).eq(k):
        return (lambda x: e(x)), True
    if key.sort() == I:
        af = affine(key, k)
        if af and not any(mentions(key, c) for c, _ in info.skol):
            s, c = af
            return (lambda x: z3.simplify(x - c) if s == 1 else z3.simplify(c - x)), True
    w = en.fresh_fn("first", ks, I)
    en.freshfns.remove(w.name())
    x, j = z3.Const("_x", ks), z3.Int("_j")
    kj = info.rewrite(j)(key)
    pats = [kj] if z3.is_app(kj) and kj.num_args() and kj.decl().kind() == z3.Z3_OP_UNINTERPRETED and mentions(kj, j) else []
    en.axiom(("first", w.name()), z3.ForAll([j], z3.Implies(j >= 0, z3.And(0 <= w(kj), w(kj) <= j)),
                                            **({"patterns": pats} if pats else {})))
    en.axiom(("first2", w.name()), z3.ForAll([x], z3.Implies(w(x) >= 0, info.rewrite(w(x))(key) == x), patterns=[w(x)]))
    return (lambda t: w(t)), False


# ------------------------------------------------------------------ invariants supplied by a contract
def havoc_value(en, ty, v, name):
    """an arbitrary value of the same type"""
    if isinstance(v, Obj):
        o = Obj(v.rec, {}, (name, []), v.ident)
        o.extra = v.extra
        return o
    if isinstance(v, bool) or (z3.is_expr(v) and v.sort() == B):
        return en.fresh(name, B)
    if isinstance(v, Tup):
        return Tup([havoc_value(en, None, x, name) for x in v.v], v.kind)
    if isinstance(v, Opt) and v.v is not None:
        return Opt(en.fresh(name, B), havoc_value(en, None, v.v, name))
    if isinstance(v, Var):
        i = en.fresh(name, I)
        en.assume(z3.And(i >= 0, i < len(v.alts)))
        return Var(i, [havoc_value(en, None, x, name) if x is not None else None for x in v.alts])
    if isinstance(v, (Seq, MapV)):
        sl = Slot(v, "seq" if isinstance(v, Seq) else "map")
        sl.kind = sl.name
        w = en.copy(v)
        sl.o = w
        generic(en, sl, None)
        r = en.copy(w)
        if isinstance(v, Seq):
            en.assume(r.n >= 0)
        else:
            key, pos = _std().reenumerate(en, r.n, r.dom, r.kty)
            r = MapV(r.n, key, pos, r.dom, r.val, r.kty, r.vty, r.kind)
        return r
    if isinstance(v, Opaque) and v.kind != "rng":
        return v
    if v is None:
        if ty is None:
            raise Unsupported("loop-carried variable without a type")
        return en.mk(ty, f"{name}!{en.fresh('n', I)}")
    if ty is not None and ty["k"] in ("int", "enum"):
        return en.mk(ty, str(en.fresh(name, I)))
    if isinstance(v, Ptr) and v.to is None:
        v = Ptr(v.id, v.loc, pointee(en, ty, v), v.smart)
    ls, rb = flat(v, not allfinite(en, v))
    return rb([en.fresh(name, l.sort()) for l in ls])


def pointee(en, ty, v):
    if ty is not None and ty["k"] == "ptr":
        return en.prog.types[ty["tu"]][ty["to"]]
    if isinstance(v.loc, LBox) and isinstance(v.loc.b.v, Obj):
        r = v.loc.b.v.rec
        for t in en.prog.types[r["tu"]]:
            if t["k"] == "rec" and t["q"] == r["q"]:
                return t
    return None


def havoc_slot(en, o, slot):
    if isinstance(o, (Seq, MapV, Tup, Opt, Var)):
        w = havoc_value(en, None, o, "hv")
        for s in en.STATE[type(o)]:
            en.setslot(o, s, getattr(w, s))
        return
    if slot == "sym":           # assigned as a whole
        for k in list(o.fields):
            en.setslot(o, k, havoc_value(en, field_type(en, o, k), o.fields[k], k))
        en.trail.append((_SymSlot(o), "sym", o.sym))
        o.sym = (str(en.fresh("hv", I)), [])
        return
    if isinstance(o, Obj):
        en.setslot(o, slot, havoc_value(en, field_type(en, o, slot), en.field(o, slot), slot))
        return
    en.setslot(o, slot, havoc_value(en, getattr(o, "ty", None), getattr(o, slot), getattr(o, "name", None) or "v"))


def field_type(en, o, k):
    r = en.find_field(o.rec, k)
    if r is None:
        return None
    t = en.tyof(r[0]["tu"], r[1]["type"])
    return t


def inv_loop(en, cond, body, inv=None, start=None, post=None, left=None, guess=None):
    """loop rule with an invariant: inv(en) -> [(name, formula)] or [(name, formula at arbitrary constants, the same
    formula quantified)], about the state and the number K of
    iterations done (en.gget("K")); start(en) prepares the specification state of one iteration, post(en)
    proves what each completed iteration does, left(en) what an iteration that leaves the loop has done;
    guess(en) -> {key: formula} are facts used as invariants as far as they turn out to be inductive"""
    inv = inv or (lambda en: [])
    kept = set()
    if guess:
        kept = {k for k, f in guess(en).items() if en.check_valid(tobool(f), en.prove_timeout)[0] == "proved"}
    en.gset("K", z3.IntVal(0))
    for nm, f, *_ in inv(en):
        en.prove(f, nm + " (before the first iteration)", "invariant")
    slots, steps = {}, {}

    def havoc(K):
        for key, (o, slot) in slots.items():
            st = steps.get(key)
            if st is not None:
                en.setslot(o, slot, z3.simplify(st[0] + st[1] * K))
            else:
                havoc_slot(en, o, slot)
        en.gset("K", K)
        if start:
            start(en)
        for x in inv(en):
            en.assume(x[-1])
        if guess:
            for k, f in guess(en).items():
                if k in kept:
                    en.assume(f)

    def scalar_int(v):
        return z3.is_expr(v) and v.sort() == I and not isinstance(v, bool)
    settled = False
    for attempt in range(12):
        mark, stamp0 = len(en.trail), Obj._n
        npc, nsolver = len(en.pc), None
        found, ends, dropped = {}, [], set()
        en.silent += 1
        en.solver.push()
        try:
            K = en.fresh("K", I)
            en.assume(K >= 0)
            havoc(K)
            mark0 = len(en.trail)

            def thunk():
                if not en.branch(cond()):
                    raise PathEnd("loop-done")
                body()

            def on_path(out):
                if out[0] not in ("ok", "cont"):
                    return
                if guess:
                    for k, f in guess(en).items():
                        if k in kept and en.check_valid(tobool(f), en.prove_timeout)[0] != "proved":
                            dropped.add(k)
                for o, slot, old in en.trail[mark0:]:
                    if isinstance(o, _SymSlot):
                        o, slot = o.o, "sym"
                    if getattr(o, "stamp", 0) > stamp0 or o is en.ghost:
                        continue
                    if isinstance(o, (Seq, MapV, Tup, Opt, Var)):
                        slot = "*"
                    key = (id(o), slot)
                    if key not in slots:
                        found[key] = (o, slot)
                ends.append({key: getattr(o, slot, None) if not isinstance(o, Obj) else o.fields.get(slot)
                             for key, (o, slot) in slots.items() if slot not in ("*", "sym")})
            begins = {key: getattr(o, slot, None) if not isinstance(o, Obj) else o.fields.get(slot)
                      for key, (o, slot) in slots.items() if slot not in ("*", "sym")}
            en.explore(thunk, on_path, limit=2000)
        finally:
            en.silent -= 1
            en.undo(mark)
            del en.pc[npc:]
            en.solver.pop()
        if found or dropped:
            slots.update(found)
            kept -= dropped
            steps.clear()
            settled = False
            continue
        if settled:
            break
        # counters: the same constant step on every path
        new = {}
        for key, (o, slot) in slots.items():
            if slot in ("*", "sym") or not ends:
                continue
            b = begins[key]
            if not scalar_int(b) or not all(scalar_int(e[key]) for e in ends):
                continue
            ds = {str(z3.simplify(e[key] - b)) for e in ends}
            d = const_of(z3.simplify(ends[0][key] - b))
            if len(ds) == 1 and d is not None:
                cur = o.fields.get(slot) if isinstance(o, Obj) else getattr(o, slot)
                if scalar_int(cur):
                    new[key] = (cur, d)
        settled = True
        if not new:
            break
        steps.update(new)
    else:
        raise Unsupported("loop invariant: the set of changed variables does not settle")
    K = en.fresh("K", I)
    en.assume(K >= 0)
    if steps:                     # the previous iteration went on
        mark = len(en.trail)
        c = None
        nd = len(en.decs[-1].taken)
        npc = len(en.pc)
        en.silent += 1
        en.solver.push()
        try:
            havoc(z3.simplify(K - 1))
            box = []
            n0 = len(en.pc)
            en.explore(lambda: box.append((len(en.pc), cond())), lambda out: box.append(list(en.pc[n0:])) if out[0] == "ok" else None, limit=20)
            alts = []
            for i in range(0, len(box), 2):
                cv = box[i][1]
                alts.append(z3.And(*box[i + 1], tobool(cv)))
            if alts and len(box) % 2 == 0:
                c = z3.Or(*alts)
        except Unsupported:
            c = None
        finally:
            en.silent -= 1
            en.undo(mark)
            del en.pc[npc:]
            en.solver.pop()
        if c is not None and not _hasq(c):
            en.assume(z3.Implies(K > 0, c))
    havoc(K)
    if en.branch(cond()):
        try:
            try:
                body()
            except Cont:
                pass
        except Brk:
            if left:
                left(en)
            return True
        if post:
            post(en)
        en.gset("K", z3.simplify(K + 1))
        for nm, f, *_ in inv(en):
            en.prove(f, nm + " (carried over to the next iteration)", "invariant")
        if guess:
            for k, f in guess(en).items():
                if k in kept:
                    en.prove(f, str(k) + " (carried over to the next iteration)", "invariant")
        raise PathEnd("loop iteration")
    return True
