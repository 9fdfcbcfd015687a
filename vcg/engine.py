"""Symbolic executor / VC generator over the exported clang AST.

Every function is executed symbolically from its exported body; calls to
functions that have a contract use the contract, other calls with a body are
inlined, library calls use the models in stdmodel.py. Obligations go to z3 and,
when z3 gives up, to cvc5.
"""
import os, sys, time
import z3
from values import *

sys.setrecursionlimit(20000)
z3.set_param("memory_max_size", 6000)


class Ret(Exception):
    def __init__(self, v): self.v = v
_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
          z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR,
          z3.Z3_OP_ANUM, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_TO_REAL, z3.Z3_OP_IFF, z3.Z3_OP_POWER}
_AT = {}


def _atoms(f):
    """ids of the maximal subterms that are not arithmetic or propositional operations"""
    i = f.get_id()
    if i in _AT:
        return _AT[i][1]
    if z3.is_app(f) and f.decl().kind() in _ARITH:
        r = frozenset().union(*[_atoms(x) for x in f.children()]) if f.num_args() else frozenset()
    else:
        r = frozenset([i])
    _AT[i] = (f, r)
    return r


def _atoms_terms(f):
    return [_AT[i][0] for i in _atoms(f)]


_NL = {}


def _nonlinear(f):
    i = f.get_id()
    if i in _NL:
        return _NL[i][1]
    r = False
    if z3.is_app(f):
        k = f.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for x in f.children() if not z3.is_rational_value(x) and not z3.is_int_value(x)) > 1:
            r = True
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(f.arg(1)):
            r = True
        else:
            r = any(_nonlinear(x) for x in f.children())
    _NL[i] = (f, r)
    return r


SLOW = bool(os.environ.get("VCG_SLOW"))


class Brk(Exception): pass
class Cont(Exception): pass
class CppThrow(Exception):
    def __init__(self, what="", ty=""): self.what, self.ty = what, ty
class PathEnd(Exception):
    """this path needs no further execution (infeasible, aborted, or covered elsewhere)"""
    def __init__(self, why=""): self.why = why
class NoVerdict(Exception): pass


# ---- locations
class Loc:
    pass
class LBox(Loc):
    __slots__ = ("b",)
    def __init__(self, b): self.b = b
class LField(Loc):
    __slots__ = ("p", "f")
    def __init__(self, p, f): self.p, self.f = p, f
class LElem(Loc):
    __slots__ = ("c", "i")
    def __init__(self, c, i): self.c, self.i = c, i      # c: Loc of Seq
class LMap(Loc):
    __slots__ = ("c", "k")
    def __init__(self, c, k): self.c, self.k = c, k      # c: Loc of MapV, k key value
class LTup(Loc):
    __slots__ = ("p", "i")
    def __init__(self, p, i): self.p, self.i = p, i
class LOpt(Loc):
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
class LVar(Loc):
    __slots__ = ("p", "i")
    def __init__(self, p, i): self.p, self.i = p, i


class Dec:
    def __init__(self, prefix, work):
        self.prefix, self.work, self.taken = prefix, work, []

    @property
    def replay(self):
        return len(self.taken) < len(self.prefix)


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "model", "loc", "fn", "smt", "kind")

    def __init__(self, name, status, backend, t, model=None, loc="", fn="", smt=None, kind=""):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.model, self.loc, self.fn, self.smt, self.kind = model, loc, fn, smt, kind


def leafs(v, out=None):
    """z3 leaves of a value (finite reals assumed for FV)"""
    out = [] if out is None else out
    if isinstance(v, bool):
        out.append(z3.BoolVal(v))
    elif z3.is_expr(v):
        out.append(v)
    elif isinstance(v, FV):
        out.append(v.r)
        if not v.finite:
            out.extend([tobool(v.nan), tobool(v.pinf), tobool(v.ninf)])
    elif isinstance(v, Ptr):
        out.append(v.id)
    elif isinstance(v, Str):
        out.append(v.t)
    elif isinstance(v, XNode):
        out.append(v.id)
    elif isinstance(v, Tup):
        for x in v.v:
            leafs(x, out)
    elif isinstance(v, Var):
        out.append(v.idx)
        for x in v.alts:
            leafs(x, out)
    elif isinstance(v, Iter):
        out.append(v.i)
    else:
        raise Unsupported(f"leaves of {type(v).__name__}")
    return out


_strcode = {"": 0}


def strcode(s):
    if s not in _strcode:
        _strcode[s] = len(_strcode)
    return _strcode[s]


def mkstr(s):
    return Str(z3.IntVal(strcode(s)), s)


class Engine:
    def __init__(self, prog, contracts=None, budget=None):
        self.prog = prog
        self.contracts = dict(contracts or {})
        self.obligations = []
        self.axioms = []          # symbol-level axioms
        self.axkeys = set()
        self.nfresh = 0
        self.used_contracts, self.inlined, self.models = set(), set(), set()
        self.assumed = set()
        self.deadline = time.time() + budget if budget else None
        self.prove_timeout = 10000
        self.solver_time = 0.0
        self.covers = {}
        self.merge_arms = False
        self.assert_mode = "prove"
        self.foci = {}
        self.loop_hook = None     # contract-provided rule for non-counting loops
        self.call_hook = None
        self.loop_hints = None
        self.throw_ok = True
        self.silent = 0
        self.freshfns = []
        self.opaque_notes = set()
        self.reset()

    def reset(self):
        self.pc, self.trail, self.decs = [], [], []
        self.frames, self.heap = [], {}
        self.ghost = Box({}, "ghost")
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.npushed = 0
        self.freshlog = []
        self.sums = {}
        self.addr = 1000000
        self.prev_ob = None
        self.statics = {}
        self.roots = []
        self.base = []

    # ---------------------------------------------------------------- basics
    def fresh(self, name, sort=R):
        self.nfresh += 1
        c = z3.Const(f"{name}!{self.nfresh}", sort)
        self.freshlog.append(c)
        return c

    def fresh_fn(self, name, *sorts):
        self.nfresh += 1
        self.freshfns.append(f"{name}!{self.nfresh}")
        return z3.Function(f"{name}!{self.nfresh}", *sorts)

    def note_opaque(self, label):
        self.opaque_notes.add(label)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this function used up")

    def assume(self, c, why=None):
        c = _fold(c) if not z3.is_expr(c) else c
        if c is True:
            return
        if c is False:
            raise PathEnd("assumed false")
        c = z3.simplify(c) if not z3.is_quantifier(c) and not _hasq(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd("assumed false")
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)
        if not _hasq(c):
            self.solver.add(c)
        if why:
            self.assumed.add(why)

    def axiom(self, key, f):
        """symbol-level axiom, added once"""
        if key in self.axkeys:
            return
        self.axkeys.add(key)
        self.axioms.append(f)

    # ---------------------------------------------------------------- state
    def setslot(self, o, slot, v):
        self.trail.append((o, slot, o.fields.get(slot, self) if isinstance(o, Obj) and slot != "#" else getattr(o, slot)))
        if isinstance(o, Obj) and slot != "#":
            o.fields[slot] = v
        else:
            setattr(o, slot, v)

    def undo(self, mark):
        while len(self.trail) > mark:
            o, slot, old = self.trail.pop()
            if isinstance(o, Obj) and slot != "#":
                if old is self:
                    o.fields.pop(slot, None)
                else:
                    o.fields[slot] = old
            else:
                setattr(o, slot, old)

    def gset(self, key, v):
        d = dict(self.ghost.v)
        d[key] = v
        self.setslot(self.ghost, "v", d)

    def gget(self, key, default=None):
        return self.ghost.v.get(key, default)

    def new_addr(self):
        self.addr += 1
        return z3.IntVal(self.addr)

    # ---------------------------------------------------------------- paths
    def explore(self, thunk, on_path, limit=4000):
        work, n = [[]], 0
        while work:
            self.tick()
            prefix = work.pop()
            n += 1
            if n > limit:
                raise Unsupported("too many paths")
            mark, npc = len(self.trail), len(self.pc)
            nfr = len(self.frames)
            self.solver.push()
            self.decs.append(Dec(prefix, work))
            try:
                try:
                    out = ("ok", thunk())
                except Ret as r:
                    out = ("ret", r.v)
                except Brk:
                    out = ("brk", None)
                except Cont:
                    out = ("cont", None)
                except CppThrow as t:
                    out = ("throw", t)
                except PathEnd as p:
                    out = ("end", p.why)
                on_path(out)
            finally:
                self.decs.pop()
                del self.frames[nfr:]
                self.undo(mark)
                del self.pc[npc:]
                self.solver.pop()
        return n

    @property
    def replaying(self):
        return any(d.replay for d in self.decs)

    def choose(self, n=2):
        """nondeterministic choice among n continuations"""
        if not self.decs:
            raise Unsupported("choice outside a path")
        d = self.decs[-1]
        if d.replay:
            c = d.prefix[len(d.taken)]
        else:
            c = 0
            for x in range(1, n):
                d.work.append(d.taken + [x])
        d.taken.append(c)
        return c

    def refuted_by_slice(self, c):
        """c contradicts those facts that speak of nothing but the terms of c (sound: fewer facts)"""
        at = _atoms(c)
        if not at or len(at) > 12:
            return False
        fs = [f for f in self.pc if not _hasq(f) and _atoms(f) <= at]
        s = z3.Solver()
        s.set("timeout", 200)

        def ab(f):
            return z3.substitute(f, *[(v, z3.Const("a%d" % i, v.sort())) for i, v in enumerate(_atoms_terms(c))])
        s.add([ab(f) for f in fs])
        s.add(ab(c))
        return s.check() == z3.unsat

    def feasible(self, c):
        t = time.time()
        if _nonlinear(c) and self.refuted_by_slice(c):
            self.solver_time += time.time() - t
            return False
        r = self.solver.check(c)
        self.solver_time += time.time() - t
        if SLOW and time.time() - t > 0.3:
            print(f"slow branch {time.time() - t:.1f} {r} {self.frames[-1].get('loc', '') if self.frames else ''} {str(c)[:300]}", flush=True)
        return r != z3.unsat

    def valid_quick(self, c):
        """pc entails c, by a quick check"""
        c = _fold(c)
        if is_c(c):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible(z3.BoolVal(True))
        return not self.feasible(z3.Not(c))

    def branch(self, c):
        c = _fold(c)
        if is_c(c):
            return c
        c = z3.simplify(c) if not _hasq(c) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        if not self.decs:
            raise Unsupported("branch outside a path")
        d = self.decs[-1]
        if d.replay:
            v = d.prefix[len(d.taken)]
            if v == 2 or v == 3:       # forced earlier by infeasibility
                d.taken.append(v)
                self.assume(c if v == 2 else z3.Not(c))
                return v == 2
        else:
            hq = _hasq(c)
            t = hq or self.feasible(c)
            f = hq or self.feasible(z3.Not(c))
            if not t and not f:
                raise PathEnd("infeasible")
            if not f:
                d.taken.append(2)
                self.assume(c)
                return True
            if not t:
                d.taken.append(3)
                self.assume(z3.Not(c))
                return False
            v = 1
            d.work.append(d.taken + [0])
        d.taken.append(v)
        self.assume(c if v else z3.Not(c))
        return bool(v)

    # ---------------------------------------------------------------- proving
    def prove(self, goal, name, kind="ensures", timeout=None, assume_after=True, quiet=False):
        goal = _fold(goal)
        if self.silent or (quiet is False and self.replaying):
            if assume_after:
                self.assume(goal) if goal is not False else None
            return True
        fn = self.frames[0]["fn"] if self.frames else ""
        loc = self.frames[-1].get("loc", "") if self.frames else ""
        t = time.time()
        if z3.is_expr(goal) and z3.is_true(z3.simplify(goal)):
            goal = True
        if goal is True:
            st, be, model, smt = "proved", "trivial", None, None
        else:
            st, be, model, smt = self.check_valid(tobool(goal), timeout or self.prove_timeout)
        dt = time.time() - t
        self.solver_time += dt
        if SLOW and dt > 1:
            print(f"slow {dt:.1f} {st} {name} {loc} {goal if len(str(goal)) < 300 else str(goal)[:300]}", flush=True)
        if not quiet:
            self.obligations.append(Obligation(name, st, be, dt, model, loc, fn, smt, kind))
        if assume_after and st != "proved" and not quiet:
            pass
        if assume_after and goal is not True:
            try:
                self.assume(goal)
            except PathEnd:
                if st == "proved":
                    raise
                raise PathEnd("failed obligation")
        return st == "proved"

    def prove_identity(self, a, b, name, rules=(), defs=(), timeout=2500):
        """a == b, as an identity of rational functions and square roots if possible"""
        import algebra
        t = time.time()
        if not self.silent and not self.replaying and algebra.same(self, a, b, rules, defs):
            fn = self.frames[0]["fn"] if self.frames else ""
            loc = self.frames[-1].get("loc", "") if self.frames else ""
            dt = time.time() - t
            self.solver_time += dt
            self.obligations.append(Obligation(name, "proved", "sympy", dt, None, loc, fn, None, "ensures"))
            self.assume(a == b)
            return True
        return self.prove(a == b, name, timeout=timeout)

    def relevant(self, fs):
        """axioms whose symbols occur (transitively) in fs"""
        syms = set()
        for f in fs:
            syms |= symbols(f)
        out, rest = [], [(a, symbols(a)) for a in self.axioms]
        changed = True
        while changed:
            changed = False
            nxt = []
            for a, sy in rest:
                if sy & syms or not sy:
                    out.append(a)
                    if not sy <= syms:
                        syms |= sy
                        changed = True
                else:
                    nxt.append((a, sy))
            rest = nxt
        return out

    def check_valid(self, goal, timeout):
        """-> status, backend, model, smt"""
        import backend, loops
        fs = list(self.pc) + [z3.Not(goal)]
        if loops.SUMS:
            def quick(c, more=()):
                s = z3.Solver()
                s.set("timeout", 1500)
                g = list(self.pc) + list(more) + [z3.Not(c)]
                s.add(self.relevant(g))
                s.add(g)
                return s.check() == z3.unsat
            for rnd in range(2):
                n = len(fs)
                have = set(f.get_id() for f in fs)
                fs += [f for f in loops.sum_facts(fs, quick if rnd == 0 else None) if f.get_id() not in have]
                if len(fs) == n:
                    break
        fs = self.relevant(fs) + fs
        r = backend.check(fs, timeout)
        if r[0] == "failed" and any(x.startswith("opq!") for f in fs for x in symbols(f)):
            return ("unknown", r[1], r[2], r[3])
        return r

    def cover(self, name):
        """reachability: some path reaches this point with a consistent context"""
        if self.covers.get(name, "unsat") != "unsat":
            return
        import backend
        fs = list(self.pc)
        st = backend.satisfiable(self.relevant(fs) + fs)
        self.covers[name] = st

    # ---------------------------------------------------------------- symbols
    def tyof(self, tu, i):
        return self.prog.types[tu][i]

    def targ(self, ty, n):
        return self.prog.types[ty["tu"]][ty["targs"][n]["type"]]

    def mk(self, ty, name, args=()):
        """symbolic value of a type, a function of args"""
        import stdmodel
        args = list(args)
        k = ty["k"]

        def sym(sort, nm=name):
            if not args:
                return z3.Const(nm, sort)
            return z3.Function(nm, *[a.sort() for a in args], sort)(*args)
        if k == "bool":
            return sym(B)
        if k == "int":
            t = sym(I)
            self.range_axiom(name, t, args, 0 if not ty["signed"] else -(1 << ty["bits"] - 1),
                             (1 << ty["bits"]) - 1 if not ty["signed"] else (1 << ty["bits"] - 1) - 1)
            return t
        if k == "float":
            return FV(sym(R))
        if k == "enum":
            t = sym(I)
            vals = self.prog.enums[ty["q"]].values()
            self.range_axiom(name, t, args, min(vals), max(vals))
            return t
        if k == "ref":
            return self.mk(self.tyof(ty["tu"], ty["to"]), name, args)
        if k == "ptr":
            to = self.tyof(ty["tu"], ty["to"])
            if to["k"] == "int" and to["bits"] == 8:
                return Str(sym(I))
            t = sym(I)
            self.range_axiom(name, t, args, 0, None)
            return Ptr(t, None, to)
        if k == "rec":
            q = ty["q"]
            r = stdmodel.mk_std(self, ty, name, args)
            if r is not None:
                return r
            rec = self.prog.record_of(ty)
            if rec is None:
                return Opaque(q)
            return Obj(rec, {}, (name, args))
        if k == "arr":
            el = self.tyof(ty["tu"], ty["to"])
            return Seq(ty["n"], lambda i: self.mk(el, name + "[]", args + [i]), el, "array")
        raise Unsupported(f"symbolic value of type {ty['s']}")

    def range_axiom(self, name, t, args, lo, hi):
        if not args:
            key = ("range", name)
            if lo is not None:
                self.axiom(key, z3.And(t >= lo, t <= hi) if hi is not None else t >= lo)
            # ground facts are also useful for the branch solver
            if lo is not None:
                self.solver.add(t >= lo)
            return
        f = t.decl()
        key = ("range", name, tuple(a.sort().name() for a in args))
        if key in self.axkeys:
            return
        vs = [z3.Const(f"_q{j}", a.sort()) for j, a in enumerate(args)]
        body = f(*vs) >= lo if hi is None else z3.And(f(*vs) >= lo, f(*vs) <= hi)
        self.axiom(key, z3.ForAll(vs, body, patterns=[f(*vs)]))

    def field(self, o, fname):
        """read a field of an object, creating it from the object's symbol"""
        if fname in o.fields:
            return o.fields[fname]
        if o.sym is None:
            raise Unsupported(f"read of uninitialised field {o.rec['q']}::{fname}")
        if o.sym[0] == "merge" and len(o.sym) == 4:
            _, c, a, b = o.sym
            v = v_ite(c, self.field(a, fname), self.field(b, fname))
        else:
            rec, f = self.find_field(o.rec, fname)
            v = self.mk(self.tyof(rec["tu"], f["type"]), f"{rec['q'] if o.sym[0] in self.prog.recname else o.sym[0]}.{fname}", o.sym[1])
        age(v, o.stamp)
        o.fields[fname] = v
        return v

    def find_field(self, rec, fname):
        for f in rec["fields"]:
            if f["name"] == fname:
                return rec, f
        for b in rec["bases"]:
            br = self.prog.record_of(self.tyof(rec["tu"], b))
            if br:
                r = self.find_field(br, fname)
                if r:
                    return r
        return None

    def all_fields(self, rec):
        for b in rec["bases"]:
            br = self.prog.record_of(self.tyof(rec["tu"], b))
            if br:
                yield from self.all_fields(br)
        for f in rec["fields"]:
            yield rec, f

    def symobj(self, recq, name, args=()):
        rec = self.prog.recname[recq][0]
        return Obj(rec, {}, (name, list(args)))

    # ---------------------------------------------------------------- memory
    def live(self, l):
        if isinstance(l, LBox):
            return True
        if isinstance(l, (LField, LTup, LOpt, LVar)):
            return self.live(l.p)
        if isinstance(l, LElem) and self.foci:
            return self.focus_of(self.load(l.c), l.i) is not None
        return False

    # one element of a container taken out of it for the time of one loop iteration (the first one written to)
    def focus_of(self, s, i):
        f = self.foci.get(id(s))
        if f is None:
            return None
        if f.v is None:
            old, box = s.elem, Box(self.copy(s.elem(i)), "focus")
            self.setslot(s, "elem", lambda j: v_ite(j == i, box.v, old(j)))
            self.setslot(f, "v", (i, box, old, s.elem))
            return box
        return f.v[1] if const_of(z3.simplify(i - f.v[0])) == 0 else None

    def focused(self, loc, thunk):
        """run thunk with one element of the sequence at loc updated in place"""
        s = self.load(loc)
        if id(s) in self.foci:
            raise Unsupported("two elements of one container in use")
        f = self.foci[id(s)] = Box(None, "focus")
        try:
            r = thunk()
        finally:
            del self.foci[id(s)]
        if f.v is not None:
            i, box, old, mine = f.v
            if s.elem is not mine:
                raise Unsupported("a container changes while one of its elements is in use")
            self.setslot(s, "elem", upd(old, i, self.copy(box.v)))
        return r

    def load(self, l):
        if not isinstance(l, Loc):
            return l
        if isinstance(l, LBox):
            if l.b.v is None:
                raise Unsupported(f"read of uninitialised variable {l.b.name}")
            return l.b.v
        if isinstance(l, LField):
            o = self.load(l.p)
            if not isinstance(o, Obj):
                raise Unsupported(f"field {l.f} of {type(o).__name__}")
            return self.field(o, l.f)
        if isinstance(l, LElem):
            s = self.load(l.c)
            if self.foci:
                f = self.focus_of(s, l.i)
                if f is not None:
                    return f.v
            return s.elem(l.i)
        if isinstance(l, LMap):
            m = self.load(l.c)
            return m.val(l.k)
        if isinstance(l, LTup):
            return self.load(l.p).v[l.i]
        if isinstance(l, LOpt):
            return self.load(l.p).v
        if isinstance(l, LVar):
            return self.load(l.p).alts[l.i]
        raise Unsupported("load")

    def copy(self, v):
        if isinstance(v, Obj):
            o = Obj(v.rec, {k: self.copy(x) for k, x in v.fields.items()}, v.sym, v.ident)
            o.extra = v.extra
            return o
        if isinstance(v, Seq):
            if id(v) in self.foci:
                raise Unsupported("copy of a container while one of its elements is in use")
            return Seq(v.n, v.elem, v.elty, v.kind)
        if isinstance(v, MapV):
            m = MapV(v.n, v.key, v.pos, v.dom, v.val, v.kty, v.vty, v.kind)
            m.default = v.default
            return m
        if isinstance(v, Tup):
            return Tup([self.copy(x) for x in v.v], v.kind)
        if isinstance(v, Opt):
            return Opt(v.has, self.copy(v.v) if v.v is not None else None)
        if isinstance(v, Var):
            return Var(v.idx, [self.copy(x) for x in v.alts])
        return v

    STATE = {Seq: ("n", "elem"), MapV: ("n", "key", "pos", "dom", "val"), Tup: ("v",),
             Opt: ("has", "v"), Var: ("idx", "alts")}

    def into(self, cur, v):
        """assign aggregate state in place, keeping the identity of cur"""
        if isinstance(cur, Obj):
            keys = list(cur.fields)
            for k in keys:
                if k not in v.fields and v.sym is None:
                    continue
            if cur.sym is not v.sym:
                self.setslot(cur, "#", None) if False else None
                self.trail.append((_SymSlot(cur), "sym", cur.sym))
                cur.sym = v.sym
            for k in keys:
                if k not in v.fields:
                    if v.sym is not None:
                        self.setslot(cur, k, self.copy(self.field(v, k)))
            for k, x in list(v.fields.items()):
                self.setslot(cur, k, self.copy(x))
            return
        for s in self.STATE[type(cur)]:
            self.setslot(cur, s, getattr(v, s))

    def store(self, l, v):
        if v is None:
            raise Unsupported("store of no value")
        if isinstance(l, LBox):
            cur = l.b.v
            if type(cur) in self.STATE or isinstance(cur, Obj):
                if type(cur) is type(v):
                    if cur is not v:
                        self.into(cur, v)
                    return
            self.setslot(l.b, "v", v)
        elif isinstance(l, LField):
            o = self.load(l.p)
            if self.live(l.p):
                cur = o.fields.get(l.f)
                if cur is not None and (type(cur) in self.STATE or isinstance(cur, Obj)) and type(cur) is type(v):
                    if cur is not v:
                        self.into(cur, v)
                    return
                self.setslot(o, l.f, v)
            else:
                o = self.copy(o)
                o.fields[l.f] = v
                self.store(l.p, o)
        elif isinstance(l, LTup):
            t = self.load(l.p)
            nv = list(t.v)
            nv[l.i] = v
            if self.live(l.p):
                self.setslot(t, "v", nv)
            else:
                self.store(l.p, Tup(nv, t.kind))
        elif isinstance(l, LVar):
            t = self.load(l.p)
            nv = list(t.alts)
            nv[l.i] = v
            if self.live(l.p):
                self.setslot(t, "alts", nv)
            else:
                self.store(l.p, Var(t.idx, nv))
        elif isinstance(l, LOpt):
            t = self.load(l.p)
            self.store(l.p, Opt(t.has, v))
        elif isinstance(l, LElem):
            s = self.load(l.c)
            if self.foci and id(s) in self.foci:
                f = self.focus_of(s, l.i)
                if f is None:
                    raise Unsupported("store to another element of a container in use")
                return self.store(LBox(f), v)
            self.store(l.c, Seq(s.n, upd(s.elem, l.i, self.copy(v)), s.elty, s.kind))
        elif isinstance(l, LMap):
            m = self.load(l.c)
            kl = leafs(l.k)
            old, vv = m.val, self.copy(v)

            def val(k, old=old, vv=vv, kl=kl):
                return v_ite(same_leafs(leafs(k), kl), vv, old(k))
            val.upd = ("store", (old, None), l.k, vv)
            self.store(l.c, MapV(m.n, m.key, m.pos, m.dom, val, m.kty, m.vty, m.kind))
        else:
            raise Unsupported("store")

    def same_place(self, a, b):
        """two locations that are certainly the same"""
        if type(a) is not type(b):
            return False
        if isinstance(a, LBox):
            return a.b is b.b
        if isinstance(a, LField):
            return a.f == b.f and self.same_place(a.p, b.p)
        if isinstance(a, LElem):
            d = z3.simplify(a.i == b.i)
            return z3.is_true(d) and self.same_place(a.c, b.c)
        return False

    def ptr_to(self, l, to=None):
        """address of a location"""
        if isinstance(l, LBox):
            if isinstance(l.b.v, Obj) and l.b.v.ident is not None:
                return Ptr(l.b.v.ident, l, to)
            for p in self.heap.values():
                if p[0] is l.b:
                    return Ptr(p[1], l, to)
            a = self.new_addr()
            self.heap[("addr", a.as_long())] = (l.b, a)
            return Ptr(a, l, to)
        o = self.load(l)
        if isinstance(o, Obj):
            if o.ident is None:
                o.ident = self.new_addr() if o.sym is None or o.sym[0] == "merge" else self.sym_ident(o)
            return Ptr(o.ident, l, to)
        return Ptr(self.fresh("addr", I), l, to)

    def sym_ident(self, o):
        name, args = o.sym
        nm = name + ".&"
        t = z3.Const(nm, I) if not args else z3.Function(nm, *[a.sort() for a in args], I)(*args)
        self.range_axiom(nm, t, args, 1, None)
        return t

    def deref(self, p, name="null-deref"):
        if isinstance(p, Loc):
            p = self.load(p)
        if isinstance(p, Iter):
            return self.iter_loc(p)
        if isinstance(p, Opt):
            raise Unsupported("deref of optional without location")
        if not isinstance(p, Ptr):
            raise Unsupported(f"deref of {type(p).__name__}")
        c = const_of(p.id)
        if c == 0:
            self.prove(False, name, "safety")
            raise PathEnd("null dereference")
        if c is None:
            self.prove(p.id != 0, name, "safety")
        if isinstance(p.loc, tuple):
            _, cnd, a, b = p.loc
            return self.deref(a if self.branch(cnd) else b, name)
        if p.loc is not None:
            return p.loc
        return LBox(self.heap_box(p))

    def heap_box(self, p):
        if p.to is None or p.to["k"] != "rec":
            raise Unsupported("deref of an untyped pointer")
        rec = self.prog.record_of(p.to)
        if rec is None:
            raise Unsupported(f"deref of pointer to {p.to['s']}")
        key = (self.root_class(rec), p.id.get_id())
        if key in self.heap:
            o = self.heap[key][0].v
            if o.rec is not rec and o.rec["q"] != rec["q"] and self.is_base(o.rec["q"], rec):
                o.rec = rec
        if key not in self.heap:
            b = Box(Obj(rec, {}, (rec["q"], [p.id]), p.id), "heap")
            b.stamp = b.v.stamp = -1
            self.heap[key] = (b, p.id)
        return self.heap[key][0]

    def root_class(self, rec):
        while rec["bases"]:
            b = self.prog.record_of(self.tyof(rec["tu"], rec["bases"][0]))
            if b is None:
                break
            rec = b
        return rec["q"]

    def is_base(self, q, rec):
        for b in rec["bases"]:
            br = self.prog.record_of(self.tyof(rec["tu"], b))
            if br and (br["q"] == q or self.is_base(q, br)):
                return True
        return False

    def iter_loc(self, it):
        c = self.load(it.c)
        if isinstance(c, Seq):
            self.prove(b_and(it.i >= 0, it.i < c.n), "iterator dereference in range", "safety")
            return LElem(it.c, it.i)
        if isinstance(c, MapV):
            self.prove(b_and(it.i >= 0, it.i < c.n), "iterator dereference in range", "safety")
            return self.map_entry(it.c, it.i)
        raise Unsupported("iterator dereference")

    def map_entry(self, cl, i):
        """location of the i-th entry of a map: a pair whose second writes through"""
        m = self.load(cl)
        if m.kind == "set":
            return LBox(Box(m.key(i)))
        k = m.key(i)
        return _LEntry(cl, k)

    # ---------------------------------------------------------------- calls
    def lookup_override(self, rec, usr, seen=None):
        """final overrider of virtual method `usr` in class rec"""
        for m in rec["methods"]:
            f = self.prog.funcs.get(m["usr"])
            if m["usr"] == usr:
                return f if f else m
            if f and self.overrides(f, usr):
                return f
        for b in rec["bases"]:
            br = self.prog.record_of(self.tyof(rec["tu"], b))
            if br:
                r = self.lookup_override(br, usr)
                if r:
                    return r
        return None

    def overrides(self, f, usr):
        for o in f.d.get("overrides", ()):
            if o == usr:
                return True
            g = self.prog.funcs.get(o)
            if g and self.overrides(g, usr):
                return True
        return False

    def has_derived(self, rec):
        q = rec["q"]
        for rs in self.prog.recname.values():
            for r in rs:
                for b in r["bases"]:
                    t = self.tyof(r["tu"], b)
                    if t.get("q") == q:
                        return True
        return False

    def invoke(self, tu, callee, this, args, e=None, qualified=False):
        """call by callee reference; this: Loc or None"""
        q = callee["q"]
        usr = self.callee_usr = callee["usr"]
        if self.call_hook:
            r = self.call_hook(self, q, this, args, callee)
            if r is not None:
                return r[0]
        if callee.get("virtual") and not qualified and this is not None:
            o = self.load(this)
            if isinstance(o, Obj):
                if o.sym is None or (o.extra and o.extra.get("exact")) or not self.has_derived(o.rec):
                    f = self.lookup_override(o.rec, usr)
                    if f is not None and not isinstance(f, dict):
                        c = self.contracts.get(f.q)
                        if c and self.frames:
                            r = c(self, this, args)
                            if r is not NotImplemented:
                                self.used_contracts.add(f.q)
                                return r
                        return self.call(f, this, args)
                c = self.contracts.get(q)
                if c:
                    r = c(self, this, args)
                    if r is not NotImplemented:
                        self.used_contracts.add(q)
                        return r
                raise Unsupported(f"virtual call of {q} without an interface contract")
        c = self.contracts.get(q)
        if c and not (len(self.frames) == 0):
            r = c(self, this, args)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        f = self.prog.func(tu, usr)
        if f is None:
            raise Unsupported(f"no body for {q}")
        return self.call(f, this, args)

    def call(self, f, this, args):
        """execute the body of f"""
        self.tick()
        if len(self.frames) > 40:
            raise Unsupported("inlining too deep (recursion?)")
        if f.d.get("implicit") and not f.d.get("ctor") and f.q.endswith("operator="):
            self.store(this, self.copy(self.load(args[0])))
            return this
        if self.frames:
            self.inlined.add(f.q)
        env = {}
        for p, a in zip(f.params, args):
            pt = f.ty(p["type"])
            if pt["k"] == "ref":
                env[p["id"]] = a if isinstance(a, Loc) else LBox(Box(a, p["name"]))
            else:
                env[p["id"]] = LBox(Box(self.copy(self.load(a)), p["name"], pt))
        for p in f.params[len(args):]:
            if "default" not in p:
                raise Unsupported(f"missing argument of {f.q}")
            fr = {"env": {}, "this": None, "f": f, "fn": f.q}
            self.frames.append(fr)
            v = self.eval(p["default"])
            self.frames.pop()
            pt = f.ty(p["type"])
            env[p["id"]] = v if isinstance(v, Loc) and pt["k"] == "ref" else LBox(Box(self.copy(self.load(v)), p["name"]))
        fr = {"env": env, "this": this, "f": f, "fn": f.q, "loc": f.d["loc"]}
        self.frames.append(fr)
        n = len(self.frames)
        try:
            if f.d.get("ctor"):
                self.ctor_inits(f, this)
            try:
                self.exec(f.body)
                r = None
            except Ret as x:
                r = x.v
            if r is None and f.ty(f.d["ret"])["k"] != "void" and not f.d.get("ctor") and not f.d.get("dtor"):
                self.prove(False, f"control reaches the end of {f.q} without a value", "safety")
                raise PathEnd("no return value")
            return r
        except CppThrow:
            if f.d.get("noexcept"):
                self.prove(False, f"no exception leaves noexcept {f.q}", "safety")
                raise PathEnd("terminate: exception leaves a noexcept function")
            raise
        finally:
            del self.frames[n - 1:]

    def ctor_inits(self, f, this):
        o = self.load(this)
        for i in f.d["inits"]:
            if i.get("delegating"):
                self.eval_into(i["init"], this)
            elif "base" in i:
                self.eval_into(i["init"], this)
            else:
                rec, fd = self.find_field(o.rec, i["field"])
                ft = self.tyof(rec["tu"], fd["type"])
                e = i["init"]
                while ft["k"] == "ref" and isinstance(e, dict) and e.get("k", "").startswith("InitList") and len(e["c"]) == 1:
                    e = e["c"][0]
                v = self.eval_init(e, None)
                if ft["k"] == "ref":
                    self.setslot(o, i["field"], Ptr(self.ptr_to(v).id if isinstance(v, Loc) else self.fresh("ref", I), v))
                else:
                    v = self.copy(self.load(v))
                    self.setslot(o, i["field"], v)

    def eval_into(self, e, this):
        """run a constructor expression on an existing (sub)object"""
        if e["k"] == "Construct":
            callee = e["callee"]
            if e.get("copymove") and e.get("implicit"):
                src = self.load(self.eval(e["c"][0]))
                for k, v in list(src.fields.items()):
                    self.setslot(self.load(this), k, self.copy(v))
                if src.sym is not None:
                    o = self.load(this)
                    for rec, f in self.all_fields(src.rec):
                        self.setslot(o, f["name"], self.copy(self.field(src, f["name"])))
                return
            tu = self.frames[-1]["f"].tu
            f = self.prog.func(tu, callee["usr"])
            if f is None:
                if e.get("implicit") or e.get("defctor"):
                    # implicit default constructor: member initialisers
                    ty = self.ty(e["t"])
                    rec = self.prog.record_of(ty)
                    if rec is None:
                        return
                    o = self.load(this)
                    self.default_fields(rec, o)
                    return
                raise Unsupported(f"no body for {callee['q']}")
            args = [self.eval_arg(a, tu, pt) for a, pt in zip(e["c"], callee["params"])]
            key = "init " + f.q.rsplit("::", 1)[0]
            if self.contracts.get(key):
                self.used_contracts.add(key)
                return self.contracts[key](self, this, args)
            self.call(f, this, args)
        elif e["k"] == "InitList" and not e["c"]:
            pass
        elif e["k"] == "Cast":
            self.eval_into(e["c"][0], this)
        else:
            v = self.load(self.eval(e))
            o = self.load(this)
            for k, x in list(v.fields.items()):
                self.setslot(o, k, self.copy(x))

    def default_fields(self, rec, o):
        for b in rec["bases"]:
            br = self.prog.record_of(self.tyof(rec["tu"], b))
            if br:
                self.default_fields(br, o)
        for f in rec["fields"]:
            if "init" in f:
                fr = {"env": {}, "this": LBox(Box(o)), "f": _TU(self.prog, rec["tu"]), "fn": rec["q"]}
                self.frames.append(fr)
                v = self.copy(self.load(self.eval(f["init"])))
                self.frames.pop()
                self.setslot(o, f["name"], v)
            else:
                v = self.default_value(self.tyof(rec["tu"], f["type"]))
                if v is not None:
                    self.setslot(o, f["name"], v)

    def default_value(self, ty):
        import stdmodel
        if ty["k"] == "rec":
            v = stdmodel.default_std(self, ty)
            if v is not None:
                return v
            rec = self.prog.record_of(ty)
            if rec is None:
                return Opaque(ty["q"])
            o = Obj(rec)
            for m in rec["methods"]:
                f = self.prog.funcs.get(m["usr"])
                if f and f.d.get("ctor") and not f.params and not f.d.get("implicit"):
                    self.call(f, LBox(Box(o)), [])
                    return o
            self.default_fields(rec, o)
            return o
        if ty["k"] == "arr":
            el = self.tyof(ty["tu"], ty["to"])
            return Seq.of([self.default_value(el) for _ in range(ty["n"])], el, "array")
        return None

    def zero(self, ty):
        k = ty["k"]
        if k in ("int", "enum"):
            return z3.IntVal(0)
        if k == "bool":
            return False
        if k == "float":
            return FV(0)
        if k == "ptr":
            return Ptr(0, None, self.tyof(ty["tu"], ty["to"]))
        if k == "rec":
            return self.default_value(ty)
        if k == "arr":
            el = self.tyof(ty["tu"], ty["to"])
            return Seq.of([self.zero(el) for _ in range(ty["n"])], el, "array")
        raise Unsupported(f"zero of {ty['s']}")

    # ---------------------------------------------------------------- expressions
    @property
    def fr(self):
        return self.frames[-1]

    def ty(self, i):
        return self.prog.types[self.fr["f"].tu][i]

    def rv(self, e):
        return self.load(self.eval(e))

    def eval_arg(self, e, tu, pt):
        t = self.prog.types[tu][pt]
        v = self.eval(e)
        if t["k"] != "ref":
            v = self.load(v)
        return v

    def eval_init(self, e, ty):
        return self.eval(e)

    def eval(self, e):
        m = getattr(self, "x_" + e["k"], None)
        if m is None:
            raise Unsupported(f"expression {e['k']} at {e.get('l')}")
        return m(e)

    def x_IntegerLiteral(self, e): return z3.IntVal(int(e["v"]))
    def x_FloatingLiteral(self, e): return FV(num(Fraction(float.fromhex(e["v"]))))
    def x_CXXBoolLiteralExpr(self, e): return bool(e["v"])
    def x_CharacterLiteral(self, e): return z3.IntVal(e["v"])
    def x_CXXNullPtrLiteralExpr(self, e): return Ptr(0)
    def x_UnaryExprOrTypeTraitExpr(self, e): return z3.IntVal(int(e["v"]))

    def x_StringLiteral(self, e):
        return LBox(Box(mkstr(e["v"] if e["v"] is not None else "")))

    def x_CXXThisExpr(self, e):
        t = self.fr["this"]
        return self.ptr_to(t)

    def x_DeclRefExpr(self, e):
        rk = e["rk"]
        if rk == "local":
            env = self.fr["env"]
            if e["id"] in env:
                return env[e["id"]]
            raise Unsupported(f"unknown local {e['name']}")
        if rk == "enum":
            return z3.IntVal(int(e["v"]))
        if rk == "global":
            return self.global_var(e)
        if rk == "fn":
            tu = self.fr["f"].tu
            callee = e["callee"]
            return PyFn(lambda args: self.apply_callee(tu, callee, args))
        raise Unsupported(f"reference to {e['name']}")

    def apply_callee(self, tu, callee, args):
        import stdmodel
        if callee["root"]:
            if callee.get("method") and not callee.get("static"):
                return self.invoke(tu, callee, args[0], args[1:])
            return self.invoke(tu, callee, None, args)
        return stdmodel.call(self, callee, None, args, None)

    def global_var(self, e):
        q = e["q"]
        if "fval" in e:
            return LBox(Box(FV(num(Fraction(float.fromhex(e["fval"]))))))
        if "ival" in e:
            return LBox(Box(z3.IntVal(int(e["ival"]))))
        g = self.prog.globals.get(e.get("usr"))
        key = ("global", e.get("usr"))
        if key in self.statics:
            return self.statics[key]
        if g is None:
            b = LBox(Box(Opaque("global " + q)))
        elif "fval" in g:
            b = LBox(Box(FV(num(Fraction(float.fromhex(g["fval"]))))))
        elif "ival" in g:
            b = LBox(Box(z3.IntVal(int(g["ival"]))))
        else:
            b = LBox(Box(self.mk(self.tyof(g["tu"], g["type"]), "global " + q)))
        self.statics[key] = b
        return b

    def x_MemberExpr(self, e):
        if "callee" in e:
            raise Unsupported("bound member function")
        if e.get("rk") == "global":
            return self.global_var(e)
        b = self.eval(e["c"][0])
        if e["arrow"]:
            b = self.deref(b)
        elif not isinstance(b, Loc):
            b = LBox(Box(b))
        return self.member(b, e["name"])

    def member(self, b, name):
        o = b if isinstance(b, _LEntry) else self.load(b)
        if isinstance(o, _LEntry):
            if name == "second":
                return LMap(o.c, o.k)
            return LBox(Box(o.k))
        if isinstance(o, Tup):
            return LTup(b, {"first": 0, "second": 1}[name])
        if isinstance(o, Obj):
            v = o.fields.get(name)
            r = self.find_field(o.rec, name)
            if r and self.tyof(r[0]["tu"], r[1]["type"])["k"] == "ref":
                p = self.field(o, name)
                if isinstance(p, Ptr):
                    return p.loc if p.loc is not None else self.deref(p)
                # symbolic reference member: materialise the referee once
                bx = Box(p, name)
                o.fields[name] = Ptr(self.fresh("ref", I), LBox(bx))
                return LBox(bx)
            return LField(b, name)
        raise Unsupported(f"member {name} of {type(o).__name__}")

    def x_Materialize(self, e):
        v = self.eval(e["c"][0])
        return v if isinstance(v, Loc) else LBox(Box(v, "tmp"))

    def x_ValueInit(self, e):
        return self.zero(self.ty(e["t"]))

    def x_ArrayInitLoopExpr(self, e): raise Unsupported("array copy")

    def x_InitList(self, e):
        ty = self.ty(e["t"])
        if ty["k"] in ("int", "float", "bool", "ptr", "enum"):
            return self.rv(e["c"][0]) if e["c"] else self.zero(ty)
        if ty["k"] == "arr":
            el = self.tyof(ty["tu"], ty["to"])
            items = [self.copy(self.rv(c)) for c in e["c"]]
            while len(items) < ty["n"]:
                items.append(self.zero(el))
            return Seq.of(items, el, "array")
        if ty["k"] == "rec":
            if len(e["c"]) == 1 and self.ty(e["c"][0]["t"]).get("usr") == ty.get("usr"):
                return self.rv(e["c"][0])
            if ty["q"] == "std::array":
                inner = self.rv(e["c"][0]) if e["c"] else None
                if inner is None:
                    return self.default_value(ty)
                return inner
            if ty["q"] == "std::pair":
                return Tup([self.copy(self.rv(c)) for c in e["c"]], "pair")
            rec = self.prog.record_of(ty)
            if rec:
                o = Obj(rec)
                names = [f["name"] for f in rec["fields"]]
                nb = len(rec["bases"])
                for c in e["c"][:nb]:
                    b = self.rv(c)
                    o.fields.update(b.fields)
                for n, c in zip(names, e["c"][nb:]):
                    o.fields[n] = self.copy(self.rv(c))
                return o
            if ty["q"].startswith("std::"):
                import stdmodel
                return stdmodel.construct(self, e, ty, [self.eval(c) for c in e["c"]])
        raise Unsupported(f"initialiser list of {ty['s']}")

    def x_StdInitList(self, e):
        return self.rv(e["c"][0])

    def x_Lambda(self, e):
        env = {}
        this = None
        for c in e["captures"]:
            if c.get("this"):
                this = self.fr["this"]
            elif "init" in c:
                v = self.eval(c["init"])
                env[c["id"]] = v if c["byref"] and isinstance(v, Loc) else LBox(Box(self.copy(self.load(v))))
            elif c["byref"]:
                env[c["id"]] = self.fr["env"][c["id"]]
            else:
                env[c["id"]] = LBox(Box(self.copy(self.load(self.fr["env"][c["id"]]))))
        return Lam(e["ops"], env, this, self.fr["f"].tu)

    def apply(self, fn, args):
        """call a callable value"""
        if isinstance(fn, Loc):
            fn = self.load(fn)
        if isinstance(fn, PyFn):
            return fn.f(args)
        if isinstance(fn, Lam):
            f = self.pick([g for g in (self.prog.func(fn.tu, u) for u in fn.ops)
                           if g is not None and len(g.params) == len(args)], args)
            if f is None:
                raise Unsupported("no instantiated body of a generic lambda")
            c = self.contracts.get(fn.name)
            if c is not None:
                r = c(self, fn, args)
                if r is not NotImplemented:
                    return r
            n = len(self.frames)
            env = dict(fn.env)
            for p, a in zip(f.params, args):
                pt = f.ty(p["type"])
                if pt["k"] == "ref":
                    env[p["id"]] = a if isinstance(a, Loc) else LBox(Box(a, p["name"]))
                else:
                    env[p["id"]] = LBox(Box(self.copy(self.load(a)), p["name"]))
            self.frames.append({"env": env, "this": fn.this, "f": f, "fn": f.q, "loc": f.d["loc"]})
            try:
                self.exec(f.body)
                return None
            except Ret as r:
                return r.v
            finally:
                del self.frames[n:]
        if isinstance(fn, Opaque) and fn.kind.startswith("std::"):
            import stdmodel
            return stdmodel.functor(self, fn.kind, args)
        if isinstance(fn, Obj):
            f = self.pick([self.prog.funcs[m["usr"]] for m in fn.rec["methods"] if m["name"] == "operator()"
                           and m["usr"] in self.prog.funcs and len(self.prog.funcs[m["usr"]].params) == len(args)], args)
            if f is not None:
                return self.call(f, LBox(Box(fn)), [a if isinstance(a, Loc) else LBox(Box(a)) for a in args])
        raise Unsupported(f"call of {type(fn).__name__}")

    def pick(self, cands, args):
        """overload whose parameters fit the argument values best"""
        import stdmodel
        if len(cands) < 2:
            return cands[0] if cands else None

        def score(f):
            r = 0
            for p, a in zip(f.params, args):
                pt = f.ty(p["type"])
                t = self.prog.types[pt["tu"]][pt["to"]] if pt["k"] == "ref" else pt
                v = self.load(a) if isinstance(a, Loc) else a
                if isinstance(v, FV):
                    r += 2 if t["k"] == "float" else 1 if t["k"] == "int" else -99
                elif z3.is_expr(v) and v.sort() == I:
                    r += 2 if t["k"] in ("int", "enum") else 1 if t["k"] == "float" else -99
                elif not stdmodel.value_matches(self, pt, a):
                    r -= 99
            return r
        best = max(cands, key=score)
        return best if score(best) >= 0 else None

    def x_ConditionalOperator(self, e):
        c = self.truth(self.rv(e["c"][0]))
        if is_c(c):
            return self.eval(e["c"][1 if c else 2])
        if pure(e["c"][1]) and pure(e["c"][2]) and self.total(e["c"][1]) and self.total(e["c"][2]) and not e.get("lv"):
            a, b = self.rv(e["c"][1]), self.rv(e["c"][2])
            try:
                return v_ite(c, a, b)
            except Unsupported:
                pass
        if self.merge_arms and not e.get("lv"):
            try:
                return self.merged(c, e["c"][1], e["c"][2])
            except Unsupported:
                pass
        return self.eval(e["c"][1 if self.branch(c) else 2])

    def total(self, e):
        """defined for all values of its operands (no conversion to integer, no integer division)"""
        if e is None:
            return True
        if e["k"] == "Cast" and e["ck"] == "FloatingToIntegral":
            return False
        if e["k"] == "Binary" and e["op"] in ("/", "%") and self.ty(e["t"])["k"] != "float":
            return False
        return all(self.total(c) for c in e.get("c", ()))

    def merged(self, c, a, b):
        """both arms, each evaluated under its condition, without a split of the path"""
        import stdmodel
        vals = []
        for cond, arm in ((c, a), (b_not(c), b)):
            def th():
                self.assume(cond)
                return self.rv(arm)
            try:
                vals.append(stdmodel.summarise(self, th))
            except PathEnd:
                vals.append(None)
        if vals[0] is None or vals[1] is None:
            self.assume(b_not(c) if vals[0] is None else c)
            return vals[1] if vals[0] is None else vals[0]
        return v_ite(c, *vals)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if z3.is_expr(v):
            if v.sort() == B:
                return _fold(v)
            return _fold(z3.simplify(v != 0))
        if isinstance(v, Ptr):
            return _fold(z3.simplify(v.id != 0))
        if isinstance(v, FV):
            return b_not(f_eq(v, FV(0)))
        if isinstance(v, Opt):
            return v.has
        if isinstance(v, XNode):
            return _fold(z3.simplify(v.id != 0))
        raise Unsupported(f"condition of type {type(v).__name__}")

    def x_UnaryOperator(self, e):
        op = e["op"]
        if op == "&":
            v = self.eval(e["c"][0])
            if isinstance(v, PyFn):
                return v
            return self.ptr_to(v)
        if op == "*":
            return self.deref(self.rv(e["c"][0]))
        if op in ("++", "--"):
            l = self.eval(e["c"][0])
            v = self.load(l)
            d = 1 if op == "++" else -1
            if isinstance(v, FV):
                nv = f_add(v, FV(d))
            elif isinstance(v, Iter):
                nv = Iter(v.c, v.i + d, v.rev)
            else:
                t = self.ty(e["t"])
                if d == 1 and t["k"] == "int" and not t["signed"] and not (z3.is_expr(v) and const_of(v) is not None) and z3.is_expr(v):
                    # an unsigned variable is never negative
                    self.assumed.add("unsigned additions and products stay below 2^64 (only wrap-around below zero is modelled)")
                    nv = z3.simplify(v + 1)
                else:
                    nv = self.wrap(v + d, t, v, d)
            self.store(l, nv)
            return v if e["post"] else l
        v = self.rv(e["c"][0])
        if op == "!":
            return b_not(self.truth(v))
        if op == "-":
            if isinstance(v, FV):
                return f_neg(v)
            return self.wrap(-v, self.ty(e["t"]))
        if op == "+":
            return v
        raise Unsupported(f"unary {op}")

    def wrap(self, t, ty, *_):
        """machine-integer result: unsigned wraps, signed must not overflow"""
        if ty["k"] != "int":
            return t
        t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)
        c = const_of(t)
        lo, hi = (0, (1 << ty["bits"]) - 1) if not ty["signed"] else (-(1 << ty["bits"] - 1), (1 << ty["bits"] - 1) - 1)
        if c is not None:
            if lo <= c <= hi:
                return t
            if not ty["signed"]:
                return z3.IntVal(c & hi)
            raise Unsupported("signed overflow of a constant")
        if ty["signed"]:
            self.assumed.add("signed integer arithmetic does not overflow (treated as mathematical)")
            return t
        if self.valid_quick(t >= 0):
            self.assumed.add("unsigned additions and products stay below 2^64 (only wrap-around below zero is modelled)")
            return t
        return z3.If(t >= 0, t, t + (hi + 1))

    def x_Binary(self, e):
        op = e["op"]
        a, b = e["c"]
        if op == ",":
            self.eval(a)
            return self.eval(b)
        if op in ("&&", "||"):
            x = self.truth(self.rv(a))
            if is_c(x):
                if x == (op == "||"):
                    return x
                return self.truth(self.rv(b))
            if pure(b):
                # evaluate under the guard so that safety obligations see it
                if simple(b):
                    y = self.truth(self.rv(b))
                    return b_and(x, y) if op == "&&" else b_or(x, y)
            if self.branch(x):
                return True if op == "||" else self.truth(self.rv(b))
            return False if op == "&&" else self.truth(self.rv(b))
        if op == "=":
            r = self.rv(b)
            l = self.eval(a)
            self.store(l, r)
            return l
        x, y = self.rv(a), self.rv(b)
        return self.arith(op, x, y, self.ty(e["t"]), self.ty(a["t"]))

    def x_CompoundAssign(self, e):
        y = self.rv(e["c"][1])
        l = self.eval(e["c"][0])
        x = self.load(l)
        lt, ct = self.ty(e["lt"]), self.ty(e["ct"])
        t0 = self.ty(e["t"])
        x2 = self.convert(x, t0, lt)
        v = self.arith(e["op"][:-1], x2, y, ct, lt)
        v = self.convert(v, ct, t0)
        self.store(l, v)
        return l

    def arith(self, op, x, y, ty, oty=None):
        cmpop = op in ("<", ">", "<=", ">=", "==", "!=")
        if isinstance(x, FV) and isinstance(y, FV):
            if op == "+": return f_add(x, y)
            if op == "-": return f_sub(x, y)
            if op == "*": return f_mul(x, y)
            if op == "/": return self.f_div(x, y)
            if op == "<": return f_lt(x, y)
            if op == ">": return f_lt(y, x)
            if op == "<=": return f_le(x, y)
            if op == ">=": return f_le(y, x)
            if op == "==": return f_eq(x, y)
            if op == "!=": return b_not(f_eq(x, y))
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if op == "==": return _fold(z3.simplify(x.id == y.id))
            if op == "!=": return _fold(z3.simplify(x.id != y.id))
            if op == "-" and isinstance(x.loc, LElem) and isinstance(y.loc, LElem) and self.same_place(x.loc.c, y.loc.c):
                return z3.simplify(x.loc.i - y.loc.i)
        if isinstance(x, Str) and isinstance(y, Str) and cmpop:
            raise Unsupported("comparison of char pointers")
        if isinstance(x, bool): x = tobool(x)
        if isinstance(y, bool): y = tobool(y)
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() == B and y.sort() == B:
                if op == "==": return _fold(z3.simplify(x == y))
                if op == "!=": return _fold(z3.simplify(x != y))
                if op in ("&", "|", "^"):
                    return b_and(x, y) if op == "&" else b_or(x, y) if op == "|" else _fold(z3.Xor(x, y))
            if x.sort() == B: x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            if y.sort() == B: y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            if op == "+": return self.wrap(x + y, ty)
            if op == "-": return self.wrap(x - y, ty)
            if op == "*": return self.wrap(x * y, ty)
            if op in ("/", "%"):
                self.prove(y != 0, "integer division by zero", "safety")
                if ty["k"] == "int" and not ty["signed"]:
                    return x / y if op == "/" else x % y
                cx, cy = const_of(x), const_of(y)
                if cx is not None and cy:
                    qn = abs(cx) // abs(cy) * (1 if (cx < 0) == (cy < 0) else -1)
                    return z3.IntVal(qn if op == "/" else cx - qn * cy)
                qn = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
                return qn if op == "/" else x - qn * y
            if op == "<": return _fold(z3.simplify(x < y))
            if op == ">": return _fold(z3.simplify(x > y))
            if op == "<=": return _fold(z3.simplify(x <= y))
            if op == ">=": return _fold(z3.simplify(x >= y))
            if op == "==": return _fold(z3.simplify(x == y))
            if op == "!=": return _fold(z3.simplify(x != y))
        raise Unsupported(f"{type(x).__name__} {op} {type(y).__name__}")

    def f_div(self, a, b):
        if b.finite:
            c = const_of(z3.simplify(b.r))
            if c is not None and c != 0:
                if a.finite:
                    return FV(a.r / b.r)
            if c is None and a.finite and self.valid_quick(b.r != 0):
                return FV(a.r / b.r)
        bz = b_and(b.fin, b.r == 0)
        bz = _fold(z3.simplify(bz)) if z3.is_expr(bz) else bz
        az = b_and(a.fin, a.r == 0)
        bi, ai = b_or(b.pinf, b.ninf), b_or(a.pinf, a.ninf)
        nan = b_or(a.nan, b.nan, b_and(az, bz), b_and(ai, bi))
        infr = b_and(b_not(nan), b_or(bz, ai))
        z = self.fresh("zsign", B)
        ap, an = _sgn(a)
        bp, bn = _sgn(b)
        pos = b_or(b_and(bz, z), b_and(b_not(bz), b_or(b_and(ap, bp), b_and(an, bn))))
        fin0 = b_and(bi, a.fin)
        den = b_ite(bz, z3.RealVal(1), b.r) if z3.is_expr(bz) or bz is True else b.r
        if bz is True:
            den = z3.RealVal(1)
        r = a.r / den
        if fin0 is not False:
            r = z3.If(tobool(fin0), z3.RealVal(0), r)
        return FV(r, nan, b_and(infr, pos), b_and(infr, b_not(pos)))

    def convert(self, v, frm, to):
        if frm["k"] == to["k"] and frm["k"] in ("float", "bool"):
            return v
        if to["k"] == "float":
            if isinstance(v, FV):
                return v
            if isinstance(v, bool) or v.sort() == B:
                return FV(z3.If(tobool(v), z3.RealVal(1), z3.RealVal(0)))
            return FV(z3.ToReal(v) if const_of(v) is None else num(const_of(v)))
        if to["k"] in ("int", "enum"):
            if isinstance(v, FV):
                return self.float_to_int(v, to)
            if isinstance(v, bool) or v.sort() == B:
                v = z3.If(tobool(v), z3.IntVal(1), z3.IntVal(0))
                return z3.simplify(v)
            if frm["k"] == "int" and to["k"] == "int":
                if not to["signed"] and (frm["signed"] or frm["bits"] > to["bits"]):
                    if to["bits"] < 32 or frm["bits"] > to["bits"]:
                        c = const_of(z3.simplify(v))
                        if c is None and not self.valid_quick(z3.And(v >= 0, v < (1 << to["bits"]))):
                            return v % (1 << to["bits"])
                    return self.wrap(v, to)
                if to["signed"] and (not frm["signed"] or frm["bits"] > to["bits"]):
                    self.assumed.add("conversions to signed integers stay in range")
            return v
        if to["k"] == "bool":
            return self.truth(v)
        return v

    def float_to_int(self, v, to):
        lo, hi = (0, (1 << to["bits"])) if not to["signed"] else (-(1 << to["bits"] - 1), (1 << to["bits"] - 1))
        self.prove(b_and(v.fin, v.r > lo - 1, v.r < hi), "conversion to integer in range", "safety")
        c = const_of(z3.simplify(v.r))
        if c is not None:
            return z3.IntVal(int(c))
        if self.valid_quick(v.r >= 0):
            return z3.ToInt(v.r)
        return z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r))

    def x_Cast(self, e):
        ck = e["ck"]
        c = e["c"][0]
        if ck in ("LValueToRValue",):
            return self.copy(self.rv(c))
        if ck in ("NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay", "ConstructorConversion",
                  "UserDefinedConversion", "BuiltinFnToFnPtr"):
            v = self.eval(c)
            if ck == "ArrayToPointerDecay":
                v0 = self.load(v)
                return v0 if isinstance(v0, Str) else v
            return v
        if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "Dynamic"):
            v = self.eval(c)
            if ck == "Dynamic":
                raise Unsupported("dynamic_cast")
            if isinstance(v, Ptr):
                t = self.ty(e["t"])
                if t["k"] == "ptr" and v.loc is None:
                    return Ptr(v.id, None, self.tyof(t["tu"], t["to"]), v.smart)
            return v
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingToIntegral", "FloatingCast",
                  "IntegralToBoolean", "FloatingToBoolean", "BooleanToSignedIntegral"):
            return self.convert(self.rv(c), self.ty(c["t"]), self.ty(e["t"]))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return self.truth(self.rv(c))
        if ck == "NullToPointer":
            return Ptr(0)
        if ck == "ToVoid":
            self.eval(c)
            return None
        if ck == "BitCast":
            return self.eval(c)
        raise Unsupported(f"cast {ck}")

    def x_Construct(self, e):
        import stdmodel
        callee = e["callee"]
        ty = self.ty(e["t"])
        args = e["c"]
        if e.get("copymove") and (e.get("implicit") or not callee["root"]) and len(args) >= 1:
            v = self.eval(args[0])
            x = self.load(v)
            r = self.copy(x)
            if e.get("move") and isinstance(v, Loc) and not callee["root"]:
                stdmodel.moved_from(self, v, x)
            return r
        if not callee["root"]:
            return stdmodel.construct(self, e, ty, [self.eval(a) for a in args])
        rec = self.prog.record_of(ty)
        if self.contracts.get("new " + rec["q"]):
            self.used_contracts.add("new " + rec["q"])
            tu = self.fr["f"].tu
            av = [self.eval_arg(a, tu, pt) for a, pt in zip(args, callee["params"])]
            return self.contracts["new " + rec["q"]](self, None, av)
        o = Obj(rec)
        b = LBox(Box(o, "tmp"))
        self.eval_into(e, b)
        return o

    x_CXXTemporaryObjectExpr = x_Construct

    def x_CXXNewExpr(self, e):
        v = self.rv(e["c"][0]) if e["c"][0] else self.default_value(self.ty(e["at"]))
        return self.new_object(v, self.ty(e["at"]))

    def new_object(self, v, ty=None, smart=False):
        b = Box(v, "new")
        if isinstance(v, Obj):
            v.extra = dict(v.extra or {}, exact=True)
        a = self.new_addr()
        self.heap[("addr", a.as_long())] = (b, a)
        if isinstance(v, Obj):
            v.ident = a
        return Ptr(a, LBox(b), ty, smart)

    def x_CXXThrowExpr(self, e):
        t = ""
        if e["c"] and e["c"][0]:
            t = self.ty(e["c"][0]["t"])["s"]
            # the message is not evaluated: it has no effect on any property
        raise CppThrow(e.get("l", ""), t)

    def x_MemberCall(self, e):
        import stdmodel
        callee = e.get("callee")
        if callee is None:
            raise Unsupported("call through member pointer")
        tu = self.fr["f"].tu
        obj = self.eval(e["obj"])
        if e.get("arrow"):
            if isinstance(obj, Loc):
                obj = self.load(obj)
            this = self.deref(obj)
        else:
            this = obj if isinstance(obj, (Loc, _LEntry)) else LBox(Box(obj, "tmp"))
        self.fr["loc"] = e.get("l") or self.fr.get("loc")
        if callee["root"]:
            args = [self.eval_arg(a, tu, pt) for a, pt in zip(e["c"], callee["params"])]
            return self.invoke(tu, callee, this, args, e, e.get("qualified"))
        args = [self.eval(a) for a in e["c"]]
        return stdmodel.method(self, callee, this, args, e)

    def x_Call(self, e):
        import stdmodel
        self.fr["loc"] = e.get("l") or self.fr.get("loc")
        if "callee" not in e:
            fn = self.rv(e["fn"])
            return self.apply(fn, [self.eval(a) for a in e["c"]])
        callee = e["callee"]
        tu = self.fr["f"].tu
        if callee["root"]:
            args = [self.eval_arg(a, tu, pt) for a, pt in zip(e["c"], callee["params"])]
            return self.invoke(tu, callee, None, args, e)
        if callee["name"] == "__assert_fail":
            if callable(self.assert_mode):
                self.assert_mode(e)
            elif self.assert_mode == "prove":
                self.prove(False, f"assertion cannot fail ({e.get('l')})", "assert")
            raise PathEnd("assertion failure")
        return stdmodel.call(self, callee, None, [self.eval(a) for a in e["c"]], e)

    def x_OpCall(self, e):
        import stdmodel
        callee = e.get("callee")
        self.fr["loc"] = e.get("l") or self.fr.get("loc")
        tu = self.fr["f"].tu
        if callee and callee["root"]:
            if callee["name"] == "operator()" and "lambda" in callee["usr"]:
                return self.apply(self.rv(e["c"][0]), [self.eval(a) for a in e["c"][1:]])
            if callee.get("method"):
                this = self.eval(e["c"][0])
                if not isinstance(this, Loc):
                    this = LBox(Box(this))
                if callee["name"] == "operator=" and self.prog.func(tu, callee["usr"]) is None:
                    v = self.copy(self.rv(e["c"][1]))
                    self.store(this, v)
                    return this
                args = [self.eval_arg(a, tu, pt) for a, pt in zip(e["c"][1:], callee["params"])]
                return self.invoke(tu, callee, this, args, e)
            args = [self.eval_arg(a, tu, pt) for a, pt in zip(e["c"], callee["params"])]
            return self.invoke(tu, callee, None, args, e)
        return stdmodel.operator(self, e["op"], callee, [self.eval(a) for a in e["c"]], e)

    def x_ArraySubscriptExpr(self, e):
        b = self.eval(e["c"][0])
        i = self.rv(e["c"][1])
        if isinstance(b, Loc) and isinstance(self.load(b), Seq):
            s = self.load(b)
            self.prove(b_and(i >= 0, i < s.n), "array index in range", "safety")
            return LElem(b, i)
        raise Unsupported("subscript")

    # ---------------------------------------------------------------- statements
    def exec(self, s):
        if s is None:
            return
        m = getattr(self, "s_" + s["k"], None)
        if m:
            return m(s)
        self.eval(s)

    def s_CompoundStmt(self, s):
        for x in s["c"]:
            self.exec(x)

    def s_NullStmt(self, s): pass

    def s_DeclStmt(self, s):
        for d in s["decls"]:
            self.declare(d)

    def declare(self, d):
        ty = self.ty(d["type"])
        if d.get("static"):
            raise Unsupported("function-local static variable")
        if "bindings" in d:
            v = self.eval(d["init"])
            if ty["k"] != "ref":
                v = LBox(Box(self.copy(self.load(v))))
            elif not isinstance(v, (Loc, _LEntry)):
                v = LBox(Box(v))
            self.bind(d["bindings"], v)
            return
        if ty["k"] == "ref":
            v = self.eval(d["init"])
            self.fr["env"][d["id"]] = v if isinstance(v, (Loc, _LEntry)) else LBox(Box(v, d["name"]))
            return
        if "init" in d:
            v = self.copy(self.load(self.eval(d["init"])))
            if isinstance(v, Lam):
                v.name = self.fr["fn"] + "::" + d["name"]
        else:
            v = self.default_value(ty)
        b = Box(v, d["name"], ty)
        self.fr["env"][d["id"]] = LBox(b)

    def bind(self, bindings, v):
        env = self.fr["env"]
        if isinstance(v, _LEntry):
            env[bindings[0]["id"]] = LBox(Box(v.k))
            env[bindings[1]["id"]] = LMap(v.c, v.k)
            return
        x = self.load(v)
        for i, b in enumerate(bindings):
            if isinstance(x, Tup):
                env[b["id"]] = LTup(v, i)
            elif isinstance(x, Seq):
                env[b["id"]] = LElem(v, z3.IntVal(i))
            elif isinstance(x, Obj):
                env[b["id"]] = LField(v, b["field"])
            else:
                raise Unsupported("structured binding")

    def s_ReturnStmt(self, s):
        e = s["c"][0]
        if e is None:
            raise Ret(_VOID)
        v = self.eval(e)
        f = self.fr["f"]
        if not (f.ty(f.d["ret"])["k"] == "ref"):
            v = self.load(v)
            if v is not None:
                v = self.copy(v)
        if v is None:
            v = _VOID
        raise Ret(v)

    def s_IfStmt(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("condvar"):
            self.declare(s["condvar"])
        c = self.truth(self.rv(s["c"][0]))
        if self.branch(c):
            self.exec(s["c"][1])
        elif s["c"][2]:
            self.exec(s["c"][2])

    def s_IfConstexpr(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("kept"):
            self.exec(s["kept"])

    def s_BreakStmt(self, s): raise Brk()
    def s_ContinueStmt(self, s): raise Cont()

    def s_SwitchStmt(self, s):
        v = self.rv(s["c"][0])
        body = s["c"][1]["c"]
        # flatten labels
        flat, labels = [], []

        def add(st):
            while st["k"] in ("CaseStmt", "DefaultStmt"):
                if st["k"] == "CaseStmt":
                    labels.append((len(flat), st["c"][0]))
                    st = st["c"][1]
                else:
                    labels.append((len(flat), None))
                    st = st["c"][0]
            flat.append(st)
        for st in body:
            add(st)
        start = None
        for pos, le in labels:
            if le is None:
                continue
            if self.branch(_fold(z3.simplify(v == self.rv(le)))):
                start = pos
                break
        if start is None:
            d = [p for p, le in labels if le is None]
            if not d:
                return
            start = d[0]
        try:
            for st in flat[start:]:
                self.exec(st)
        except Brk:
            pass

    def s_CXXTryStmt(self, s):
        nfr = len(self.frames)
        try:
            self.exec(s["c"][0])
        except CppThrow as t:
            del self.frames[nfr:]
            h = s["c"][1]
            if h.get("var"):
                self.fr["env"][h["var"]["id"]] = LBox(Box(Opaque("exception")))
            self.exec(h["body"])

    # ---- loops
    def s_ForStmt(self, s):
        init, cond, inc, body = s["c"]
        if init:
            self.exec(init)

        def c():
            return self.truth(self.rv(cond)) if cond else True

        def b():
            try:
                self.exec(body)
            except Cont:
                pass
            if inc:
                self.eval(inc)
        self.loop(c, b, s)

    def s_WhileStmt(self, s):
        cond, body = s["c"]

        def c():
            if s.get("condvar"):
                self.declare(s["condvar"])
            return self.truth(self.rv(cond))

        def b():
            try:
                self.exec(body)
            except Cont:
                pass
        self.loop(c, b, s)

    def s_DoStmt(self, s):
        cond, body = s["c"]

        def b():
            try:
                self.exec(body)
            except Cont:
                pass
            if not self.branch(self.truth(self.rv(cond))):
                raise Brk()
        # the last iteration leaves the loop: what it assigned is known afterwards
        self.loop(lambda: True, b, s)

    def s_ForRange(self, s):
        if s.get("init"):
            self.exec(s["init"])
        r = self.eval(s["range"])
        if not isinstance(r, Loc):
            r = LBox(Box(r, "range"))
        self.range_loop(r, lambda l: self.bind_loop_var(s["var"], l), s["body"], s)

    def bind_loop_var(self, d, l):
        ty = self.ty(d["type"])
        env = self.fr["env"]
        if "bindings" in d:
            if ty["k"] != "ref":
                if isinstance(l, _LEntry):
                    l = LBox(Box(Tup([l.k, self.copy(self.load(LMap(l.c, l.k)))], "pair")))
                else:
                    l = LBox(Box(self.copy(self.load(l))))
            self.bind(d["bindings"], l)
        elif ty["k"] == "ref":
            env[d["id"]] = l
        else:
            if isinstance(l, _LEntry):
                v = Tup([l.k, self.copy(self.load(LMap(l.c, l.k)))], "pair")
            else:
                v = self.copy(self.load(l))
            env[d["id"]] = LBox(Box(v, d["name"]))

    def range_loop(self, r, bindv, body, s):
        import stdmodel
        idx = Box(z3.IntVal(0), "range-index")
        n, at = stdmodel.iteration(self, r)

        def c():
            return _fold(z3.simplify(idx.v < n()))

        def b():
            bindv(at(idx.v))
            try:
                if callable(body):
                    body()
                else:
                    self.exec(body)
            except Cont:
                pass
            self.setslot(idx, "v", z3.simplify(idx.v + 1))
        self.loop(c, b, s)

    def loop(self, cond, body, s, limit=80):
        import loops
        # unroll while the condition is decided by the constants
        for _ in range(limit):
            mark, nd = len(self.trail), len(self.decs[-1].taken) if self.decs else 0
            c = cond()
            if is_c(c) and self.decs and any(t in (0, 1) for t in self.decs[-1].taken[nd:]):
                # the condition itself was a case distinction: not decided by constants
                self.undo(mark)
                break
            if not is_c(c):
                c2 = z3.simplify(c) if not _hasq(c) else c
                if z3.is_true(c2): c = True
                elif z3.is_false(c2): c = False
            if c is False:
                return
            if c is True and not (self.loop_hook and self.loop_hook(self, s, None) is not None):
                try:
                    body()
                except Brk:
                    return
                continue
            break
        else:
            raise Unsupported("loop unrolled too often")
        return loops.symbolic_loop(self, cond, body, s)


def age(v, stamp):
    """a lazily created part is as old as the object it belongs to"""
    if isinstance(v, (Obj, Seq, MapV, Tup, Opt, Var)):
        v.stamp = stamp
    if isinstance(v, Tup):
        for x in v.v:
            age(x, stamp)
    if isinstance(v, Opt) and v.v is not None:
        age(v.v, stamp)
    if isinstance(v, Var):
        for x in v.alts:
            age(x, stamp)


class _LEntry(Loc):
    """entry of a map: key by value, mapped value by location"""
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k


_old_load = Engine.load


def _load(self, l):
    if isinstance(l, _LEntry):
        return Tup([l.k, _old_load(self, LMap(l.c, l.k))], "pair")
    return _old_load(self, l)


Engine.load = _load


class _Void:
    def __repr__(self): return "void"
_VOID = _Void()


class _SymSlot:
    def __init__(self, o):
        object.__setattr__(self, "o", o)
    def __setattr__(self, k, v):
        setattr(self.o, k, v)
    def __getattr__(self, k):
        return getattr(self.o, k)


class _TU:
    def __init__(self, prog, tu):
        self.prog, self.tu, self.q = prog, tu, ""
        self.d = {"ret": 0}
    def ty(self, i):
        return self.prog.types[self.tu][i]


def upd(old, i, v):
    ci = const_of(z3.simplify(i))

    def f(j):
        if i is j or (z3.is_expr(j) and z3.is_expr(i) and i.eq(j)):
            return v
        cj = const_of(z3.simplify(j)) if z3.is_expr(j) else j
        if ci is not None and cj is not None:
            return v if ci == cj else old(j)
        c = _fold(z3.simplify(j == i))
        if c is True:
            return v
        if c is False:
            return old(j)
        return v_ite(c, v, old(j))
    f.upd = (old, i, v)
    return f


def same_leafs(a, b):
    return b_and(*[_fold(z3.simplify(x == y)) for x, y in zip(a, b)])


_qcache = {}


def _hasq(t):
    k = t.get_id()
    r = _qcache.get(k)
    if r is not None and r[1].eq(t):
        return r[0]
    todo, seen, ans = [t], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            ans = True
            break
        todo.extend(x.children())
    _qcache[k] = (ans, t)
    return ans


_scache = {}


def symbols(t):
    """names of uninterpreted constants/functions in t"""
    k = t.get_id()
    r = _scache.get(k)
    if r is not None and r[1].eq(t):
        return r[0]
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    _scache[k] = (frozenset(out), t)
    return _scache[k][0]


PURE = {"DeclRefExpr", "IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "MemberExpr", "CXXThisExpr",
        "StringLiteral", "CharacterLiteral", "ConditionalOperator", "CXXNullPtrLiteralExpr", "Materialize",
        "Cast", "Binary", "UnaryOperator", "Call", "MemberCall", "OpCall", "ValueInit"}
PURECALLS = {"sqrt", "abs", "fabs", "pow", "exp", "log", "log2", "log10", "erf", "cos", "sin", "floor", "min", "max",
             "infinity", "epsilon", "size", "empty", "ceil", "quiet_NaN", "lowest", "isnan", "isinf", "isfinite"}


def pure(e):
    """no side effect, no branching needed to evaluate"""
    if e is None:
        return True
    k = e["k"]
    if k not in PURE:
        return False
    if k == "UnaryOperator" and e["op"] in ("++", "--", "*"):
        return False
    if k == "Binary" and e["op"] in ("=", ","):
        return False
    if k in ("Call", "MemberCall"):
        if e.get("callee", {}).get("name") not in PURECALLS or e["callee"]["root"]:
            return False
        if k == "MemberCall" and not pure(e["obj"]):
            return False
    if k == "OpCall":
        if e["op"] not in ("==", "!=", "<", ">", "<=", ">="):
            return False
        if e.get("callee", {}).get("root"):
            return False
    if k == "MemberExpr" and e.get("arrow") and e["c"][0]["k"] != "CXXThisExpr":
        return False
    return all(pure(c) for c in e.get("c", ()))


def simple(e):
    """pure and free of safety obligations (division, indexing, conversion)"""
    if e is None:
        return True
    if e["k"] == "Binary" and e["op"] in ("/", "%"):
        return False
    if e["k"] == "MemberCall" or (e["k"] == "MemberExpr" and e.get("arrow") and e["c"][0]["k"] != "CXXThisExpr"):
        if e.get("callee", {}).get("name") not in ("size", "empty"):
            return False
    if e["k"] == "Cast" and e["ck"] == "FloatingToIntegral":
        return False
    if e["k"] == "ConditionalOperator":
        return False
    return all(simple(c) for c in e.get("c", ()))
