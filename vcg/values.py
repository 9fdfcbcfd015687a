"""Symbolic values. Reals are mathematical reals carrying IEEE nan/inf flags;
integers are mathematical integers with explicit wrap-around where it matters."""
import z3
from fractions import Fraction

B, I, R = z3.BoolSort(), z3.IntSort(), z3.RealSort()


class Unsupported(Exception):
    """the function leaves the verifier's reach (not a property violation)"""


# ---- three-valued folding on Python bools / z3 bools
def is_c(x):
    return isinstance(x, bool)


def tobool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def b_not(x):
    if is_c(x):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def _fold(x):
    if is_c(x):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def b_and(*xs):
    r = []
    for x in xs:
        x = _fold(x)
        if x is False:
            return False
        if x is not True:
            r.append(x)
    return True if not r else r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        x = _fold(x)
        if x is True:
            return True
        if x is not False:
            r.append(x)
    return False if not r else r[0] if len(r) == 1 else z3.Or(*r)


def b_ite(c, a, b):
    c = _fold(c)
    if c is True:
        return a
    if c is False:
        return b
    if is_c(a) and is_c(b):
        if a == b:
            return a
        return c if a else b_not(c)
    return z3.If(c, tobool(a), tobool(b))


def num(x):
    """exact rational z3 literal of a python number"""
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction):
        return z3.RatVal(x.numerator, x.denominator)
    return z3.RealVal(x)


def const_of(t):
    """Fraction/int of a numeral term, or None"""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


class FV:
    """floating point value"""
    __slots__ = ("r", "nan", "pinf", "ninf")

    def __init__(self, r, nan=False, pinf=False, ninf=False):
        self.r = r if z3.is_expr(r) else num(r)
        if z3.is_int(self.r):
            self.r = z3.ToReal(self.r)
        self.nan, self.pinf, self.ninf = _fold(nan), _fold(pinf), _fold(ninf)

    @property
    def fin(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    @property
    def finite(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def __repr__(self):
        return f"FV({self.r}{'' if self.finite else ' special'})"


INF = lambda: FV(0, False, True, False)
NAN = lambda: FV(0, True, False, False)


def f_neg(a):
    return FV(-a.r, a.nan, a.ninf, a.pinf)


def f_add(a, b):
    if a.finite and b.finite:
        return FV(a.r + b.r)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    ok = b_not(nan)
    return FV(a.r + b.r, nan, b_and(ok, b_or(a.pinf, b.pinf)), b_and(ok, b_or(a.ninf, b.ninf)))


def f_sub(a, b):
    if a.finite and b.finite:
        return FV(a.r - b.r)
    return f_add(a, f_neg(b))


def _sgn(a):
    pos = b_or(a.pinf, b_and(a.fin, a.r > 0))
    neg = b_or(a.ninf, b_and(a.fin, a.r < 0))
    return pos, neg


def f_mul(a, b):
    if a.finite and b.finite:
        return FV(a.r * b.r)
    ai, bi = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    az, bz = b_and(a.fin, a.r == 0), b_and(b.fin, b.r == 0)
    nan = b_or(a.nan, b.nan, b_and(ai, bz), b_and(bi, az))
    anyinf = b_and(b_or(ai, bi), b_not(nan))
    ap, an = _sgn(a)
    bp, bn = _sgn(b)
    pos = b_or(b_and(ap, bp), b_and(an, bn))
    return FV(a.r * b.r, nan, b_and(anyinf, pos), b_and(anyinf, b_not(pos)))


def f_lt(a, b):
    if a.finite and b.finite:
        return a.r < b.r
    return b_and(b_not(a.nan), b_not(b.nan),
                 b_or(b_and(a.fin, b.fin, a.r < b.r), b_and(a.ninf, b_not(b.ninf)),
                      b_and(b.pinf, b_not(a.pinf))))


def f_eq(a, b):
    if a.finite and b.finite:
        return a.r == b.r
    return b_and(b_not(a.nan), b_not(b.nan),
                 b_or(b_and(a.fin, b.fin, a.r == b.r), b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf)))


def f_le(a, b):
    if a.finite and b.finite:
        return a.r <= b.r
    return b_or(f_lt(a, b), f_eq(a, b))


def f_same(a, b):
    """same value (nan equals nan): for specifications"""
    if a.finite and b.finite:
        return a.r == b.r
    return b_or(b_and(a.nan, b.nan), f_eq(a, b))


# ---- structured values
class Obj:
    """a class object; fields created lazily from `sym` (name, args) if given"""
    _n = 0
    __slots__ = ("rec", "fields", "sym", "ident", "extra", "stamp")

    def __init__(self, rec, fields=None, sym=None, ident=None):
        self.rec, self.fields, self.sym, self.ident = rec, fields or {}, sym, ident
        Obj._n += 1
        self.extra, self.stamp = None, Obj._n

    def __repr__(self):
        return f"<Obj {self.rec['q']} {self.sym or ''}>"


class Box:
    """a variable"""
    __slots__ = ("v", "name", "ty", "stamp")

    def __init__(self, v, name="", ty=None):
        self.v, self.name, self.ty = v, name, ty
        Obj._n += 1
        self.stamp = Obj._n


class Seq:
    """vector / list / string-list...: functional content, replaced on write"""
    __slots__ = ("n", "elem", "elty", "kind", "stamp", "sym")

    def __init__(self, n, elem, elty=None, kind="vector", sym=None):
        self.n = n if z3.is_expr(n) else z3.IntVal(n)
        self.elem, self.elty, self.kind, self.sym = elem, elty, kind, sym
        Obj._n += 1
        self.stamp = Obj._n

    @staticmethod
    def of(items, elty=None, kind="vector"):
        items = list(items)
        return Seq(len(items), list_elem(items), elty, kind)


def list_elem(items):
    def f(i):
        c = const_of(z3.simplify(i)) if z3.is_expr(i) else i
        if c is not None:
            if 0 <= c < len(items):
                return items[c]
            raise Unsupported(f"index {c} outside a concrete list of {len(items)}")
        if not items:
            raise Unsupported("symbolic index into an empty list")
        r = items[-1]
        for j in range(len(items) - 2, -1, -1):
            r = v_ite(i == j, items[j], r)
        return r
    f.items = items
    return f


class MapV:
    """associative container: dom/val functions plus an enumeration of its keys
    (key(i), i < n, in iteration order; pos is its inverse on the domain)"""
    __slots__ = ("n", "key", "pos", "dom", "val", "kty", "vty", "kind", "stamp", "sym", "default")

    def __init__(self, n, key, pos, dom, val, kty=None, vty=None, kind="map", sym=None):
        self.n, self.key, self.pos, self.dom, self.val = n, key, pos, dom, val
        self.kty, self.vty, self.kind, self.sym = kty, vty, kind, sym
        Obj._n += 1
        self.stamp = Obj._n
        self.default = None


class Tup:
    __slots__ = ("v", "kind", "stamp")

    def __init__(self, v, kind="tuple"):
        self.v, self.kind = list(v), kind
        Obj._n += 1
        self.stamp = Obj._n


class Opt:
    __slots__ = ("has", "v", "stamp")

    def __init__(self, has, v):
        self.has, self.v = has, v
        Obj._n += 1
        self.stamp = Obj._n


class Var:
    """std::variant"""
    __slots__ = ("idx", "alts", "stamp")

    def __init__(self, idx, alts):
        self.idx, self.alts = idx, list(alts)
        Obj._n += 1
        self.stamp = Obj._n


class Ptr:
    """raw or smart pointer; id 0 is null; loc set when the pointee is known"""
    __slots__ = ("id", "loc", "to", "smart")

    def __init__(self, id, loc=None, to=None, smart=False):
        self.id = id if z3.is_expr(id) else z3.IntVal(id)
        self.loc, self.to, self.smart = loc, to, smart


class Str:
    """std::string / const char*: an integer code (literals are distinct)"""
    __slots__ = ("t", "lit")

    def __init__(self, t, lit=None):
        self.t, self.lit = t, lit


class Iter:
    """iterator into a container location"""
    __slots__ = ("c", "i", "rev")

    def __init__(self, c, i, rev=False):
        self.c, self.i, self.rev = c, i if z3.is_expr(i) else z3.IntVal(i), rev


class Lam:
    __slots__ = ("ops", "env", "this", "tu", "name")

    def __init__(self, ops, env, this, tu):
        self.ops, self.env, self.this, self.tu, self.name = ops, env, this, tu, None


class PyFn:
    """callable specification-level function"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Dist:
    __slots__ = ("kind", "params", "stamp")

    def __init__(self, kind, params):
        self.kind, self.params, self.stamp = kind, params, 0


class XNode:
    __slots__ = ("id", "kind")

    def __init__(self, id, kind="node"):
        self.id, self.kind = id, kind


class Opaque:
    """a value whose content is irrelevant here (streams, messages, ...)"""
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind, self.data = kind, data


def v_ite(c, a, b):
    c = _fold(z3.simplify(c)) if z3.is_expr(c) else c
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        return b_ite(c, a, b)
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, FV) and isinstance(b, FV):
        return FV(a.r if a.r.eq(b.r) else z3.If(c, a.r, b.r), b_ite(c, a.nan, b.nan),
                  b_ite(c, a.pinf, b.pinf), b_ite(c, a.ninf, b.ninf))
    if type(a) is not type(b):
        raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")
    if isinstance(a, Tup):
        return Tup([v_ite(c, x, y) for x, y in zip(a.v, b.v)], a.kind)
    if isinstance(a, Var):
        return Var(v_ite(c, a.idx, b.idx), [v_ite(c, x, y) for x, y in zip(a.alts, b.alts)])
    if isinstance(a, Opt):
        if a.v is None or b.v is None:
            return Opt(b_ite(c, a.has, b.has), a.v if b.v is None else b.v)
        return Opt(b_ite(c, a.has, b.has), v_ite(c, a.v, b.v))
    if isinstance(a, Str):
        return Str(v_ite(c, a.t, b.t))
    if isinstance(a, XNode):
        return XNode(v_ite(c, a.id, b.id), a.kind)
    if isinstance(a, Ptr):
        if a.loc is not None and a.loc is b.loc:
            return Ptr(v_ite(c, a.id, b.id), a.loc, a.to, a.smart)
        loc = None
        if a.loc is not None or b.loc is not None:
            na, nb = const_of(a.id) == 0, const_of(b.id) == 0
            loc = a.loc if nb else b.loc if na else ("ite", c, a, b)
        return Ptr(v_ite(c, a.id, b.id), loc, a.to or b.to, a.smart)
    if isinstance(a, Iter) and a.c is b.c:
        return Iter(a.c, v_ite(c, a.i, b.i), a.rev)
    if isinstance(a, Obj) and a.rec is b.rec:
        if a.sym and b.sym and not a.fields and not b.fields and a.sym[0] == b.sym[0] and a.sym[0] != "merge" and len(a.sym[1]) == len(b.sym[1]):
            return Obj(a.rec, {}, (a.sym[0], [v_ite(c, x, y) for x, y in zip(a.sym[1], b.sym[1])]))
        keys = set(a.fields) | set(b.fields)
        if set(a.fields) != set(b.fields) and not (a.sym or b.sym):
            raise Unsupported("merge of objects with different fields")
        return MergeObj(c, a, b)
    if isinstance(a, Seq):
        return Seq(v_ite(c, a.n, b.n), lambda i: v_ite(c, a.elem(i), b.elem(i)), a.elty, a.kind)
    if isinstance(a, Opaque):
        if a.kind == b.kind and z3.is_expr(a.data) and z3.is_expr(b.data):
            return Opaque(a.kind, v_ite(c, a.data, b.data))
        return a
    raise Unsupported(f"merge of {type(a).__name__}")


def MergeObj(c, a, b):
    o = Obj(a.rec)
    o.sym = ("merge", c, a, b)
    return o

__all__ = [n for n in list(globals()) if not n.startswith("__")]
