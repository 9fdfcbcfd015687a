"""Identities of rational functions over square roots and unit vectors, decided by sympy's exact polynomial arithmetic.

A term is read as an element of the field of fractions over its atoms (maximal subterms that are not arithmetic). Rules
atom^2 = replacement (square roots: their argument) are applied outermost first; what remains is zero exactly if the
identity holds for all values of the atoms that satisfy the rules. Divisors are proved not to be zero."""
import z3
from fractions import Fraction
from values import const_of


class NotRational(Exception):
    pass


def atoms_of(f, out, seen):
    if f.get_id() in seen:
        return
    seen.add(f.get_id())
    if const_of(f) is not None:
        return
    if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        for x in f.children():
            atoms_of(x, out, seen)
        return
    if f.sort() != z3.RealSort():
        raise NotRational(str(f))
    out.setdefault(f.get_id(), f)


def is_sqrt(f):
    return z3.is_app(f) and f.decl().name() == "m_sqrt"


class Field:
    def __init__(self, en, terms, rules=(), defs=()):
        """rules: (atom, square); defs: (atom, rational term it equals)"""
        from sympy import QQ
        from sympy.polys.fields import field
        self.en = en
        self.rules = {a.get_id(): (a, q) for a, q in rules}
        self.defs = {a.get_id(): (a, q) for a, q in defs}
        self.at, seen = {}, set()
        todo = list(terms)
        order = []
        while todo:
            new = {}
            for t in todo:
                atoms_of(t, new, seen)
            todo = []
            for i, a in new.items():
                if i in self.at:
                    continue
                self.at[i] = a
                if i in self.defs:
                    todo.append(self.defs[i][1])
                elif i in self.rules:
                    todo.append(self.rules[i][1])
                elif is_sqrt(a):
                    self.rules[i] = (a, a.arg(0))
                    todo.append(a.arg(0))
        names = ["x%d" % k for k in range(len(self.at))]
        self.F, *gens = field(names or ["x"], QQ)
        self.gen = dict(zip(self.at, gens))
        self.cache = {}
        self.divs = []

    def of(self, f):
        i = f.get_id()
        if i in self.cache:
            return self.cache[i]
        c = const_of(f)
        if c is not None:
            c = Fraction(c)
            r = self.F.from_expr(__import__("sympy").Rational(c.numerator, c.denominator)) if False else self.F.one * self.F.domain(c.numerator) / self.F.domain(c.denominator)
        elif i in self.defs:
            r = self.of(self.defs[i][1])
        elif i in self.gen:
            r = self.gen[i]
        else:
            k = f.decl().kind()
            v = [self.of(x) for x in f.children()]
            r = v[0]
            if k == z3.Z3_OP_UMINUS:
                r = -r
            elif k == z3.Z3_OP_DIV:
                if not v[1]:
                    raise NotRational("division by zero")
                if const_of(f.arg(1)) is None:
                    self.divs.append(f.arg(1))
                r = v[0] / v[1]
            else:
                for x in v[1:]:
                    r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
        self.cache[i] = r
        return r

    def depends(self, i, seen):
        """atoms the rule of atom i is made of, transitively"""
        if i in seen:
            return seen
        seen.add(i)
        if i in self.rules:
            d = {}
            atoms_of(self.rules[i][1], d, set())
            for j in d:
                if j in self.defs:
                    e = {}
                    atoms_of(self.defs[j][1], e, set())
                    for q in e:
                        self.depends(q, seen)
                else:
                    self.depends(j, seen)
        return seen

    def zero(self, e):
        """does the element vanish under the rules?"""
        rs = [i for i in self.rules if i in self.gen]
        dep = {i: self.depends(i, set()) - {i} for i in rs}
        done = []
        while rs:        # outermost first: atoms no other remaining rule depends on
            nxt = [i for i in rs if not any(i in dep[j] for j in rs if j != i)]
            if not nxt:
                raise NotRational("rules in a circle")
            done += nxt
            rs = [i for i in rs if i not in nxt]
        idx = {i: k for k, i in enumerate(self.at)}
        for i in done:
            if not e:
                return True
            k = idx[i]
            sq = self.of(self.rules[i][1])
            x = self.gen[i]
            by = {}
            for mon, co in e.numer.terms():
                p = mon[k]
                m = list(mon)
                m[k] = p % 2
                by.setdefault(p // 2, []).append((tuple(m), co))
            r = self.F.zero
            for h, ts in by.items():
                part = self.F.ring.from_dict({}) if False else None
                d = {}
                for m, co in ts:
                    d[m] = d.get(m, 0) + co
                poly = self.F.ring.from_dict(d)
                r += self.F.field_new(poly) * sq ** h if h else self.F.field_new(poly)
            e = r
        return not e


def positive(en, f):
    """a term that is positive by its form, given what is known of its atoms"""
    c = const_of(f)
    if c is not None:
        return c > 0
    k = f.decl().kind() if z3.is_app(f) else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return all(positive(en, x) for x in f.children())
    if is_sqrt(f):
        return positive(en, f.arg(0))
    return en.refuted_by_slice(f <= 0)


def same(en, a, b, rules=(), defs=()):
    """a == b as rational functions under the rules, divisors not zero"""
    try:
        F = Field(en, [a, b], rules, defs)
        e = F.of(a) - F.of(b)
        if not F.zero(e):
            return False
        for d in F.divs:
            if not positive(en, d) and not en.refuted_by_slice(d == 0) and not en.valid_quick(d != 0) and en.check_valid(d != 0, 5000)[0] != "proved":
                return False
        return True
    except (NotRational, ZeroDivisionError):
        return False


def estimate(f, cache):
    """value of a term for pseudo-random positive values of its atoms (square roots: of their arguments)"""
    import cmath, hashlib
    i = f.get_id()
    if i in cache:
        return cache[i][1]
    c = const_of(f)
    if c is not None:
        r = complex(float(c))
    elif is_sqrt(f):
        r = cmath.sqrt(estimate(f.arg(0), cache))
    elif z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
        k = f.decl().kind()
        v = [estimate(x, cache) for x in f.children()]
        r = v[0]
        if k == z3.Z3_OP_UMINUS:
            r = -r
        elif k == z3.Z3_OP_DIV:
            r = v[0] / v[1] if v[1] else complex(0)
        else:
            for x in v[1:]:
                r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
    else:
        r = complex(0.5 + int.from_bytes(hashlib.sha256(f.sexpr().encode()).digest()[:6], "big") / 2.0 ** 48)
    cache[i] = (f, r)
    return r
