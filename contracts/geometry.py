"""C24 point algebra, C04 directions, C01 distances, C02 containment"""
from spec import *
from common import *


def vec(en, name, rec="Point"):
    return LBox(Box(en.symobj(rec, name), name))


def op(en, sym, a, b):
    """call the binary operator on two operands (free function or member)"""
    for f in en.prog.find("operator" + sym, 2):
        if f.d.get("method"):
            continue
        ok = all(S.value_matches(en, f.ty(p["type"]), x) for p, x in zip(f.params, (a, b)))
        if ok:
            r = en.call(f, None, [x if isinstance(x, Loc) else LBox(Box(x)) for x in (a, b)])
            return en.load(r) if isinstance(r, Loc) else r
    return method(en, a, "operator" + sym, [b])


@unit("C24", "componentwise sum, difference and scaling",
      ["operator+", "operator-", "operator*", "operator/", "Point::operator+=", "Point::operator/="])
def u(en):
    def body():
        a, b, s = vec(en, "a"), vec(en, "b"), real(en, "s")
        A, Bv = xyz(en, a), xyz(en, b)
        for sym, want in (("+", lambda i: A[i] + Bv[i]), ("-", lambda i: A[i] - Bv[i])):
            r = xyz(en, op(en, sym, a, b))
            for i in range(3):
                en.prove(r[i] == want(i), f"(a {sym} b)[{'xyz'[i]}] is the componentwise result")
        for nm, r in (("a*s", op(en, "*", a, s)), ("s*a", op(en, "*", s, a))):
            r = xyz(en, r)
            for i in range(3):
                en.prove(r[i] == A[i] * s.r, f"({nm})[{'xyz'[i]}] = a[{'xyz'[i]}] s")
        en.assume(s.r != 0)
        r = xyz(en, op(en, "/", a, s))
        for i in range(3):
            en.prove(r[i] * s.r == A[i], f"(a/s)[{'xyz'[i]}] s = a[{'xyz'[i]}]")
    verify(en, "operators", body)

    def inplace():
        a, b, s = vec(en, "a"), vec(en, "b"), real(en, "s")
        A, Bv = list(xyz(en, a)), xyz(en, b)
        method(en, a, "operator+=", [b])
        r = xyz(en, a)
        for i in range(3):
            en.prove(r[i] == A[i] + Bv[i], f"a += b updates {'xyz'[i]}")
        c = vec(en, "c")
        C = list(xyz(en, c))
        en.assume(s.r != 0)
        method(en, c, "operator/=", [s])
        r = xyz(en, c)
        for i in range(3):
            en.prove(r[i] * s.r == C[i], f"c /= s updates {'xyz'[i]}")
        # aliasing: a += a
        d = vec(en, "d")
        D = list(xyz(en, d))
        method(en, d, "operator+=", [d])
        r = xyz(en, d)
        for i in range(3):
            en.prove(r[i] == 2 * D[i], f"d += d doubles {'xyz'[i]}")
    verify(en, "compound assignment", inplace)


@unit("C24", "products and equality", ["Point::Dot", "Point::Cross", "Point::operator=="])
def u(en):
    def body():
        a, b = vec(en, "a"), vec(en, "b")
        A, Bv = xyz(en, a), xyz(en, b)
        d = method(en, a, "Dot", [b])
        en.prove(d.r == A[0] * Bv[0] + A[1] * Bv[1] + A[2] * Bv[2], "Dot is the sum of the component products")
        c = xyz(en, method(en, a, "Cross", [b]))
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            en.prove(c[i] == A[j] * Bv[k] - A[k] * Bv[j], f"Cross component {'xyz'[i]}")
        e = op(en, "==", a, b)
        en.prove(tobool(e) == z3.And(*[x == y for x, y in zip(A, Bv)]), "equality holds exactly when all components agree")
    verify(en, "products", body)


@unit("C24", "construction", ["Point::Point"])
def u(en):
    def body():
        x, y, z = real(en, "x"), real(en, "y"), real(en, "z")
        p = construct(en, "Point", [x, y, z])
        for c, v in zip(xyz(en, p), (x, y, z)):
            en.prove(c == v.r, "Point(x, y, z) keeps its components")
        n = XML("node")
        q = construct(en, "Point", [n])
        for c, nm in zip(xyz(en, q), "xyz"):
            en.prove(c == xdouble(en, n.id, nm), f"Point(node) reads attribute {nm}")
        for c in xyz(en, construct(en, "Point", [])):
            en.prove(c == 0, "a default Point is the origin")
    verify(en, "constructors", body)


# ---------------------------------------------------------------------------- C04
def finite_xyz(en, loc, what):
    o = en.load(loc) if isinstance(loc, Loc) else loc
    for c in "xyz":
        en.prove(en.field(o, c).fin, f"{what}: component {c} is finite")
    return xyz(en, loc)


def unit_post(en, r, v, what):
    """r is the unit vector along v"""
    n = z3.Real("norm")
    en.assume(z3.And(n > 0, n * n == norm2(v)))
    for c, a, b in zip("xyz", r, v):
        en.prove(a * n == b, f"{what}: component {c} of the direction is that of the vector over its length")
    en.prove(norm2(r) == 1, f"{what}: result is a unit vector")


@unit("C04", "directions from components are unit vectors", ["Direction::Direction", "Point::Normalize"])
def u(en):
    def comps():
        x, y, z = real(en, "x"), real(en, "y"), real(en, "z")
        en.assume(z3.Or(x.r != 0, y.r != 0, z.r != 0))
        d = construct(en, "Direction", [x, y, z])
        unit_post(en, finite_xyz(en, d, "Direction(x, y, z)"), [x.r, y.r, z.r], "Direction(x, y, z)")
    verify(en, "Direction(x, y, z)", comps)

    def frompoint():
        p = vec(en, "p")
        v = list(xyz(en, p))
        en.assume(z3.Or(*[c != 0 for c in v]))
        d = construct(en, "Direction", [p])
        unit_post(en, finite_xyz(en, d, "Direction(Point)"), v, "Direction(Point)")
    verify(en, "Direction(Point)", frompoint)

    def fromnode():
        n = XML("node")
        v = [xdouble(en, n.id, c) for c in "xyz"]
        en.assume(z3.Or(*[c != 0 for c in v]))
        d = construct(en, "Direction", [n])
        unit_post(en, finite_xyz(en, d, "Direction(node)"), v, "Direction(node)")
    verify(en, "Direction(node)", fromnode)

    def normalize():
        p = vec(en, "p")
        v = list(xyz(en, p))
        en.assume(z3.Or(*[c != 0 for c in v]))
        method(en, p, "Normalize", [])
        unit_post(en, finite_xyz(en, p, "Normalize"), v, "Normalize")
    verify(en, "Point::Normalize", normalize)


def unitdir(en, name):
    d = vec(en, name, "Direction")
    en.assume(norm2(xyz(en, d)) == 1)
    know(en, xyz(en, d))
    return d


def deflected(en, d, mu, phi):
    return construct(en, "Direction", [d, mu, phi])


@unit("C04", "deflection by a polar cosine and azimuth", ["Direction::Direction(const Direction&, mu, phi)"],
      contracts=GEOM)
def u(en):
    def body():
        d, mu, phi = unitdir(en, "d"), real(en, "mu"), real(en, "phi")
        en.assume(z3.And(mu.r >= -1, mu.r <= 1))
        r = finite_xyz(en, deflected(en, d, mu, phi), "deflected direction")
        en.prove(norm2(r) == 1, "deflected direction is a unit vector", timeout=60000)
        en.prove(dot(r, xyz(en, d)) == mu.r, "cosine with the original direction is mu", timeout=60000)
    verify(en, "Direction(d, mu, phi)", body)


@unit("C04", "azimuth turns once around the original direction", ["Direction::Direction(const Direction&, mu, phi)"],
      budget=500,
      contracts=GEOM)
def u(en):
    def body():
        d, mu = unitdir(en, "d"), real(en, "mu")
        phi, p0, p1 = real(en, "phi"), real(en, "phi_zero"), real(en, "phi_quarter")
        en.assume(z3.And(mu.r >= -1, mu.r <= 1))
        cos, sin = S.mfun("cos", R, R), S.mfun("sin", R, R)
        for p, c, s_ in ((p0, 1, 0), (p1, 0, 1)):      # a zero azimuth and a quarter turn
            en.assume(cos(p.r) == c)
            en.assume(sin(p.r) == s_)
        a = xyz(en, deflected(en, d, FV(0), p0))
        b = xyz(en, deflected(en, d, FV(0), p1))
        en.prove(dot(a, b) == 0, "a quarter turn of azimuth is orthogonal")
        r = xyz(en, deflected(en, d, mu, phi))
        s = S.sqrt_(en, FV(1 - mu.r * mu.r)).r
        D = xyz(en, d)
        for i in range(3):
            en.prove(r[i] == mu.r * D[i] + s * (cos(phi.r) * a[i] + sin(phi.r) * b[i]),
                     f"component {'xyz'[i]}: the azimuth rotates once around the original direction", timeout=40000)
    verify(en, "Direction(d, mu, phi) azimuth", body)


PI2 = 2 * Fraction(3.141592653589793)


def isotropic_post(en, r, draws, what):
    """r = (x, s cos(phi), s sin(phi)) with x uniform on [-1,1], phi uniform on a turn"""
    us = [d[0] for d in draws if d[0][0] == "uniform"]
    en.prove(len(draws) == 2 and len(us) == 2, f"{what}: draws exactly two uniform numbers")
    if len(us) != 2:
        return
    cos, sin = S.mfun("cos", R, R), S.mfun("sin", R, R)
    alts = []
    for i, j in ((0, 1), (1, 0)):
        ui, uj = us[i][4], us[j][4]
        s = z3.Real(f"{what}.s{i}")
        en.assume(z3.And(s >= 0, s * s == 1 - (2 * ui - 1) * (2 * ui - 1)))
        for sg in (1, -1):
            for off in (0, -PI2 / 2):
                ph = uj * num(PI2) + num(off)
                alts.append(z3.And(r[0] == sg * (2 * ui - 1), r[1] == s * cos(ph), r[2] == s * sin(ph)))
                alts.append(z3.And(r[0] == sg * (2 * ui - 1), r[1] == s * sin(ph), r[2] == s * cos(ph)))
    en.prove(z3.Or(*alts), f"{what}: x is uniform on [-1, 1] and the azimuth about x uniform on a full turn")


@unit("C04", "isotropic directions", ["Direction::Direction(RNG&)"])
def u(en):
    def body():
        rng = LBox(Box(Opaque("rng", z3.Int("rng0")), "rng"))
        d = construct(en, "Direction", [rng])
        r = finite_xyz(en, d, "Direction(rng)")
        en.prove(norm2(r) == 1, "isotropic direction is a unit vector", timeout=30000)
        isotropic_post(en, r, en.gget("draws", ()), "isotropic")
    verify(en, "Direction(rng)", body)


# ---------------------------------------------------------------------------- C01 / C02
def along(o, d, t):
    return [a + t * b for a, b in zip(o, d)]


class Surf:
    """a surface built by its real constructor from a symbolic input node, and its defining function"""

    def __init__(self, en, rec):
        self.rec = rec
        n = XML(rec + "_node")
        self.loc = construct(en, rec, [n])
        if rec == "Sphere":
            c = child(en, n.id, "center")
            self.c = [xdouble(en, c, k) for k in "xyz"]
            self.r = xdouble(en, child(en, n.id, "radius"), "r")
        elif rec == "CylinderX":
            self.r = xdouble(en, n.id, "r")
        else:
            self.c = xdouble(en, n.id, "x")
        if rec != "PlaneX":
            en.assume(self.r > 0)

    def f(self, p):
        """negative inside, zero on the surface"""
        if self.rec == "Sphere":
            return norm2([a - b for a, b in zip(p, self.c)]) - self.r * self.r
        if self.rec == "CylinderX":
            return p[1] * p[1] + p[2] * p[2] - self.r * self.r
        return p[0] - self.c

    def df(self, p, d):
        """derivative of f along d"""
        if self.rec == "Sphere":
            return 2 * dot([a - b for a, b in zip(p, self.c)], d)
        if self.rec == "CylinderX":
            return 2 * (p[1] * d[1] + p[2] * d[2])
        return d[0]

    def a(self, d):
        """second derivative / 2"""
        return z3.RealVal(1) if self.rec == "Sphere" else d[1] * d[1] + d[2] * d[2] if self.rec == "CylinderX" else z3.RealVal(0)


def as_point(v):
    return [FV(x) for x in v]


def mkpoint(en, v):
    return construct(en, "Point", as_point(v))


def quad(a, b, c, t):
    return a * t * t + b * t + c


def first_root(en, r, a, b, c, t):
    """the contract of SolveQuadratic: r is infinite or the least positive simple root"""
    fin = tobool(b_not(r.pinf))
    x = r.r
    q = lambda u: quad(a, b, c, u)
    return [("the result is a number, not negative infinity", tobool(b_not(b_or(r.nan, r.ninf)))),
            ("a finite result is strictly positive", z3.Implies(fin, x > 0)),
            ("a finite result is a root", z3.Implies(fin, q(x) == 0)),
            ("a finite result is a simple root", z3.Implies(fin, 2 * a * x + b != 0)),
            ("no root lies before a finite result", z3.Implies(z3.And(fin, t > 0, t < x), q(t) != 0)),
            ("an infinite result means no simple positive root", z3.Implies(z3.And(z3.Not(fin), t > 0, q(t) == 0), 2 * a * t + b == 0))]


def quad_pre(a, b):
    return z3.And(a >= 0, z3.Or(a > 0, b == 0))


def solve_quadratic(en, this, args):
    a, b, c = [en.load(x).r for x in args]
    ok = [en.load(x).finite for x in args]
    if not all(ok):
        raise Unsupported("non-finite coefficients")
    en.prove(quad_pre(a, b), "coefficients of the surface equation: a > 0, or a = b = 0", "requires", timeout=20000)
    r = FV(en.fresh("root", R), False, en.fresh("noroot", B), False)
    for _, g in first_root(en, r, a, b, c, z3.Real("t")):
        en.assume(g)
    en.gset("quads", en.gget("quads", ()) + ((a, b, c),))
    return r


QUAD = dict(GEOM)
QUAD["CSGSurface::SolveQuadratic"] = solve_quadratic


@unit("C01", "first positive root of a quadratic", ["CSGSurface::SolveQuadratic"], 400)
def u(en):
    def body():
        a, b, c = real(en, "a"), real(en, "b"), real(en, "c")
        t = z3.Real("t")
        en.assume(quad_pre(a.r, b.r))
        r = static(en, "CSGSurface::SolveQuadratic", [a, b, c])
        for nm, g in first_root(en, r, a.r, b.r, c.r, t):
            en.prove(g, nm, timeout=40000)
    verify(en, "SolveQuadratic", body)


def surface_lemmas(en, s, O, D, pts):
    """the quadratic solved for is the surface equation along the path (checked, then used)"""
    for a, b, c in en.gget("quads", ()):
        for x in pts:
            for g in (s.f(along(O, D, x)) == quad(a, b, c, x), s.df(along(O, D, x), D) == 2 * a * x + b):
                if ideal_true(en, g):
                    en.assume(g)


def distance_post(rec):
    def u(en):
        def body():
            s = Surf(en, rec)
            o, d = vec(en, "o"), unitdir(en, "d")
            O, D = xyz(en, o), xyz(en, d)
            r = method(en, s.loc, "Distance", [o, d])
            en.prove(b_not(b_or(r.nan, r.ninf)), f"{rec}: distance is a number, not negative infinity")
            fin = tobool(b_not(r.pinf))
            x = r.r
            imp = lambda g: z3.Implies(fin, g)
            surface_lemmas(en, s, O, D, [x, z3.Real("t")])
            en.prove(imp(x > 0), f"{rec}: a finite distance is strictly positive")
            en.prove(imp(s.f(along(O, D, x)) == 0), f"{rec}: the path is on the surface at the reported distance", timeout=40000)
            en.prove(imp(s.df(along(O, D, x), D) != 0), f"{rec}: the path goes through the surface there", timeout=40000)
            t = z3.Real("t")
            on = s.f(along(O, D, t)) == 0
            en.prove(z3.Implies(z3.And(fin, t > 0, t < x), z3.Not(on)), f"{rec}: no surface point before the reported distance", timeout=40000)
            en.prove(z3.Implies(z3.And(z3.Not(fin), t > 0, on), s.df(along(O, D, t), D) == 0),
                     f"{rec}: infinite only if the path never passes through the surface", timeout=40000)
        verify(en, f"{rec}::Distance", body)
    return u


def contains_post(rec):
    def u(en):
        def body():
            s = Surf(en, rec)
            p = vec(en, "p")
            c = method(en, s.loc, "Contains", [p])
            en.prove(tobool(c) == (s.f(xyz(en, p)) < 0), f"{rec}: inside exactly when the distance is below the radius / offset")
        verify(en, f"{rec}::Contains", body)

        def side():
            s = Surf(en, rec)
            o, d = vec(en, "o"), unitdir(en, "d")
            O, D = list(xyz(en, o)), list(xyz(en, d))
            # contract of Distance (discharged for this override in C01)
            x, inf = z3.Real("x"), z3.Bool("inf")
            t, t2, e = z3.Reals("t t2 e")
            P = lambda q: along(O, D, q)
            en.assume(z3.Implies(z3.Not(inf), z3.And(x > 0, s.f(P(x)) == 0, s.df(P(x), D) != 0)))
            en.used_contracts.add(f"{rec}::Distance")

            def noroot(q):
                en.assume(z3.Implies(z3.And(z3.Not(inf), q > 0, q < x), s.f(P(q)) != 0))
                en.assume(z3.Implies(z3.And(inf, q > 0, s.f(P(q)) == 0), s.df(P(q), D) == 0))
            C = lambda q: tobool(method(en, s.loc, "Contains", [mkpoint(en, P(q))]))
            # just after: for every small enough step e beyond the crossing the side differs from
            # the side every small enough step before it
            en.push_note = None
            cb, ca = C(x - e), C(x + e)
            en.prove(z3.Implies(z3.And(z3.Not(inf), e > 0, e * s.a(D) < s.df(P(x), D), e * s.a(D) < x), z3.And(cb, z3.Not(ca))),
                     f"{rec}: an outward crossing changes the side from inside to outside", timeout=40000)
            en.prove(z3.Implies(z3.And(z3.Not(inf), e > 0, e * s.a(D) < -s.df(P(x), D)), z3.And(z3.Not(cb), ca)),
                     f"{rec}: an inward crossing changes the side from outside to inside", timeout=40000)
        verify(en, f"{rec}: crossing changes the side", side)
    return u


for _r in ("Sphere", "PlaneX", "CylinderX"):
    unit("C01", f"{_r}::Distance", [f"{_r}::Distance", f"{_r}::{_r}"], 400, QUAD)(distance_post(_r))
    unit("C02", f"{_r}::Contains", [f"{_r}::Contains", f"{_r}::{_r}"], 400)(contains_post(_r))
