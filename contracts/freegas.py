"""C19 free gas scattering"""
from spec import *
from common import *
from fields import rec_type, field_at
from tally import particle
from sens import same, unchanged, kept, STATE
from xs import energy, cell_field, adjust, tsl, kb, EVAL, SCAT, scatter_cross_section
from selection import of_state
import algebra, loops, stdmodel


def const(en, q):
    return en.load(global_of(en, q)).r


def rotate(en, this, args):
    """contracts of the Direction constructors (C04): the unit vector along a vector, or with the given cosine to a unit vector"""
    V = [en.load(a) for a in args]
    if len(V) == 3 and isinstance(V[0], Obj):
        mu = V[1].r
        en.prove(z3.And(mu >= -1, mu <= 1), "the polar cosine is between -1 and 1", "requires", timeout=20000)
        d = xyz(en, V[0])
        w = [en.fresh("rot", R) for _ in d]
        src = (en.load(args[0]).extra or {}).get("of") or d
        en.assume(z3.And(norm2(w) == 1, dot(w, d) == mu))
        en.gset("rotations", en.gget("rotations", ()) + ((src, d, mu, w, V[2].r),))
        return vec(en, w)
    if len(V) == 1 and isinstance(V[0], Obj):
        if V[0].rec["q"] == "Direction":
            return en.copy(V[0])
        v = xyz(en, V[0])
        en.assume(z3.Or(*[c != 0 for c in v]))
        en.assumed.add("a vector that is normalised is not zero (it is zero for no random numbers but a set of measure zero)")
        w = [en.fresh("unit", R) for _ in v]
        n = en.fresh("len", R)
        en.assume(z3.And(n > 0, n * n == norm2(v), norm2(w) == 1, *[n * a == b for a, b in zip(w, v)]))
        en.gset("units", en.gget("units", ()) + ((v, n, w),))
        o = vec(en, w)
        o.extra = {"of": v}
        return o
    return NotImplemented


def vec(en, w):
    o = Obj(en.prog.recname["Direction"][0])
    for c, x in zip("xyz", w):
        o.fields[c] = FV(x)
    return o


def scattered(en, this, args):
    """contract of Particle::Scatter (C04, C14)"""
    mu, e = [en.load(a) for a in args]
    en.gset("scattered", en.gget("scattered", ()) + ((oid(en, this), mu, e),))


KIN = {**EVAL, "new Direction": rotate, "Particle::Scatter": scattered, **{"ThermalScattering::" + n: tsl(n) for n in ("IsValid",)},
       "ThermalScattering::Scatter": lambda en, this, args: en.gset("tsl", en.gget("tsl", ()) + (oid(en, args[0]),))}


@unit("C19", "collision with a moving target", ["ContinuousScatter::Interact"], contracts=KIN, budget=200)
def u(en):
    def body():
        en.open_draws = True
        p = particle(en, "p")
        pid = oid(en, p)
        E_ = energy(en, p)
        T, Tmax = cell_field(en, p)
        en.assume(T > 0)
        o = LBox(Box(en.symobj("ContinuousScatter", "scatter")))
        a = en.field(en.load(o), "awr").r
        en.assume(a > 0)
        en.assumed.add("schema: atomic weight ratios are positive")
        m = const(en, "constants::neutron_mass")
        kb(en)
        pi = const(en, "constants::pi")
        u_ = xyz(en, en.member(p, "direction"))
        st = kept(en, en.load(p), STATE)
        has = tobool(en.field(en.load(o), "tsl").has)
        frames = []

        s_n = stdmodel.sqrt_(en, FV(2 * E_ / m)).r
        beta = stdmodel.sqrt_(en, FV(a * m / (2 * kb(en) * T))).r
        y = beta * s_n
        log = S.mfun("log", R, R)

        def start(en):
            en.gset("draws", ())

        def sampled(en, accepted):
            """the drawn numbers of one attempt: speed of the target, cosine, acceptance"""
            d = [x[0][3].r for x in en.gget("draws", ()) if x[0][0] == "uniform"]
            if len(d) not in (5, 6):
                raise Unsupported("target velocity sampled in another way")
            first = d[2] * (stdmodel.sqrt_(en, FV(pi)).r * y + 2) < 2
            en.prove(first if len(d) == 5 else z3.Not(first), "which density the target's speed has is decided with probability 2/(sqrt(pi) y + 2)", timeout=20000)
            arg = -log(d[0] * d[1]) if len(d) == 5 else None
            if arg is None:
                c = stdmodel.trig(en, "cos", FV(pi * d[3] / 2)).r
                arg = -log(d[0]) - log(d[1]) * c * c
            x = stdmodel.sqrt_(en, FV(arg)).r
            mu = 2 * d[-2] - 1
            rel = stdmodel.sqrt_(en, FV(x * x + y * y - 2 * x * y * mu)).r
            ok = d[-1] * (x + y) < rel
            if accepted:
                en.prove(ok, "the target velocity is accepted if the drawn number is below relative speed over sum of speeds", timeout=20000)
            else:
                en.prove(z3.Not(ok), "and rejected otherwise", timeout=20000)
            return d, x, y

        def hook(en, s, cb):
            if cb is None:
                return True
            return loops.inv_loop(en, cb[0], cb[1], None, start, lambda en: sampled(en, False), lambda en: frames.append(sampled(en, True)))
        en.loop_hook = hook
        method(en, o, "Interact", [p])
        en.loop_hook = None
        sc, th = en.gget("scattered", ()), en.gget("tsl", ())
        en.prove(en.field(en.load(p), "event") == en.prog.enums["Particle::Event"]["scatter"], "the event is a scatter")
        unchanged(en, en.load(p), st, ["event"])
        if th:
            en.prove(z3.BoolVal(len(th) == 1 and not sc), "thermal scattering replaces the free gas collision")
            en.prove(z3.And(has, th[0] == pid), "where it applies, for this particle")
            return
        en.prove(z3.BoolVal(len(sc) == 1), "the particle is deflected once")
        if len(sc) != 1:
            return
        rot, un = en.gget("rotations", ()), en.gget("units", ())
        if len(rot) != 2 or len(un) < 1 or not frames:
            raise Unsupported("collision kinematics of another form")
        en.prove(sc[0][0] == pid, "this particle")
        (_, d1, mu, w1, phi), (V, d2, mucm, w2, phicm) = rot
        unit1 = [(w1[2], 1 - w1[0] * w1[0] - w1[1] * w1[1])]
        unit2 = unit1 + [(w2[2], 1 - w2[0] * w2[0] - w2[1] * w2[1])]
        v = [s_n * c for c in u_]
        vcm = [x - y for x, y in zip(v, V)]
        vT = [((1 + a) * c - x) / a for c, x in zip(vcm, v)]
        sT = dot(vT, w1)
        L = stdmodel.sqrt_(en, FV(norm2(V))).r
        out = [L * c + x for c, x in zip(w2, vcm)]
        mu_s, e = sc[0][1].r, sc[0][2]
        Eo = e.alts[0].r
        en.prove(e.idx == 0, "the outgoing energy is a continuous one")
        en.prove(z3.And(*[x == y for x, y in zip(d1, u_)]), "the target's direction is chosen relative to the neutron's", timeout=30000)
        for x, c in zip(vT, w1):
            en.prove_identity(x, sT * c, "the target moves along the direction chosen for it", unit1)
        en.prove_identity(2 * Eo, m * norm2(out), "the outgoing energy is that of the velocity with the same speed relative to the centre of mass", unit1)
        vo, n, wo = un[-1]
        for x, c in zip(vo, out):
            en.prove_identity(x, c, "the outgoing velocity is the sum of that of the centre of mass and the neutron's in its frame, turned", unit1)
        en.prove_identity(mu_s, dot(u_, vo) / n, "the scattering cosine is that of the outgoing velocity", (), [(w, x / n) for w, x in zip(wo, vo)])
        d, x, y = frames[-1]
        en.prove_identity(x, beta * sT, "the target's speed is the one sampled", unit1)
        en.prove(mu == 2 * d[-2] - 1, "the cosine between neutron and target is the one sampled", timeout=10000)
        late = [x[0][3].r for x in en.gget("draws", ()) if x[0][0] == "uniform"][len(d):]
        if len(late) != 3:
            raise Unsupported("angles sampled in another way")
        en.prove(phi == 2 * pi * late[0], "the target's azimuth is uniform")
        en.prove(mucm == 2 * late[1] - 1, "the cosine in the centre of mass frame is uniform")
        en.prove(phicm == 2 * pi * late[2], "and so is the azimuth")
    verify(en, "ContinuousScatter::Interact", body)
    en.open_draws = False
    en.loop_hook = None


@unit("C19", "free gas factor", ["ContinuousScatter::GetFreeGasScatterAdjustment"])
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        E_ = energy(en, p)
        k, pi = kb(en), const(en, "constants::pi")
        o = LBox(Box(en.symobj("ContinuousScatter", "scatter")))
        a = en.field(en.load(o), "awr").r
        en.assume(a > 0)
        T = z3.Real("T")
        en.assume(T >= 0)
        x = a * E_ / (k * T)
        r = method(en, o, "GetFreeGasScatterAdjustment", [p, FV(T)])
        unchanged(en, en.load(p), st, [])
        if en.branch(T == 0):
            en.prove(r.r == 1, "a gas at rest changes nothing")
            return
        x = a * E_ / (k * T)
        s = stdmodel.sqrt_(en, FV(x)).r
        want = (1 + 1 / (2 * x)) * stdmodel.erf_(en, FV(s)).r + stdmodel.exp_(en, FV(-x)).r / stdmodel.sqrt_(en, FV(pi * x)).r
        en.prove(tobool(r.fin), "the factor is finite")
        en.prove_identity(r.r, want, "the factor is (1 + 1/2a) erf(sqrt a) + exp(-a)/sqrt(pi a) with a = A E / kT")
    verify(en, "ContinuousScatter::GetFreeGasScatterAdjustment", body)


unit("C19", "effective scatter cross section", ["ContinuousScatter::GetCrossSection", "ContinuousScatter::IsFreeGasScatteringValid"], contracts=SCAT)(scatter_cross_section)


@unit("C19", "energy and momentum are conserved", [])
def u(en):
    """v, V: neutron and target before, c: velocity of the centre of mass, w: direction after in its frame"""
    def body():
        A = z3.Real("A")
        v, V, w = [[z3.Real(n + x) for x in "xyz"] for n in ("v", "V", "w")]
        L = stdmodel.sqrt_(en, FV(norm2([x - (x + A * y) / (1 + A) for x, y in zip(v, V)]))).r
        en.assume(A > 0)
        c = [(x + A * y) / (1 + A) for x, y in zip(v, V)]
        unit = [(w[2], 1 - w[0] * w[0] - w[1] * w[1])]
        out = [L * x + y for x, y in zip(w, c)]
        tgt = [y - L * x / A for x, y in zip(w, c)]
        for a, b, x, y in zip(out, tgt, v, V):
            en.prove_identity(a + A * b, x + A * y, "lemma: momentum is conserved", unit)
        en.prove_identity(norm2(out) + A * norm2(tgt), norm2(v) + A * norm2(V), "lemma: kinetic energy is conserved", unit)
        en.prove_identity(norm2([a - b for a, b in zip(out, tgt)]), norm2([a - b for a, b in zip(v, V)]), "lemma: the relative speed is conserved", unit)
    verify(en, "lemma", body)


@unit("C19", "a target at rest", [])
def u(en):
    def body():
        A, s, mu = z3.Reals("A s mu")
        u_, w = [[z3.Real(n + x) for x in "xyz"] for n in "uw"]
        en.assume(z3.And(A > 0, s > 0, mu >= -1, mu <= 1))
        rules = [(w[2], 1 - w[0] * w[0] - w[1] * w[1]), (u_[2], 1 - u_[0] * u_[0] - u_[1] * u_[1])]
        m = dot(u_, w)
        out = [A * s / (1 + A) * x + s / (1 + A) * y for x, y in zip(w, u_)]
        ratio = norm2(out) / (s * s)
        en.prove_identity(ratio, (A * A + 2 * A * m + 1) / ((A + 1) * (A + 1)), "lemma: energy ratio for the cosine in the centre of mass frame", rules)
        f = (A * A + 2 * A * mu + 1) / ((A + 1) * (A + 1))
        en.prove(f <= 1, "lemma: no energy is gained from a target at rest", timeout=20000)
        en.prove(f >= ((A - 1) * (A - 1)) / ((A + 1) * (A + 1)), "lemma: and no more lost than in a head-on collision", timeout=20000)
        r = stdmodel.sqrt_(en, FV(ratio)).r           # sqrt(E'/E)
        # cosine times sqrt(E'/E) = u.out / s; the formula times sqrt(E'/E) is ((A+1) E'/E - (A-1)) / 2
        en.prove_identity(dot(u_, out) / s, ((A + 1) * ratio - (A - 1)) / 2, "lemma: the lab cosine is ((A+1) sqrt(E'/E) - (A-1) sqrt(E/E'))/2", rules)
    verify(en, "lemma", body)
