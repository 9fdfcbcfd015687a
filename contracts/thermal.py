"""C18 thermal scattering"""
from spec import *
from common import *
from fields import field_at
from tally import particle
from sens import kept, unchanged, STATE
from xs import energy, cell_field, kb, map_at, TEMP
from freegas import scattered
import algebra, engine, loops, os, stdmodel


def axis(en, ds, l):
    """one axis of a data set (a field of an object)"""
    return en.field(ds, "axes").elem(z3.IntVal(l))


def h5_at(en, this, args):
    """contract of HDF5DataSet::at (C16): the stored element of an index combination inside the axes"""
    o = en.load(this)
    if not o.sym:
        raise Unsupported("a data set that is not part of the symbolic object")
    ix = [en.load(a) for a in args]
    for l, i in enumerate(ix):
        en.prove(z3.And(0 <= i, i < axis(en, o, l).n), "the index lies inside its axis", "requires", timeout=10000)
    return FV(elem(o, ix))


def elem(o, ix):
    name, a = o.sym
    return UF("h5." + str(name), *[x.sort() for x in a], *[I] * len(ix), R)(*a, *ix)


def grid(en, v, strict=True):
    """a sorted axis that is not empty"""
    a, b = z3.Ints("ga gb")
    en.assume(v.n >= 1)
    en.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < v.n), v.elem(a).r < v.elem(b).r)))
    en.assumed.add("data files have strictly increasing axes (documented layout)")
    return v


def thermal(en):
    o = LBox(Box(en.symobj("ThermalScattering", "tsl")))
    return o, en.load(o)


def sub(en, o, *names):
    for n in names:
        o = en.field(o, n)
    return o


def orders(en, parts):
    """the data sets of a factorisation agree on the number of orders"""
    n = parts[0].n
    en.assume(n >= 1)
    for p in parts[1:]:
        en.assume(p.n == n)
    en.assumed.add("the data sets of a factorisation have the same number of orders")
    return n


def neutron(en, o):
    return en.field(o, "type") == en.prog.enums["Particle::Type"]["neutron"]


H5 = {"HDF5DataSet::at": h5_at}


@unit("C18", "which collisions it applies to", ["ThermalScattering::IsValid"], contracts=H5)
def u(en):
    def body():
        p = particle(en, "p")
        E_ = energy(en, p)
        o, O = thermal(en)
        st = kept(en, en.load(p), STATE)
        cut = sub(en, O, "cutoff_energy").r
        r = method(en, o, "IsValid", [p])
        en.prove(tobool(r) == z3.And(neutron(en, en.load(p)), E_ < cut), "exactly to neutrons below the cutoff energy")
        unchanged(en, en.load(p), st, [])
    verify(en, "ThermalScattering::IsValid", body)


@unit("C18", "cross section at a grid point", ["ThermalScattering::EvaluateInelastic"], contracts=H5)
def u(en):
    def body():
        o, O = thermal(en)
        S_, E_, T_ = [sub(en, O, "scatter_xs_" + c) for c in "SET"]
        n = orders(en, [axis(en, S_, 0), axis(en, E_, 1), axis(en, T_, 1)])
        i, j = z3.Ints("i j")
        en.assume(z3.And(0 <= i, i < axis(en, E_, 0).n, 0 <= j, j < axis(en, T_, 0).n))
        r = method(en, o, "EvaluateInelastic", [i, j])
        en.prove(r.r == SUM(en, lambda k: elem(S_, [k]) * elem(E_, [i, k]) * elem(T_, [j, k]), n), "the sum over the orders of singular value times modes")
    verify(en, "ThermalScattering::EvaluateInelastic", body)


XS = UF("tsl.xs", I, I, R)


def inelastic(en, this, args):
    i, j = [en.load(a) for a in args]
    O = en.load(this)
    en.prove(z3.And(0 <= i, i < axis(en, sub(en, O, "scatter_xs_E"), 0).n), "energy index inside the grid", "requires")
    en.prove(z3.And(0 <= j, j < axis(en, sub(en, O, "scatter_xs_T"), 0).n), "temperature index inside the grid", "requires")
    return FV(XS(i, j))


def place(en, x, v, i, name):
    """where x lies in the grid v: index and weight of the lower neighbour; one path for each case.
    between two neighbours: any i with v[i] <= x < v[i+1]"""
    z = z3.IntVal(0)
    if en.branch(x < v.elem(z).r):
        return "below the lowest", z, None
    if en.branch(x >= v.elem(v.n - 1).r):
        return "at or above the highest", v.n - 1, None
    lo, hi = v.elem(i).r, v.elem(i + 1).r
    en.assume(z3.And(0 <= i, i + 1 < v.n, lo <= x, x < hi))
    return "between two", i, (x - lo) / (hi - lo)


def linearised(f):
    """f with its nonlinear terms replaced by unknowns, one for each"""
    if engine._hasq(f):
        return z3.BoolVal(True)
    f, memo = z3.simplify(f, som=True), {}

    def go(x):
        if x.get_id() not in memo:
            k = x.decl().kind() if z3.is_app(x) else None
            if k is None or x.num_args() == 0:
                r = x
            elif z3.is_real(x) and (k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1 or k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)) or k == z3.Z3_OP_POWER):
                lead = [c for c in x.children() if z3.is_rational_value(c)] if k == z3.Z3_OP_MUL else []
                rest = z3.Product([c for c in x.children() if not z3.is_rational_value(c)]) if lead else x
                r = z3.Real("nl!" + rest.sexpr())
                for c in lead:
                    r = c * r
            else:
                r = x.decl()(*[go(c) for c in x.children()])
            memo[x.get_id()] = r
        return memo[x.get_id()]
    return go(f)


def settle(en, t, *known):
    """t with the indices that are arguments of uninterpreted functions replaced by known terms they are equal to"""
    facts = z3.Solver()
    facts.add([f if not engine._nonlinear(f) else linearised(f) for f in en.pc])
    sub, seen, todo, done = [], set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        for y in x.children():
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(y) and not z3.is_int_value(y):
                if y.get_id() not in done:
                    done.add(y.get_id())
                    for ms, k in [(ms, k) for ms in (150, 1500) for k in known]:
                        facts.set("timeout", ms)
                        if y.eq(k) or facts.check(y != k) == z3.unsat:
                            sub.append((y, k))
                            break
            else:
                todo.append(y)
    return z3.simplify(z3.substitute(t, *sub)) if sub else t


def linear(at, i, w):
    return at(i) if w is None else at(i) + w * (at(i + 1) - at(i))


@unit("C18", "cross section between grid points", ["ThermalScattering::GetTotal"], contracts={**TEMP, "ThermalScattering::EvaluateInelastic": inelastic}, budget=400)
def u(en):
    def body():
        p = particle(en, "p")
        E_ = energy(en, p)
        T, _ = cell_field(en, p)
        o, O = thermal(en)
        Es = grid(en, axis(en, sub(en, O, "scatter_xs_E"), 0))
        Ts = grid(en, axis(en, sub(en, O, "scatter_xs_T"), 0))
        en.assume(E_ < Es.elem(Es.n - 1).r)
        i, j = z3.Ints("i j")
        nE, i, wE = place(en, E_, Es, i, "wE")
        nT, j, wT = place(en, T, Ts, j, "wT")
        r = method(en, o, "GetTotal", [p])
        en.prove(r.fin, "the cross section is finite", timeout=20000)
        want = linear(lambda t: linear(lambda e: XS(e, t), i, wE), j, wT)
        r = settle(en, r.r, i, i + 1, j, j + 1)
        en.prove_identity(r, want, f"interpolation, {nE} energy, {nT} temperature")
    verify(en, "ThermalScattering::GetTotal", body)


def evaluation(cls, modes, quantity):
    @unit("C18", f"{quantity} at a point of its distribution function", [cls + "::Evaluate"], contracts=H5, budget=400)
    def u(en):
        def body():
            o = LBox(Box(en.symobj(cls, "part")))
            O = en.load(o)
            C, S_, X = sub(en, O, "CDF_modes"), sub(en, O, "singular_values"), sub(en, O, modes)
            n = orders(en, [axis(en, S_, 0), axis(en, C, 1), axis(en, X, 2)])
            Ts = grid(en, axis(en, X, 1))
            f, i = z3.Ints("f i")
            en.assume(z3.And(0 <= f, f < axis(en, C, 0).n, 0 <= i, i < axis(en, X, 0).n))
            T = real(en, "T")
            nT, j, w = place(en, T.r, Ts, z3.Int("j"), "w")
            r = method(en, o, "Evaluate", [f, i, T])
            en.prove(r.fin, "the value is finite", timeout=20000)
            t = z3.Int("t")
            one = SUM(en, lambda k: elem(S_, [k]) * elem(C, [f, k]) * elem(X, [i, t, k]), n)

            def at(v):
                return z3.substitute(one, (t, v))
            r = settle(en, r.r, j, j + 1)
            en.prove_identity(r, linear(at, j, w), f"the sum over orders, interpolated linearly in temperature: {nT} temperature")
        verify(en, cls + "::Evaluate", body)


evaluation("ThermalScattering::BetaPartition", "E_T_modes", "energy transfer")
evaluation("ThermalScattering::AlphaPartition", "beta_T_modes", "momentum transfer")


# ---------------------------------------------------------------- sampling
def layout(en, O, parts, ends, xs, modes):
    """class invariant: the values of all partitions in a row, and where each partition ends"""
    P, ends, xs = sub(en, O, parts), sub(en, O, ends), sub(en, O, xs)
    k, i = z3.Ints("lk li")

    def size(k):
        return axis(en, sub(en, P.elem(k), modes), 0)
    begin = z3.If(k == 0, 0, ends.elem(k - 1))
    en.assume(z3.And(P.n >= 1, ends.n == P.n, xs.n == ends.elem(P.n - 1)))
    inv = lambda k, i: z3.And(size(k).n >= 1, ends.elem(k) == z3.If(k == 0, 0, ends.elem(k - 1)) + size(k).n)
    en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < P.n), inv(k, None)), patterns=[ends.elem(k)]))
    a, b = z3.Ints("la lb")
    en.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < P.n), ends.elem(a) < ends.elem(b)), patterns=[z3.MultiPattern(ends.elem(a), ends.elem(b))]))
    en.assume(z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < P.n, 0 <= i, i < size(k).n), xs.elem(begin + i).r == size(k).elem(i).r), patterns=[size(k).elem(i).r]))
    F = lambda k: axis(en, sub(en, P.elem(k), "CDF_modes"), 0)
    en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < P.n), F(k).n >= 1)))
    en.assume(z3.ForAll([k, a, b], z3.Implies(z3.And(0 <= k, k < P.n, 0 <= a, a < b, b < F(k).n), F(k).elem(a).r < F(k).elem(b).r)))
    return P, grid(en, xs), size


def evaluate(modes, name):
    def f(en, this, args):
        """contract of Evaluate: its own unit; a function of the partition, the indices and the temperature"""
        o = en.load(this)
        k = o.sym[1][-1]
        i, x, T = [en.load(a) for a in args]
        en.prove(z3.And(0 <= i, i < axis(en, sub(en, o, "CDF_modes"), 0).n), "index of the distribution function inside the table", "requires", timeout=20000)
        en.prove(z3.And(0 <= x, x < axis(en, sub(en, o, modes), 0).n), "index inside the partition", "requires", timeout=20000)
        if en.gget("used") is not None and not en.silent:
            en.gset("used", en.gget("used") + ((k, x, T.r),))
        return FV(UF("tsl." + name, I, I, I, R, R)(k, i, x, T.r))
    return f


BETA, ALPHA = UF("tsl.beta", I, I, I, R, R), UF("tsl.alpha", I, I, I, R, R)
SAMPLE = {"ThermalScattering::BetaPartition::Evaluate": evaluate("E_T_modes", "beta"), "ThermalScattering::AlphaPartition::Evaluate": evaluate("beta_T_modes", "alpha"), **H5}


def uniforms(en):
    d = en.gget("draws", ())
    if not all(x[0][0] == "uniform" for x in d):
        raise Unsupported("a random number that is not uniform")
    return [x[0][3].r for x in d]


def attempts(en, what):
    """the loop over attempts: the numbers drawn before it and in the present attempt"""
    def hook(en, s, cb):
        if en.gget("attempts") is not None:
            return None
        if cb is None:
            return True
        en.gset("attempts", uniforms(en))
        return loops.inv_loop(en, cb[0], cb[1], None, lambda en: en.gset("draws", ()))
    en.loop_hook = hook


def gave_up(en, ex, limit):
    """the only error: the number of attempts is used up"""
    if ex.what == "out_of_range":
        en.prove(False, "no index outside a table", timeout=20000)
        return
    en.prove(en.gget("K", z3.IntVal(0)) >= en.load(global_of(en, limit)), "an error only after the allowed number of attempts")


def inverse(en, value, f, modes, k, x, T, F, first, last, *known, tail=lambda v: v):
    """value is that of the inverse of the piecewise linear distribution function through (first, 0), the table, (last, 1)"""
    Fs = axis(en, modes, 0)
    at = lambda q: f(k, q, x, T)
    z, n = z3.IntVal(0), Fs.n - 1
    q = z3.Int("q")
    if en.branch(F < Fs.elem(z).r):
        what, know = "below the first value", [z]
        want = first + F / Fs.elem(z).r * (at(z) - first)
    elif en.branch(F >= Fs.elem(n).r):
        what, know = "above the last value", [n]
        want = at(n) + (F - Fs.elem(n).r) / (1 - Fs.elem(n).r) * (last - at(n))
    else:
        lo, hi = Fs.elem(q).r, Fs.elem(q + 1).r
        what, know = "between two values", [q, q + 1]
        en.assume(z3.And(0 <= q, q < n, lo <= F, F < hi))
        want = at(q) + (F - lo) / (hi - lo) * (at(q + 1) - at(q))
    know += list(known)
    en.prove_identity(settle(en, value, *know), settle(en, tail(want), *know), f"the inverse of the tabulated distribution function at the number drawn, {what}")


@unit("C18", "sampled energy transfer", ["ThermalScattering::SampleBeta"], contracts=SAMPLE, budget=400)
def u(en):
    def body():
        p = particle(en, "p")
        E_, T = real(en, "E"), real(en, "T")
        en.assume(z3.And(E_.r > 0, T.r > 0))
        o, O = thermal(en)
        P, Es, size = layout(en, O, "beta_partitions", "beta_partition_E_ends", "Es", "E_T_modes")
        en.assume(E_.r < Es.elem(Es.n - 1).r)
        en.assumed.add("the tabulated outgoing distributions reach the cutoff energy")
        st = kept(en, en.load(p), STATE)
        nE, i, w = place(en, E_.r, Es, z3.Int("i"), "w")
        kT = kb(en) * T.r
        en.gset("used", ())
        attempts(en, "energy transfer")
        try:
            b = method(en, o, "SampleBeta", [p, E_, T])
        except CppThrow as ex:
            del en.frames[:]
            gave_up(en, ex, "constants::beta_resample_limit")
            return
        finally:
            en.loop_hook = None
        b = b.r
        en.prove(b >= -E_.r / kT, "the outgoing energy is not negative")
        pre, last = en.gget("attempts"), uniforms(en)
        if pre is None or len(pre) != 1 or len(last) != 1:
            raise Unsupported("another number of random numbers")
        xi, F = pre[0], last[0]
        s = i if w is None or not en.branch(xi < w) else i + 1
        used = en.gget("used")
        for k, x, t in used:
            en.prove(z3.And(0 <= k, k < P.n, 0 <= x, x < size(k).n, size(k).elem(x).r == Es.elem(s).r), "the grid used is that of the higher neighbouring energy with the interpolation weight, else the lower", timeout=20000)
            en.prove(t == T.r, "at the temperature of the target")
        if not used:
            en.prove(False, "a table is used", timeout=20000)
            return
        k, x, _ = used[0]
        inverse(en, b, BETA, sub(en, P.elem(k), "CDF_modes"), k, x, T.r, F, -Es.elem(s).r / kT, sub(en, O, "beta_cutoff").r, s)
    verify(en, "ThermalScattering::SampleBeta", body)


def limits(en, E_, kT, awr, b):
    """kinematic limits of the momentum transfer for an energy transfer b"""
    a, c = stdmodel.sqrt_(en, FV(E_)).r, stdmodel.sqrt_(en, FV(E_ + b * kT)).r
    return (a - c) * (a - c) / (awr * kT), (a + c) * (a + c) / (awr * kT)


def target(en):
    """an incident energy, a temperature, the law with its grids of energy transfers"""
    E_, T = real(en, "E"), real(en, "T")
    o, O = thermal(en)
    awr = sub(en, O, "awr").r
    en.assume(z3.And(E_.r > 0, T.r > 0, awr > 0))
    en.assumed.add("schema: atomic weight ratios are positive")
    return E_, T, o, O, awr


def momentum(en, find, case=None):
    p = particle(en, "p")
    E_, T, o, O, awr = target(en)
    b = real(en, "b")
    P, bs, size = layout(en, O, "alpha_partitions", "alpha_partition_beta_ends", "betas", "beta_T_modes")
    en.assume(bs.elem(z3.IntVal(0)).r > 0)
    en.assumed.add("tabulated energy transfers are positive (checked by the constructor)")
    kT = kb(en) * T.r
    en.assume(b.r > -E_.r / kT)
    if case:
        ab, i = z3.If(b.r < 0, -b.r, b.r), z3.Int("i")
        up = bs.elem(i + 1).r
        if "between" in case:
            en.assume(z3.And(0 <= i, i + 1 < bs.n, bs.elem(i).r <= ab, ab < up))
        en.assume(CASES[case](ab, bs, z3.Or(z3.And(b.r > 0, sub(en, O, "beta_cutoff").r <= up), z3.And(b.r < 0, -up < -E_.r / kT))))

    def cutoff(e):
        en.assumed.add("the momentum transfer cutoff of the data exceeds every momentum transfer that can occur")
    en.assert_mode = cutoff
    en.contracts = {**en.contracts, "ThermalScattering::SampleAlpha::find_cdf": find}
    attempts(en, "momentum transfer")
    en.merge_arms = True
    try:
        a = method(en, o, "SampleAlpha", [p, b, E_, T])
    except CppThrow as ex:
        del en.frames[:]
        gave_up(en, ex, "constants::alpha_resample_limit")
        return
    finally:
        en.loop_hook = None
        en.assert_mode = "prove"
    return a.r, E_.r, kT, awr, b.r, (p, T.r, O, P, bs, size)


@unit("C18", "limits of the sampled momentum transfer", ["ThermalScattering::SampleAlpha"], contracts=SAMPLE, budget=300)
def u(en):
    def body():
        r = momentum(en, lambda en, fn, args: FV(en.fresh("cdf", R)))
        if r is None:
            return
        a, E_, kT, awr, b = r[:5]
        lo, hi = limits(en, E_, kT, awr, b)
        en.prove(lo <= a, "the momentum transfer is not below its kinematic limit", timeout=20000)
        en.prove(a <= hi, "the momentum transfer is not above its kinematic limit", timeout=20000)
    verify(en, "ThermalScattering::SampleAlpha", body)


def beta_grid(en, b, E_, kT, bs, xi, cutoff):
    """the tabulated energy transfer whose distribution is used: index and signed value"""
    ab = z3.If(b < 0, -b, b)
    i = z3.Int("i")
    what, i, w = place(en, ab, bs, i, "wb")
    if what == "below the lowest":
        return i, b
    if w is not None:
        up = bs.elem(i + 1).r
        if not en.branch(z3.Or(z3.And(b > 0, cutoff <= up), z3.And(b < 0, -up < -E_ / kT))) and en.branch(xi < w):
            i = i + 1
    return i, z3.If(b < 0, -bs.elem(i).r, bs.elem(i).r)


def alpha_unit(case):
  @unit("C18", "distribution of the sampled momentum transfer, energy transfer " + case, ["ThermalScattering::SampleAlpha"], contracts=SAMPLE, budget=400)
  def u(en):
    def body():
        en.gset("used", ())
        calls = []

        def find(en, fn, args):
            f = en.fresh("cdf", R)
            en.gset("cdfs", en.gget("cdfs", ()) + ((en.load(args[0]).r, f),))
            return FV(f)
        r = momentum(en, find, case)
        if r is None:
            return
        a, E_, kT, awr, b, (p, T, O, P, bs, size) = r
        pre, last, cdfs = en.gget("attempts"), uniforms(en), en.gget("cdfs", ())
        if pre is None or len(pre) != 1 or len(last) != 1 or len(cdfs) != 2:
            raise Unsupported("another number of random numbers or limits")
        s, b_s = beta_grid(en, b, E_, kT, bs, pre[0], sub(en, O, "beta_cutoff").r)
        used = en.gget("used")
        for k, x, t in used:
            en.prove(z3.And(0 <= k, k < P.n, 0 <= x, x < size(k).n, size(k).elem(x).r == bs.elem(s).r), "the grid used is that of the higher neighbouring energy transfer with the interpolation weight if that can occur, else the lower", timeout=20000)
            en.prove(t == T, "at the temperature of the target")
        if not used:
            en.prove(False, "a table is used", timeout=20000)
            return
        slo, shi = limits(en, E_, kT, awr, b_s)
        (x1, f1), (x2, f2) = cdfs
        for x, want, name in ((x1, slo, "lower"), (x2, shi, "upper")):
            en.prove_identity(settle(en, x, s), settle(en, want, s), f"{name} limit of the distribution function")
        lo, hi = limits(en, E_, kT, awr, b)
        k, x, _ = used[0]
        tail = lambda v: lo + (v - slo) * (hi - lo) / (shi - slo)
        inverse(en, a, ALPHA, sub(en, P.elem(k), "CDF_modes"), k, x, T, f1 + last[0] * (f2 - f1), z3.RealVal(0), sub(en, O, "alpha_cutoff").r, s, tail=tail)
    verify(en, "ThermalScattering::SampleAlpha", body)


CASES = {"below the lowest tabulated": lambda ab, bs, far: ab < bs.elem(z3.IntVal(0)).r,
         "at or above the highest tabulated": lambda ab, bs, far: ab >= bs.elem(bs.n - 1).r,
         "between two tabulated, the higher one out of reach": lambda ab, bs, far: z3.And(ab >= bs.elem(z3.IntVal(0)).r, ab < bs.elem(bs.n - 1).r, far),
         "between two tabulated, both within reach": lambda ab, bs, far: z3.And(ab >= bs.elem(z3.IntVal(0)).r, ab < bs.elem(bs.n - 1).r, z3.Not(far))}
# quick: one case; thorough: all (the cases between two tabulated energy transfers are not decided within a quick check)
for case in CASES if os.environ.get("VCG_TIER") == "thorough" else list(CASES)[:1]:
    alpha_unit(case)


@unit("C18", "majorant", ["ThermalScattering::GetMajorant"], contracts={"ContinuousMap::at": map_at})
def u(en):
    def body():
        p = particle(en, "p")
        E_ = energy(en, p)
        o, O = thermal(en)
        r = method(en, o, "GetMajorant", [p])
        m = en.member(o, "majorant")
        en.prove(r.r == UF("ContinuousMap.at", I, R, R)(oid(en, m), E_), "the majorant table at the energy of the particle")
    verify(en, "ThermalScattering::GetMajorant", body)


def sample_beta(en, this, args):
    """contract of SampleBeta: its own unit"""
    p, E_, T = args[0], en.load(args[1]).r, en.load(args[2]).r
    b = FV(en.fresh("beta", R))
    en.assume(b.r > -E_ / (kb(en) * T))
    en.gset("beta", en.gget("beta", ()) + ((oid(en, p), E_, T, b.r),))
    return b


def sample_alpha(en, this, args):
    """contract of SampleAlpha: its own unit"""
    p, b, E_, T = args[0], en.load(args[1]).r, en.load(args[2]).r, en.load(args[3]).r
    kT = kb(en) * T
    en.prove(b > -E_ / kT, "an energy transfer that leaves energy", "requires")
    a = FV(en.fresh("alpha", R))
    x, y = stdmodel.sqrt_(en, FV(E_)).r, stdmodel.sqrt_(en, FV(E_ + b * kT)).r
    akT = sub(en, en.load(this), "awr").r * kT
    en.assume(z3.And(a.r * akT >= (x - y) * (x - y), a.r * akT <= (x + y) * (x + y)))
    en.gset("alpha", en.gget("alpha", ()) + ((oid(en, p), E_, T, b, a.r, x, y),))
    return a


@unit("C18", "collision with a bound target", ["ThermalScattering::Scatter"], contracts={
    **TEMP, "ThermalScattering::SampleBeta": sample_beta, "ThermalScattering::SampleAlpha": sample_alpha, "Particle::Scatter": scattered})
def u(en):
    def body():
        p = particle(en, "p")
        E_ = energy(en, p)
        T, _ = cell_field(en, p)
        o, O = thermal(en)
        awr = sub(en, O, "awr").r
        en.assume(z3.And(E_ > 0, T > 0, awr > 0))
        en.assumed.add("schema: atomic weight ratios are positive")
        en.assumed.add("the sampled energy transfer is not exactly the one that stops the neutron")
        kT = kb(en) * T
        method(en, o, "Scatter", [p])
        sc, be, al = en.gget("scattered", ()), en.gget("beta", ()), en.gget("alpha", ())
        en.prove(z3.BoolVal(len(sc) == len(be) == len(al) == 1), "one energy transfer, one momentum transfer, one change of state")
        if not len(sc) == len(be) == len(al) == 1:
            return
        (q, mu, e), (q1, E1, T1, b), (q2, E2, T2, b2, a, x, y) = sc[0], be[0], al[0]
        pid = oid(en, p)
        en.prove(z3.And(q == pid, q1 == pid, q2 == pid), "of the particle that collides, with its random numbers")
        en.prove(z3.And(E1 == E_, E2 == E_, T1 == T, T2 == T, b2 == b), "for its energy, the temperature at its place and the energy transfer sampled before")
        if isinstance(e, Var):
            en.prove(e.idx == 0, "a continuous energy")
            e = e.alts[0]
        en.prove_identity(e.r, E_ + b * kT, "the outgoing energy is E + beta k T")
        en.prove(e.r > 0, "the outgoing energy is positive")
        en.prove_identity(mu.r, (E_ + E_ + b * kT - a * awr * kT) / (2 * x * y), "the cosine follows from both transfers")
        en.prove(z3.And(mu.r >= -1, mu.r <= 1), "the cosine lies between -1 and 1", timeout=20000)
    verify(en, "ThermalScattering::Scatter", body)
