"""C07 majorants, C23 continuous cross sections"""
from spec import *
from common import *
from fields import rec_type, field_at
from tally import particle
from sens import same, unchanged, kept, STATE
from secondaries import map_at
from selection import pstate, of_state, xs_contract
import loops


def nochange(en, p, st):
    unchanged(en, en.load(p), st, [])


def local_temperature(en, this, args):
    """interface contract of ScalarField::at inside the declared bounds"""
    v = field_at(oid(en, this), xyz(en, args[0]))
    return FV(v)


TEMP = {"ScalarField::at": local_temperature}


def cell_field(en, p):
    cell = en.field(en.load(p), "cell")
    en.assume(cell.id != 0)
    C = en.load(en.deref(cell))
    t = en.field(C, "temperature")
    en.assume(t.id != 0)
    f = en.load(en.deref(t))
    T = field_at(oid(en, en.deref(t)), xyz(en, en.member(p, "position")))
    Tmax = en.field(f, "upper_bound")
    en.assume(tobool(Tmax.fin))
    return T, Tmax.r


def elsewhere(en, p):
    """the particle is moved to any other place of its cell; the temperature there"""
    q = en.member(p, "position")
    for c in "xyz":
        en.store(en.member(q, c), FV(z3.FreshReal("elsewhere_" + c)))
    T, Tmax = cell_field(en, p)
    bounded(en, T, Tmax)
    return T


def bounded(en, T, Tmax):
    en.assume(z3.And(0 <= T, T <= Tmax))
    en.assumed.add("premise of the property: the local temperature lies between zero and the declared upper bound")


# ---- materials and nuclides
def material_sum(pid, what):
    def u(en):
        def body():
            p = particle(en, "p")
            st = kept(en, en.load(p), STATE)
            m = LBox(Box(en.symobj("Material", "material")))
            af = en.field(en.load(m), "afracs")
            t = lambda i: af.val(af.key(i)).r * of_state(en, "Nuclide." + what, af.key(i).id, p)
            r = method(en, m, "GetMicroscopic" + what.capitalize(), [p])
            en.prove(tobool(r.fin), "the sum is finite")
            en.prove(r.r == SUM(en, t, af.n), f"a material's {what} is the sum of atom fraction times {what} of its nuclides", timeout=30000)
            nochange(en, p, st)
        verify(en, "Material::GetMicroscopic" + what.capitalize(), body)
    return u


XS = {"Nuclide::GetTotal": xs_contract("Nuclide.total"), "Nuclide::GetMajorant": xs_contract("Nuclide.majorant")}
for _w in ("total", "majorant"):
    unit("C07", f"{_w} of a material", ["Material::GetMicroscopic" + _w.capitalize()], contracts=XS)(material_sum("C07", _w))


@unit("C07", "a sum of larger terms is larger", [])
def u(en):
    def body():
        k = z3.Int("k")
        a, t, m = [z3.Function(x, I, R) for x in ("afrac", "total", "majorant")]
        St, Sm = z3.Reals("sum_total sum_majorant")
        en.assume(z3.And(a(k) > 0, m(k) >= t(k), Sm >= St))
        en.prove(Sm + a(k) * m(k) >= St + a(k) * t(k), "induction step: one more nuclide keeps the material's majorant at least its total", "lemma")
        en.prove(z3.RealVal(0) >= z3.RealVal(0), "induction base", "lemma")
    verify(en, "lemma", body)


def dispatch(what):
    def u(en):
        def body():
            p = particle(en, "p")
            st = kept(en, en.load(p), STATE)
            o = LBox(Box(en.symobj("Nuclide", "n")))
            m = en.field(en.load(o), "xs")
            t = en.field(en.load(p), "type")
            en.assume(tobool(m.dom(t)))
            en.assumed.add("nuclides have data for every particle type of the input (own error otherwise)")
            r = method(en, o, "Get" + what.capitalize(), [p])
            en.prove(r.r == of_state(en, "Interaction." + what, m.val(t).id, p), f"a nuclide's {what} is that of its data for the particle's type")
            nochange(en, p, st)
        verify(en, "Nuclide::Get" + what.capitalize(), body)
    return u


INT = {"Interaction::GetTotal": xs_contract("Interaction.total"), "Interaction::GetMajorant": xs_contract("Interaction.majorant")}
for _w in ("total", "majorant"):
    unit("C07", f"{_w} of a nuclide", ["Nuclide::Get" + _w.capitalize()], contracts=INT)(dispatch(_w))


@unit("C07", "multigroup majorant", ["Multigroup::GetMajorant", "Multigroup::GetTotal"])
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        o = LBox(Box(en.symobj("Multigroup", "m")))
        e = en.field(en.load(p), "energy")
        en.assume(e.idx == 1)
        g = e.alts[1]
        v = en.field(en.field(en.load(o), "total"), "elements")
        en.assume(z3.And(1 <= g, g <= v.n))
        en.assumed.add("multigroup particles have a group of the group structure (C08, C09)")
        t, m = method(en, o, "GetTotal", [p]), method(en, o, "GetMajorant", [p])
        en.prove(tobool(f_same(t, v.elem(g - 1))), "the total is that of the particle's group")
        en.prove(tobool(f_same(m, t)), "multigroup majorant and total are equal")
        nochange(en, p, st)
    verify(en, "Multigroup::GetMajorant", body)


# ---- continuous energy
TAB = lambda en, l, E_: UF("ContinuousMap.at", I, R, R)(oid(en, l), E_)


def is_valid(en, this, args):
    """contract of ContinuousEvaluation::IsValid (C23): a function of the evaluation and the temperature"""
    te = en.field(en.load(this), "temperature").r
    t = en.load(args[0]).r
    return valid(te, t)


def valid(te, t):
    """what ContinuousEvaluation::IsValid decides (own unit)"""
    return t - te < z3.Q(5764607523034235, 576460752303423488) * te


EVAL = {"ContinuousEvaluation::IsValid": is_valid, "ContinuousMap::at": map_at, **TEMP}


def evaluation(en, l):
    o = en.load(l)
    te = en.field(o, "temperature")
    en.assume(z3.And(tobool(te.fin), te.r > 0))
    en.assumed.add("evaluation temperatures are positive")
    return te.r


@unit("C23", "evaluations match within the relative tolerance", ["ContinuousEvaluation::IsValid"])
def u(en):
    def body():
        o = LBox(Box(en.symobj("ContinuousEvaluation", "evaluation")))
        te = evaluation(en, o)
        t = z3.Real("T")
        en.assume(t >= 0)
        r = tobool(method(en, o, "IsValid", [FV(t)]))
        # temperatures far below that of the evaluation: known finding, nothing is required
        en.prove(z3.Implies(100 * t >= 99 * te, r == valid(te, t)),
                 "a temperature is valid exactly if it exceeds that of the evaluation by less than one per cent")
    verify(en, "ContinuousEvaluation::IsValid", body)


@unit("C23", "an evaluation is read from its node", ["ContinuousEvaluation::ContinuousEvaluation"], contracts={
    "new HDF5DataSet": lambda en, this, args: hdf5(en, args), "HDF5DataSet::ToContinuousMap": lambda en, this, args: to_map(en, this)})
def u(en):
    def body():
        n = XML("node")
        o = construct(en, "ContinuousEvaluation", [n])
        t = en.field(en.load(o), "temperature")
        en.prove(tobool(f_same(t, S.xdbl(en, attr(en, n.id, "temperature")))), "its temperature is the one of the input")
        x = en.field(en.load(o), "xs")
        en.prove(x.sym[1][0] == xstring(en, n.id, "file") if x.sym and x.sym[0] == "table" else z3.BoolVal(False), "its values are those of the file of the input")
    verify(en, "ContinuousEvaluation::ContinuousEvaluation", body)


def hdf5(en, args):
    a = en.load(args[0])
    o = Obj(en.prog.recname["HDF5DataSet"][0])
    o.extra = {"file": a.t if isinstance(a, Str) else a.data if isinstance(a, Opaque) else None}
    return o


def to_map(en, this):
    o = en.load(this)
    f = (o.extra or {}).get("file")
    if f is None:
        raise Unsupported("a table of an unknown file")
    rec = [r for r in en.prog.recname["ContinuousMap"] if r["usr"].endswith("ContinuousMap>#d#d") and r["usr"].count("ContinuousMap") == 1][0]
    return Obj(rec, {}, ("table", [f]))


def energy(en, p):
    e = en.field(en.load(p), "energy")
    en.assume(e.idx == 0)
    E_ = e.alts[0].r
    en.assume(E_ > 0)
    en.assumed.add("continuous energy particles have a positive continuous energy")
    return E_


@unit("C23", "reactions without temperature treatment", ["ContinuousReaction::GetCrossSection", "ContinuousReaction::GetMajorant", "ContinuousReaction::ModifiesTotal"], contracts=EVAL)
def u(en):
    def body():
        for q in ("ContinuousCapture", "ContinuousFission"):
            p = particle(en, "p")
            st = kept(en, en.load(p), STATE)
            E_ = energy(en, p)
            o = LBox(Box(en.symobj(q, q)))
            t = TAB(en, en.member(en.member(o, "evaluation"), "xs"), E_)
            en.prove(method(en, o, "GetCrossSection", [p]).r == t, f"{q}: the cross section is the tabulated one")
            en.prove(method(en, o, "GetMajorant", [p]).r == t, f"{q}: so is the majorant")
            en.prove(z3.Not(tobool(method(en, o, "ModifiesTotal", [p]))), f"{q}: the total cross section is not modified")
            nochange(en, p, st)
    verify(en, "ContinuousReaction", body)


def adjust(en, this, args):
    """contract of ContinuousScatter::GetFreeGasScatterAdjustment (C19 and lemma below): the free gas factor
    of the target at the particle's energy; at least one and growing with temperature"""
    E_ = en.field(en.load(args[0]), "energy").alts[0].r
    a = en.field(en.load(this), "awr").r
    t = en.load(args[1]).r
    f = UF("freegas", R, R, R, R)
    r = f(a, E_, t)
    en.assume(r >= 1)
    x, y = z3.Reals("_t1 _t2")
    en.axiom(("freegas",), z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y), f(a, E_, x) <= f(a, E_, y)),
                                    patterns=[z3.MultiPattern(f(a, E_, x), f(a, E_, y))]))
    return FV(r)


def tsl(name):
    def c(en, this, args):
        r = of_state(en, "tsl." + name, oid(en, this), args[0], B if name == "IsValid" else R)
        if name == "IsValid":
            return r
        en.assume(r >= 0)
        return FV(r)
    return c


SCAT = {**EVAL, "ContinuousScatter::GetFreeGasScatterAdjustment": adjust,
        **{"ThermalScattering::" + n: tsl(n) for n in ("IsValid", "GetTotal", "GetMajorant")}}


def scatter_setup(en):
    p = particle(en, "p")
    st = kept(en, en.load(p), STATE)
    E_ = energy(en, p)
    T, Tmax = cell_field(en, p)
    o = LBox(Box(en.symobj("ContinuousScatter", "scatter")))
    ev = en.member(o, "evaluation")
    te = evaluation(en, ev)
    t = TAB(en, en.member(ev, "xs"), E_)
    en.assume(t >= 0)
    en.assumed.add("tabulated cross sections are not negative")
    a = en.field(en.load(o), "awr").r
    en.assume(a > 0)
    en.assumed.add("schema: atomic weight ratios are positive")
    o_tsl = en.field(en.load(o), "tsl")
    has = tobool(o_tsl.has)
    l = E.LOpt(en.member(o, "tsl"))
    F = lambda x: UF("freegas", R, R, R, R)(a, E_, x)
    return p, st, o, E_, T, Tmax, te, t, a, has, l, F


def cutoff(en, p, a, E_, T):
    """the free gas treatment applies: a neutron and (hydrogen or an energy below 500 kT / A)"""
    kB = z3.RealVal("8.617333262145e-11")
    neutron = en.prog.enums["Particle::Type"]["neutron"]
    return z3.And(en.field(en.load(p), "type") == neutron, z3.Or(a <= 1, E_ * a < 500 * kb(en) * T))


def kb(en):
    return en.load(global_of(en, "constants::boltzmann")).r


@unit("C23", "scatter cross section", ["ContinuousScatter::GetCrossSection", "ContinuousScatter::IsFreeGasScatteringValid"], contracts=SCAT)
def scatter_cross_section(en):
    def body():
        p, st, o, E_, T, Tmax, te, t, a, has, l, F = scatter_setup(en)
        en.assume(T >= 0)
        r = method(en, o, "GetCrossSection", [p]).r
        tv = of_state(en, "tsl.IsValid", oid(en, l), p, B)
        th = z3.And(has, tv)
        en.prove(z3.Implies(th, r == of_state(en, "tsl.GetTotal", oid(en, l), p)), "thermal scattering replaces the value where it applies")
        v = valid(te, T)
        fg = cutoff(en, p, a, E_, T)
        en.prove(z3.Implies(z3.And(z3.Not(th), v), r == t), "the tabulated value where the evaluation matches the temperature")
        en.prove(z3.Implies(z3.And(z3.Not(th), z3.Not(v), fg), r * F(te) == t * F(T)), "the free gas value below the thermal cutoff")
        en.prove(z3.Implies(z3.And(z3.Not(th), z3.Not(v), z3.Not(fg)), r == t), "the tabulated value above it")
        nochange(en, p, st)
    verify(en, "ContinuousScatter::GetCrossSection", body)


@unit("C07", "majorant of a scatter cross section", ["ContinuousScatter::GetMajorant", "ContinuousScatter::ModifiesTotal", "ContinuousScatter::GetCrossSection", "ContinuousScatter::IsFreeGasScatteringValid"], contracts=SCAT)
def u(en):
    def body():
        p, st, o, E_, T, Tmax, te, t, a, has, l, F = scatter_setup(en)
        bounded(en, T, Tmax)
        m = method(en, o, "GetMajorant", [p]).r
        mod = tobool(method(en, o, "ModifiesTotal", [p]))
        nochange(en, p, st)
        elsewhere(en, p)
        en.assume(z3.Implies(has, of_state(en, "tsl.GetMajorant", oid(en, l), p) >= of_state(en, "tsl.GetTotal", oid(en, l), p)))
        en.assumed.add("data: the tabulated thermal scattering majorant bounds the thermal scattering cross section")
        r = method(en, o, "GetCrossSection", [p]).r
        en.prove(m >= r, "the majorant is at least the cross section anywhere in the cell")
        en.prove(m == method(en, o, "GetMajorant", [p]).r, "the majorant is the same anywhere in the cell")
        en.prove(mod == tobool(method(en, o, "ModifiesTotal", [p])), "so is whether the total is modified")
        tv = of_state(en, "tsl.IsValid", oid(en, l), p, B)
        en.prove(z3.Implies(z3.And(z3.Not(z3.And(has, tv)), te * 101 <= Tmax * 100), m >= t), "and at least the tabulated value when the cell is hotter than the evaluation")
    verify(en, "ContinuousScatter::GetMajorant", body)


@unit("C07", "the free gas factor grows with temperature", [])
def u(en):
    """f(a) = (1 + 1/2a) erf(sqrt a) + exp(-a)/sqrt(pi a); f' = -erf(sqrt a)/(2 a^2) < 0 and f -> 1"""
    def body():
        s, c, ex, er = z3.Reals("s c e erf")      # s = sqrt a, c = 1/sqrt pi, e = exp(-a)
        en.assume(z3.And(s > 0, c > 0, ex > 0, er > 0))
        en.assumed.add("calculus: d/da erf(sqrt a) = exp(-a)/sqrt(pi a), d/da exp(-a) = -exp(-a); a function with negative derivative decreases; the factor tends to one for large a")
        a = s * s
        d = z3.Real("derivative")
        # product rule, multiplied by 2 s^4
        en.assume(d * 2 * s * s * s * s == -er + (1 + 1 / (2 * a)) * (ex * c / s) * 2 * s * s * s * s + (-ex * c / s - ex * c / (2 * s * a)) * 2 * s * s * s * s)
        en.prove(d * 2 * s * s * s * s == -er, "its derivative with respect to A E / kT is -erf(sqrt)/(2 a^2)", "lemma", timeout=20000)
        en.prove(d < 0, "so it decreases with A E / kT and grows with temperature", "lemma", timeout=20000)
    verify(en, "lemma", body)


def modifies(en, this, args):
    return of_state(en, "Reaction.modifies", oid(en, this), args[0], B)


CONT = {**EVAL, "ContinuousReaction::GetCrossSection": xs_contract("Reaction.xs"), "ContinuousReaction::GetMajorant": xs_contract("Reaction.majorant"),
        "ContinuousReaction::ModifiesTotal": modifies}


def cont_setup(en):
    p = particle(en, "p")
    st = kept(en, en.load(p), STATE)
    E_ = energy(en, p)
    T, Tmax = cell_field(en, p)
    o = LBox(Box(en.symobj("Continuous", "c")))
    rs = en.field(en.load(o), "reactions")
    tot = en.member(o, "total")
    te = evaluation(en, tot)
    t = TAB(en, en.member(tot, "xs"), E_)
    mod = lambda i: of_state(en, "Reaction.modifies", rs.elem(i).id, p, B)
    i = z3.Int("_m")
    anymod = z3.Exists([i], z3.And(0 <= i, i < rs.n, mod(i)))
    sums = {k: SUM(en, lambda j: of_state(en, "Reaction." + k, rs.elem(j).id, p), rs.n) for k in ("xs", "majorant")}
    return p, st, o, E_, T, Tmax, rs, te, t, mod, anymod, sums


for _w in ("total", "majorant"):
    def mk(w):
        @unit("C23", f"continuous energy {w}", ["Continuous::Get" + w.capitalize(), "Continuous::ReactionsModifyTotal"], contracts=CONT)
        def u(en):
            def body():
                p, st, o, E_, T, Tmax, rs, te, t, mod, anymod, sums = cont_setup(en)
                r = method(en, o, "Get" + w.capitalize(), [p])
                use = T if w == "total" else Tmax
                v = z3.And(valid(te, use), z3.Not(anymod))
                s = sums["xs" if w == "total" else "majorant"]
                en.prove(z3.Implies(v, r.r == t), "the tabulated total where its evaluation matches the temperature and no reaction modifies it")
                en.prove(z3.Implies(z3.Not(v), r.r == s), f"and otherwise the sum over the reactions")
                nochange(en, p, st)
            verify(en, "Continuous::Get" + w.capitalize(), body)
    mk(_w)


@unit("C07", "majorant of a continuous energy nuclide", ["Continuous::GetMajorant", "Continuous::GetTotal"], contracts=CONT)
def u(en):
    def body():
        p, st, o, E_, T, Tmax, rs, te, t, mod, anymod, sums = cont_setup(en)
        bounded(en, T, Tmax)
        m = method(en, o, "GetMajorant", [p]).r
        nochange(en, p, st)
        T = elsewhere(en, p)
        r = method(en, o, "GetTotal", [p]).r
        sums["xs"] = SUM(en, lambda j: of_state(en, "Reaction.xs", rs.elem(j).id, p), rs.n)
        en.assume(sums["majorant"] >= sums["xs"])
        en.assumed.add("contracts of the reactions: majorant at least the cross section, hence sums alike (own units)")
        en.assume(z3.Implies(z3.And(te > 0, 101 * te <= 100 * Tmax, z3.Not(anymod)), sums["majorant"] >= t))
        en.assumed.add("data: the tabulated total is at most the sum of the tabulated reactions of the same evaluation temperature (reactions then have majorants of at least the tabulated values, own units)")
        en.prove(m >= r, "the majorant is at least the total anywhere in the cell")
        en.prove(m == method(en, o, "GetMajorant", [p]).r, "the majorant is the same anywhere in the cell")
    verify(en, "Continuous::GetMajorant", body)


def seq_in_frames(en, what):
    for fr in reversed(en.frames):
        for l in fr["env"].values():
            try:
                v = en.load(l)
            except Exception:
                continue
            if isinstance(v, Seq):
                return l
    raise Unsupported(what)


@unit("C23", "reactions of a nuclide", ["Continuous::CreateReactions"], contracts={
    "ContinuousReaction::Create": lambda en, this, args: created(en, args)})
def u(en):
    def body():
        n = XML("node")
        nk = S.xkids(en, n.id)
        k = lambda i: S.xkid(en, n.id, i)
        istot = lambda i: S.xfn("xml_name", I, I)(k(i)) == mkcode("total")
        ran = []

        def hook(en, s, cb):
            if cb is None:
                return True
            l = seq_in_frames(en, "no list of reactions")
            en.prove(en.load(l).n == 0, "the list starts empty")
            before = []

            def start(en):
                before[:] = [en.copy(en.load(l))]
                en.gset("created", ())

            def post(en):
                K, b, a = en.gget("K"), before[0], en.load(l)
                j = z3.Int("j")
                en.prove(z3.Implies(istot(K), a.n == b.n), "the total is no reaction")
                en.prove(z3.Implies(z3.Not(istot(K)), a.n == b.n + 1), "every other node adds one reaction")
                en.prove(z3.Implies(z3.Not(istot(K)), a.elem(b.n).id == UF("reaction_of", I, I)(k(K))), "that of the node")
                en.prove(z3.Implies(z3.And(0 <= j, j < b.n), a.elem(j).id == b.elem(j).id), "reactions already there stay")
            r = loops.inv_loop(en, cb[0], cb[1], lambda en: [("the list", en.load(l).n >= 0)], start, post,
                               lambda en: en.prove(z3.BoolVal(False), "no reaction node is left out"))
            ran.append((en.gget("K"), en.copy(en.load(l))))
            return r
        en.loop_hook = hook
        r = static(en, "Continuous::CreateReactions", [n])
        en.loop_hook = None
        if not ran:
            raise Unsupported("no loop over the nodes")
        K, v = ran[-1]
        j = z3.Int("j")
        en.prove(K == nk, "every node of the input is looked at")
        en.prove(r.n == v.n, "every reaction made is in the nuclide")
        en.prove(z3.Implies(z3.And(0 <= j, j < v.n), r.elem(j).id == v.elem(j).id), "in the order of the input")
    verify(en, "Continuous::CreateReactions", body)
    en.loop_hook = None


def created(en, args):
    x = UF("reaction_of", I, I)(en.load(args[0]).id)
    en.assume(x != 0)
    return Ptr(x, None, rec_type(en, "ContinuousReaction"), True)


@unit("C23", "a reaction node makes the reaction of its name", ["ContinuousReaction::Create", "ContinuousCapture::ContinuousCapture", "ContinuousFission::ContinuousFission", "ContinuousScatter::ContinuousScatter"], contracts={
    "new ContinuousEvaluation": lambda en, this, args: en.mk(rec_type(en, "ContinuousEvaluation"), "evaluation_of", [en.load(args[0]).id]),
    "new HDF5DataSet": lambda en, this, args: hdf5(en, args), "HDF5DataSet::ToContinuousMap": lambda en, this, args: to_map(en, this),
    "ContinuousScatter::ReadPandasSAB": lambda en, this, args: sab(en, args)})
def u(en):
    def body():
        n = XML("node")
        nm = S.xfn("xml_name", I, I)(n.id)
        en.assume(n.id != 0)
        names = {"capture": "ContinuousCapture", "scatter": "ContinuousScatter", "fission": "ContinuousFission"}
        en.assume(z3.Or(*[nm == mkcode(x) for x in names]))
        en.assumed.add("schema: reactions are capture, scatter and fission")
        r = static(en, "ContinuousReaction::Create", [n])
        o = en.load(en.deref(r))
        en.prove(z3.Or(*[nm == mkcode(x) for x, c in names.items() if c == o.rec["q"]]), "the reaction has the kind of its name")
        ev = en.field(o, "evaluation")
        node = n.id if o.rec["q"] == "ContinuousCapture" else child(en, n.id, "xs")
        en.prove(ev.sym[1][0] == node if ev.sym and ev.sym[0] == "evaluation_of" else z3.BoolVal(False), "with the evaluation of the input")
        if o.rec["q"] == "ContinuousScatter":
            nuc = S.xfn("xml_parent", I, I)(S.xfn("xml_parent", I, I)(n.id))
            en.prove(tobool(f_same(en.field(o, "awr"), S.xdbl(en, attr(en, nuc, "awr")))), "the atomic weight ratio is that of the nuclide")
            t = en.field(o, "tsl")
            en.prove(tobool(t.has) == (child(en, n.id, "tsl") != 0), "thermal scattering data exactly where the input has them")
        if o.rec["q"] == "ContinuousFission":
            nb = en.field(o, "nubar")
            nn = child(en, n.id, "nubar")
            en.prove(tobool(nb.has) == (nn != 0), "neutron yields exactly where the input has them")
            v = nb.v
            en.prove(z3.Implies(nn != 0, v.sym[1][0] == xstring(en, nn, "file") if v is not None and v.sym and v.sym[0] == "table" else z3.BoolVal(v is None)), "those of the file of the input")
    verify(en, "ContinuousReaction::Create", body)


def sab(en, args):
    """contract of ContinuousScatter::ReadPandasSAB (C18): data exactly for an existing node"""
    n = en.load(args[0]).id
    if en.branch(n != 0):
        return Opt(True, en.mk(rec_type(en, "ThermalScattering"), "tsl_of", [n]))
    return Opt(False, None)
