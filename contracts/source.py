"""C21 source distributions"""
from spec import *
from common import *
from geometry import isotropic_post, finite_xyz, vec
from sens import same

KIND = {"Point": "@S@Point", "Direction": "@S@Direction", "Energy": "@N@std@S@variant", "Particle::Type": "@S@Particle@E@Type"}


def kind_of(usr):
    for k, s in KIND.items():
        if ">#$" + s in usr:
            return k
    raise MissingFunction("Distribution of " + usr)


def special(en, q, kind):
    for r in en.prog.recname.get(q, ()):
        if ">#$" in r["usr"] and kind_of(r["usr"]) == kind:
            return r
    raise MissingFunction(f"{q}<{kind}>")


def sample_fn(en, rec):
    for m in rec["methods"]:
        if m["name"] == "Sample" and m["usr"] in en.prog.funcs:
            return en.prog.funcs[m["usr"]]
    raise MissingFunction(rec["q"] + "::Sample")


def value_type(en, kind):
    f = sample_fn(en, special(en, "ConstantDistribution", kind))
    return f.ty(f.d["ret"])


def sampled(en, kind, did, state):
    v = en.mk(value_type(en, kind), f"Distribution<{kind}>.Sample", [did, state])
    return v


def after_sample(did, state):
    return UF("Distribution.Sample.rng", I, I, I)(did, state)


def dist_sample(en, this, args):
    """interface contract of Distribution::Sample: a value that depends on the distribution and the generator only;
    the generator moves on"""
    did = oid(en, this)
    kind = kind_of(en.load(this).rec["usr"])
    g = en.load(args[0])
    v = sampled(en, kind, did, g.data)
    note_call(en, did, g.data)
    en.store(args[0], Opaque("rng", after_sample(did, g.data)))
    return v


@unit("C21", "composition of a source particle", ["Source::Sample", "Particle::Particle"], contracts={"Distribution::Sample": dist_sample, **GEOM})
def u(en):
    def body():
        s = LBox(Box(en.symobj("Source", "source")))
        seed = z3.Int("seed")
        en.assume(seed >= 0)
        ids = {}
        for nm in ("position", "direction", "energy", "particle_type"):
            ids[nm] = en.field(en.load(s), nm).id
            en.assume(ids[nm] != 0)
        en.assumed.add("all four distributions of a source exist (schema; its constructor)")
        a, b = trace(en, "trace0"), trace(en, "trace1")
        p = method(en, s, "Sample", [seed])
        A, Bt = en.load(a), en.load(b)
        en.prove(A.n == 4, "four properties are drawn")
        kinds = {"position": "Point", "direction": "Direction", "energy": "Energy", "particle_type": "Particle::Type"}
        st = seed
        # the drawing order is free: every distribution once, each from the state the previous left
        states = [Bt.elem(i) for i in range(4)]
        who = [A.elem(i) for i in range(4)]
        en.prove(states[0] == seed, "the first draw starts from the history's seed")
        for i in range(3):
            en.prove(states[i + 1] == after_sample(who[i], states[i]), "each draw continues from the previous one")
        final = after_sample(who[3], states[3])
        for nm, k in kinds.items():
            f = {"particle_type": "type"}.get(nm, nm)
            got = en.field(p, f)
            en.prove(z3.Or(*[z3.And(who[i] == ids[nm], tobool(same(en, got, sampled(en, k, ids[nm], states[i])))) for i in range(4)]),
                     f"the {f} is the one drawn from its own distribution")
        en.prove(en.field(p, "rng").data == S.xfn("rng_out", I, I)(final), "the particle's generator is seeded by the history's generator after the other properties were drawn")
        en.prove(en.field(p, "cell").id == 0, "no cell yet")
        en.prove(en.field(p, "event") == en.prog.enums["Particle::Event"]["birth"], "the particle is born")
        en.prove(en.field(p, "current_surface").id == 0, "no surface crossed yet")
    verify(en, "Source::Sample", body)


def made_for(en, this, args, kind):
    n = en.load(args[0])
    return Ptr(UF(f"Distribution<{kind}>.Create", I, I)(n.id), None, None, True)


def create_contract(en, this, args):
    """Distribution::Create (own units): the distribution its node declares"""
    kind = kind_of(en.callee_usr)
    return made_for(en, this, args, kind)


def constant_unit(kind):
    def u(en):
        def body():
            rec = special(en, "ConstantDistribution", kind)
            f = sample_fn(en, rec)
            o = Obj(rec, {}, ("dist", []))
            o.extra = {"exact": True}
            b = LBox(Box(o))
            c = en.copy(en.field(o, "constant"))
            rng = LBox(Box(Opaque("rng", z3.Int("g"))))
            r = en.call(f, b, [rng])
            r = en.load(r) if isinstance(r, Loc) else r
            en.prove(tobool(same(en, r, c)), "the declared value is returned")
            en.prove(en.load(rng).data == z3.Int("g"), "no random number is used")
        verify(en, f"ConstantDistribution<{kind}>::Sample", body)
    return u


for _k in KIND:
    unit("C21", f"constant distribution of {_k}", ["ConstantDistribution::Sample"], contracts=GEOM)(constant_unit(_k))


@unit("C21", "isotropic directions", ["IsotropicDistribution::Sample", "Direction::Direction(RNG&)"])
def u(en):
    def body():
        o = LBox(Box(en.symobj("IsotropicDistribution", "dist")))
        rng = LBox(Box(Opaque("rng", z3.Int("g"))))
        d = LBox(Box(method(en, o, "Sample", [rng])))
        r = finite_xyz(en, d, "isotropic source")
        en.prove(norm2(r) == 1, "a unit vector", timeout=30000)
        isotropic_post(en, r, en.gget("draws", ()), "isotropic source")
    verify(en, "IsotropicDistribution::Sample", body)


def deflect(en, this, args):
    """contract of Direction(reference, mu, phi): discharged under C04"""
    V = [en.load(a) for a in args]
    if len(V) != 3 or not isinstance(V[0], Obj):
        return NotImplemented
    en.prove(z3.And(V[1].r >= -1, V[1].r <= 1), "the polar cosine is between -1 and 1", "requires", timeout=20000)
    o = Obj(en.prog.recname["Direction"][0])
    for c in "xyz":
        o.fields[c] = FV(UF("deflect." + c, *[R] * 6)(*xyz(en, V[0]), V[1].r, V[2].r))
    return o


@unit("C21", "isotropic flux", ["IsotropicFlux::Sample"], contracts={"new Direction": deflect})
def u(en):
    def body():
        o = LBox(Box(en.symobj("IsotropicFlux", "dist")))
        ref = xyz(en, en.member(o, "reference"))
        rng = LBox(Box(Opaque("rng", z3.Int("g"))))
        d = method(en, o, "Sample", [rng])
        dr = [r for r, _ in en.gget("draws", ())]
        en.prove(len(dr) == 2 and all(r[0] == "uniform" for r in dr), "two independent uniform numbers are drawn")
        en.prove(en.load(rng).data != z3.Int("g") if False else z3.BoolVal(all(l is rng or l == rng for _, l in en.gget("draws", ()))), "from the history's generator")
        # which draw is the polar one and which the azimuth is free
        mu, phi = z3.Reals("mu phi")
        alts = []
        pi = S.const_pi(en) if hasattr(S, "const_pi") else None
        for a, b in ((0, 1), (1, 0)):
            ua, ub = dr[a][4], dr[b][4]
            alts.append((dr[a], dr[b]))
        out = []
        for A, Bd in alts:
            out.append(flux_shape(en, d, ref, A, Bd))
        en.prove(z3.Or(*out), "the polar cosine is the square root of a uniform number and the azimuth is uniform on a full turn")
    verify(en, "IsotropicFlux::Sample", body)


def flux_shape(en, d, ref, A, Bd):
    """d is the reference direction deflected by cosine sqrt(u) about an azimuth uniform on an interval of length 2 pi"""
    got = [en.field(d, c).r for c in "xyz"]
    f = got[0]
    ok = []
    terms = []
    for c, g in zip("xyz", got):
        g = z3.simplify(g)
        if g.decl().name() != "deflect." + c:
            return z3.BoolVal(False)
        terms.append(g)
    mu, phi = terms[0].arg(3), terms[0].arg(4)
    ok += [t.arg(i) == r for t in terms for i, r in enumerate(ref)]
    ok += [t.arg(i) == terms[0].arg(i) for t in terms[1:] for i in (3, 4)]
    u = A[4] * (A[2].r - A[1].r) + A[1].r
    import math
    lo, hi = Bd[1].r, Bd[2].r
    PI = num(math.pi)
    ok += [mu >= 0, mu * mu == A[4], phi == lo + (hi - lo) * Bd[4], z3.Or(hi - lo == 2 * PI, hi - lo == -2 * PI)]
    return z3.And(*ok)


# ---- construction
def created(en, this, args):
    """Distribution::Create (its own units below)"""
    kind = kind_of(en.callee_usr)
    n = en.load(args[0])
    i = UF(f"Distribution<{kind}>.Create", I, I)(n.id)
    en.assume(i != 0)
    return Ptr(i, None, None, True)


@unit("C21", "distributions of a source", ["Source::Source"], contracts={"Distribution::Create": created})
def u(en):
    def body():
        n = XML("node")
        s = construct(en, "Source", [n])
        for f, c, k in (("position", "position", "Point"), ("direction", "direction", "Direction"), ("energy", "energy", "Energy"),
                        ("particle_type", "particletype", "Particle::Type")):
            en.prove(en.field(en.load(s), f).id == UF(f"Distribution<{k}>.Create", I, I)(child(en, n.id, c)), f"the {f} follows the distribution declared for it")
    verify(en, "Source::Source", body)


@unit("C21", "names of particle types", ["Particle::ToType"])
def u(en):
    def body():
        nm = Str(z3.Int("name"))
        en.assume(z3.Or(nm.t == mkcode("neutron"), nm.t == mkcode("photon")))
        en.assumed.add("schema: particle types are neutron or photon")
        r = static(en, "Particle::ToType", [nm])
        e = en.prog.enums["Particle::Type"]
        en.prove(r == z3.If(nm.t == mkcode("neutron"), z3.IntVal(e["neutron"]), z3.IntVal(e["photon"])), "the type of that name")
    verify(en, "Particle::ToType", body)


def create_fn(en, kind):
    for f in en.prog.find("Distribution::Create"):
        if kind_of(f.usr) == kind:
            return f
    raise MissingFunction(f"Distribution<{kind}>::Create")


def first(en, n):
    return S.xml_method(en, XNode(n), "first_child", []).id


def create_unit(kind, types):
    def u(en):
        def body():
            n = XML("node")
            dn = first(en, n.id)
            nm = S.xfn("xml_name", I, I)(dn)
            en.assume(z3.And(n.id != 0, dn != 0, z3.Or(*[nm == mkcode(t) for t in types])))
            en.assumed.add(f"schema: {kind} distributions are {', '.join(types)}")
            if kind == "Particle::Type":
                t = xstring(en, dn, "type")
                en.assume(z3.Or(t == mkcode("neutron"), t == mkcode("photon")))
            if kind == "Energy":
                et = energy_kind(en, n)
                en.assume(z3.Or(et == mkcode("multigroup"), et == mkcode("continuous")))
                en.assumed.add("schema: nuclide data are all multigroup or all continuous")
            if kind == "Direction":
                for c in [dn]:
                    en.assume(z3.Or(*[xdouble(en, c, k) != 0 for k in "xyz"]))
                en.assumed.add("declared directions are not the zero vector")
            try:
                r = en.call(create_fn(en, kind), None, [LBox(Box(n))])
            except CppThrow:
                del en.frames[:]
                en.prove(z3.BoolVal(kind == "Energy"), "only malformed numbers are refused")
                return
            r = en.load(r) if isinstance(r, Loc) else r
            o = en.load(en.deref(r))
            q = o.rec["q"]
            want = {"ConstantDistribution": "constant", "IsotropicDistribution": "isotropic", "IsotropicFlux": "isotropic-flux"}.get(q)
            en.prove(z3.BoolVal(want is not None), "one of the distributions is made")
            en.prove(nm == mkcode(want or ""), f"the {q} is made for \"{want}\" only")
            if q == "ConstantDistribution":
                c = en.field(o, "constant")
                if kind == "Point":
                    en.prove(z3.And(*[en.field(c, k).r == xdouble(en, dn, k) for k in "xyz"]), "the constant is the declared point")
                elif kind == "Direction":
                    unit_along(en, [en.field(c, k).r for k in "xyz"], [xdouble(en, dn, k) for k in "xyz"])
                elif kind == "Particle::Type":
                    e = en.prog.enums["Particle::Type"]
                    en.prove(c == z3.If(t == mkcode("neutron"), z3.IntVal(e["neutron"]), z3.IntVal(e["photon"])), "the constant is the declared type")
                else:
                    mg = et == mkcode("multigroup")
                    en.prove(mg == (c.idx == 1), "a group in multigroup problems, an energy in continuous ones")
                    a = S.xstr(en, attr(en, dn, "energy"))
                    en.prove(z3.Implies(mg, c.alts[1] == S.xfn("str_int", I, I)(a.t)) if not isinstance(c.alts[1], type(None)) else z3.BoolVal(True), "the declared group")
                    en.prove(z3.Implies(z3.Not(mg), c.alts[0].r == S.xfn("str_dbl", I, R)(a.t)) if c.alts[0] is not None else z3.BoolVal(True), "the declared energy")
            elif q == "IsotropicFlux":
                c = en.field(o, "reference")
                unit_along(en, [en.field(c, k).r for k in "xyz"], [xdouble(en, dn, k) for k in "xyz"])
        verify(en, f"Distribution<{kind}>::Create", body)
    return u


def unit_along(en, D, v):
    en.prove(z3.And(norm2(D) == 1, dot(D, v) > 0, *[D[a] * v[b] == D[b] * v[a] for a, b in ((0, 1), (1, 2), (0, 2))]), "the direction is the declared one, normalised", timeout=20000)


def energy_kind(en, n):
    r = S.xml_method(en, n, "root", [])
    m = child(en, child(en, r.id, "minimc"), "nuclides")
    return S.xml_method(en, XNode(first(en, m)), "name", []).t


for _k, _t in (("Point", ["constant"]), ("Direction", ["constant", "isotropic", "isotropic-flux"]), ("Energy", ["constant"]), ("Particle::Type", ["constant"])):
    unit("C21", f"declared distribution of {_k}", ["Distribution::Create"], contracts=GEOM)(create_unit(_k, _t))
