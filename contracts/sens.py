"""C14 sensitivities"""
from spec import *
from common import *
from fields import rec_type
from tally import particle, lookup, TALLY, event
from material import name_of


def est_score(en, this, args):
    """interface contract of Scorable::GetScore(particle)"""
    if len(args) != 1:
        return NotImplemented
    return FV(UF("Scorable.GetScore", I, I, R)(oid(en, this), oid(en, args[0])))


def density(en, this, args):
    """interface contract of TransportMethod::GetCollisionProbabilityDensity: positive for a particle in a material"""
    r = UF("CollisionProbabilityDensity", I, I, R)(oid(en, this), oid(en, args[0]))
    en.assume(r > 0)
    en.assumed.add("collision probability densities are positive for particles in a material")
    return FV(r)


def effect(kind):
    def c(en, this, args):
        f = UF("Perturbation." + kind, I, I, R, R)
        d = en.load(args[1]).r
        return FV(f(oid(en, this), oid(en, args[0]), d))
    return c


PERT = {"Perturbation::Stream": effect("Stream"), "Perturbation::Scatter": effect("Scatter")}


@unit("C14", "score of a sensitivity", ["CurrentTotalCrossSectionSensitivity::GetScore", "Particle::GetIndirectEffect"],
      contracts={"Scorable::GetScore": est_score})
def u(en):
    def body():
        s = LBox(Box(en.symobj("CurrentTotalCrossSectionSensitivity", "sensitivity")))
        p = particle(en, "p")
        m = en.field(en.load(p), "indirect_effects")
        per = en.ptr_to(en.member(s, "perturbation")).id
        est = en.ptr_to(en.member(s, "estimator")).id
        en.assume(tobool(m.dom(per)))
        en.assumed.add("the particle carries an indirect effect for every perturbation (postcondition of Particle::SetPerturbations)")
        r = method(en, s, "GetScore", [p])
        en.prove(r.r == m.val(per).r * UF("Scorable.GetScore", I, I, R)(est, oid(en, p)), "own estimator's score times own indirect effect")
    verify(en, "CurrentTotalCrossSectionSensitivity::GetScore", body)


def micro(name):
    """interface contract of a material's total and majorant: functions of material and particle"""
    def c(en, this, args):
        r = UF("Material." + name, I, I, R)(oid(en, this), oid(en, args[0]))
        en.assume(r > 0)
        return FV(r)
    return c


MICRO = {"Material::GetMicroscopicTotal": micro("total"), "Material::GetMicroscopicMajorant": micro("majorant")}


@unit("C14", "total cross section perturbation while streaming", ["TotalCrossSectionPerturbation::Stream"],
      contracts={"TransportMethod::GetCollisionProbabilityDensity": density, **MICRO})
def u(en):
    def body():
        o = LBox(Box(en.symobj("TotalCrossSectionPerturbation", "perturbation")))
        p = particle(en, "p")
        d = z3.Real("distance")
        nuc = en.field(en.load(o), "nuclide").id
        cell = en.field(en.load(p), "cell")
        en.assume(cell.id != 0)
        mat = en.field(en.load(en.deref(cell)), "material")
        en.assume(mat.id != 0)
        en.assumed.add("a streaming particle is in a cell with material (transport loops end at void cells)")
        fr = en.field(en.load(en.deref(mat)), "afracs")
        tm = en.load(global_of(en, "Particle::transport_method"))
        en.assume(tm.id != 0)
        en.assumed.add("a transport method has been chosen (Driver constructor)")
        r = method(en, o, "Stream", [p, FV(d)])
        want = 1 / UF("CollisionProbabilityDensity", I, I, R)(tm.id, oid(en, p)) - d
        en.prove(r.r == z3.If(tobool(fr.dom(nuc)), want, z3.RealVal(0)),
                 "where the material contains the nuclide 1/(collision probability density) minus the distance, elsewhere nothing")
    verify(en, "TotalCrossSectionPerturbation::Stream", body)


for _c, _w in (("SurfaceTracking", "total"), ("CellDeltaTracking", "majorant")):
    def mk(c, w):
        @unit("C14", f"collision probability density of {c}", [c + "::GetCollisionProbabilityDensity"], contracts=MICRO)
        def u(en):
            def body():
                o = LBox(Box(en.symobj(c, "method")))
                p = particle(en, "p")
                cell = en.field(en.load(p), "cell")
                en.assume(cell.id != 0)
                mat = en.field(en.load(en.deref(cell)), "material")
                en.assume(mat.id != 0)
                r = method(en, o, "GetCollisionProbabilityDensity", [p])
                en.prove(r.r == UF("Material." + w, I, I, R)(mat.id, oid(en, p)), f"the {w} of the material of the particle's cell")
            verify(en, c + "::GetCollisionProbabilityDensity", body)
    mk(_c, _w)


@unit("C14", "total cross section perturbation when scattering", ["TotalCrossSectionPerturbation::Scatter"])
def u(en):
    def body():
        o = LBox(Box(en.symobj("TotalCrossSectionPerturbation", "perturbation")))
        p = particle(en, "p")
        e = en.field(en.load(p), "energy")
        r = method(en, o, "Scatter", [p, FV(z3.Real("mu")), LBox(Box(en.copy(e)))])
        en.prove(r.r == 0, "scattering adds nothing")
    verify(en, "TotalCrossSectionPerturbation::Scatter", body)


def unchanged(en, o, before, but):
    for n, v in before.items():
        if n in but:
            continue
        en.prove(tobool(same(en, en.field(o, n), v)), f"{n} is not changed")


def same(en, a, b):
    if isinstance(a, Obj):
        return z3.And(*[tobool(same(en, en.field(a, f["name"]), en.field(b, f["name"]))) for _, f in en.all_fields(a.rec)])
    if isinstance(a, Var):
        return z3.And(a.idx == b.idx, *[z3.Implies(a.idx == i, tobool(same(en, x, y))) for i, (x, y) in enumerate(zip(a.alts, b.alts))])
    if isinstance(a, Opaque) and a.kind == "rng":
        return a.data == b.data
    return S.equal(en, a, b)


def kept(en, o, names):
    return {n: en.copy(en.field(o, n)) for n in names}


STATE = ["position", "direction", "energy", "cell", "event", "current_surface", "type"]


@unit("C14", "indirect effects while streaming", ["Particle::Stream"], contracts={**PERT, **GEOM})
def streaming(en):
    def body():
        p = particle(en, "p")
        o = en.load(p)
        st = kept(en, o, STATE)
        m0 = en.copy(en.field(o, "indirect_effects"))
        pos, dr = xyz(en, en.member(p, "position")), xyz(en, en.member(p, "direction"))
        d = z3.Real("distance")
        pid = oid(en, p)
        method(en, p, "Stream", [FV(d)])
        m = en.field(en.load(p), "indirect_effects")
        x = z3.Int("x")
        en.prove(tobool(m.dom(x)) == tobool(m0.dom(x)), "the perturbations stay the same")
        en.prove(z3.Implies(tobool(m0.dom(x)), m.val(x).r == m0.val(x).r + UF("Perturbation.Stream", I, I, R, R)(x, pid, d)),
                 "each effect changes by its own perturbation's contribution")
        new = xyz(en, en.member(p, "position"))
        en.prove(z3.And(*[a == b + d * c for a, b, c in zip(new, pos, dr)]), "the particle moves by the distance along its direction")
        unchanged(en, en.load(p), st, ["position"])
    verify(en, "Particle::Stream", body)


def deflected(en, this, args):
    """contract of the Direction constructors used here (C04): a unit vector that depends on its arguments"""
    V = [en.load(a) for a in args]
    if len(V) == 3 and isinstance(V[0], Obj):
        o = Obj(en.prog.recname["Direction"][0])
        a = [*xyz(en, V[0]), V[1].r, V[2].r]
        for c in "xyz":
            o.fields[c] = FV(UF("deflect." + c, *[R] * 6)(*a))
        return o
    return NotImplemented if len(V) != 1 else en.copy(V[0])


@unit("C14", "indirect effects when scattering", ["Particle::Scatter"], contracts={**PERT, "new Direction": deflected})
def u(en):
    def body():
        p = particle(en, "p")
        o = en.load(p)
        st = kept(en, o, STATE)
        m0 = en.copy(en.field(o, "indirect_effects"))
        mu = z3.Real("mu")
        e = en.mk(en.tyof(o.rec["tu"], en.find_field(o.rec, "energy")[1]["type"]), "new_energy")
        pid = oid(en, p)
        method(en, p, "Scatter", [LBox(Box(FV(mu))), LBox(Box(e))])
        m = en.field(en.load(p), "indirect_effects")
        x = z3.Int("x")
        en.prove(tobool(m.dom(x)) == tobool(m0.dom(x)), "the perturbations stay the same")
        en.prove(z3.Implies(tobool(m0.dom(x)), m.val(x).r == m0.val(x).r + UF("Perturbation.Scatter", I, I, R, R)(x, pid, mu)),
                 "each effect changes by its own perturbation's contribution")
        en.prove(tobool(same(en, en.field(en.load(p), "energy"), e)), "the particle leaves with the given energy")
        unchanged(en, en.load(p), st, ["direction", "energy"])
    verify(en, "Particle::Scatter", body)


@unit("C14", "indirect effects of a new history", ["PerturbationSet::GetIndirectEffects", "Particle::SetPerturbations"])
def u(en):
    def body():
        ps = LBox(Box(en.symobj("PerturbationSet", "perturbations")))
        s = en.copy(en.field(en.load(ps), "perturbations"))
        i, j, x = z3.Ints("i j x")
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        method(en, p, "SetPerturbations", [ps])
        m = en.field(en.load(p), "indirect_effects")
        en.prove(z3.Implies(z3.And(0 <= i, i < s.n), z3.And(tobool(m.dom(s.elem(i).id)), m.val(s.elem(i).id).r == 0)),
                 "every perturbation starts without effect")
        en.prove(z3.Implies(tobool(m.dom(x)), z3.Exists([j], z3.And(0 <= j, j < s.n, s.elem(j).id == x))), "no other effects")
        unchanged(en, en.load(p), st, [])
    verify(en, "Particle::SetPerturbations", body)


@unit("C14", "lookup of a perturbation by name", ["PerturbationSet::FindPerturbationByName"])
def u(en):
    i = z3.Int("i")

    def mk():
        ps = LBox(Box(en.symobj("PerturbationSet", "perturbations")))
        s = en.copy(en.field(en.load(ps), "perturbations"))
        k = z3.Int("_k")
        en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.n), s.elem(k).id != 0), patterns=[s.elem(k).id]))
        return ps, s, Str(z3.Int("name")), lambda q: name_of(en, "Perturbation", s.elem(q).id)

    def body():
        ps, s, nm, N = mk()
        f = fn(en, "PerturbationSet::FindPerturbationByName")
        r = en.call(f, ps, [LBox(Box(nm))])
        en.prove(en.field(en.load(r), "name").t == nm.t, "a perturbation with the given name")
        en.prove(z3.Exists([i], z3.And(0 <= i, i < s.n, s.elem(i).id == oid(en, r))), "out of the set")

    def thrown(*a):
        ps, s, nm, N = mk()
        en.prove(z3.Implies(z3.And(0 <= i, i < s.n), N(i) != nm.t), "an error only if no perturbation has the name")
    verify(en, "PerturbationSet::FindPerturbationByName", body, on_throw=thrown)


@unit("C14", "sensitivity of an estimator to a perturbation", ["Sensitivity::Create", "TotalCrossSectionPerturbation::CreateSensitivity",
                                                              "CurrentTotalCrossSectionSensitivity::CurrentTotalCrossSectionSensitivity"],
      contracts={**TALLY, "PerturbationSet::FindPerturbationByName": lambda en, this, args: found_pert(en, this, args)})
def u(en):
    def mk():
        n = XML("node")
        up = S.xfn("xml_parent", I, I)
        return n, S.xfn("xml_name", I, I)(up(up(n.id))) == mkcode("current")

    def body():
        n, ok = mk()
        en.assume(n.id != 0)
        up = S.xfn("xml_parent", I, I)
        en.assume(z3.And(up(n.id) != 0, up(up(n.id)) != 0))
        e = LBox(Box(en.symobj("Estimator", "estimator")))
        en.load(e).ident = en.fresh("estimator.&", I)
        en.assume(en.field(en.load(e), "bins").id != 0)
        ps = LBox(Box(en.symobj("PerturbationSet", "perturbations")))
        r = static(en, "Sensitivity::Create", [n, ps, e])
        o = en.deref(r)
        en.prove(ok, "only for supported estimators")
        per = UF("FindPerturbationByName", I, I, I)(oid(en, ps), xstring(en, n.id, "name"))
        en.prove(en.ptr_to(en.member(o, "estimator")).id == oid(en, e), "the sensitivity belongs to the estimator")
        en.prove(en.ptr_to(en.member(o, "perturbation")).id == per, "and to the perturbation its node names")

    def thrown(*a):
        n, ok = mk()
        en.prove(z3.Not(ok), "refused only for unsupported estimators")
    verify(en, "Sensitivity::Create", body, on_throw=thrown)


def found_pert(en, this, args):
    i = UF("FindPerturbationByName", I, I, I)(oid(en, this), en.load(args[0]).t)
    en.assume(i != 0)
    o = en.symobj("TotalCrossSectionPerturbation", "perturbation", [i])
    o.ident = i
    o.extra = {"exact": True}
    return LBox(Box(o))


@unit("C14", "nuclide of a total cross section perturbation", ["Perturbation::Create", "TotalCrossSectionPerturbation::TotalCrossSectionPerturbation"],
      contracts=lookup("Nuclide", "World::FindNuclideByName"))
def u(en):
    def body():
        n = XML("node")
        w = LBox(Box(en.symobj("World", "world")))
        en.assume(z3.And(n.id != 0, S.xfn("xml_name", I, I)(n.id) == mkcode("total")))
        r = static(en, "Perturbation::Create", [n, w])
        o = en.load(en.deref(r))
        en.prove(en.field(o, "nuclide").id == UF("World::FindNuclideByName", I, I, I)(oid(en, w), xstring(en, n.id, "nuclide")), "the nuclide named in the input is perturbed")
        en.prove(en.field(o, "name").t == xstring(en, n.id, "name"), "under the name given in the input")
    verify(en, "Perturbation::Create", body)
