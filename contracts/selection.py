"""C08 selection of nuclides, reactions and outgoing groups"""
from spec import *
from common import *
from fields import rec_type
from tally import particle
from sens import same, unchanged, kept, STATE
from secondaries import probabilities


def pstate(en, p):
    """everything about a particle that cross sections may depend on"""
    o = en.load(p)
    e = en.field(o, "energy")
    t = en.field(o, "type")
    return xyz(en, en.member(p, "position")) + xyz(en, en.member(p, "direction")) + [
        e.idx if z3.is_expr(e.idx) else z3.IntVal(e.idx), real_of(e.alts[0]), e.alts[1], en.field(o, "cell").id, t]


def real_of(v):
    return v.r if isinstance(v, FV) else v


# what does not depend on where in its cell the particle is (own units of C07)
PLACE_FREE = {"Nuclide.majorant", "Interaction.majorant", "Reaction.majorant", "Reaction.modifies", "tsl.IsValid", "tsl.GetMajorant", "Material.majorant"}


def of_state(en, name, i, p, sort=R):
    s = [i] + pstate(en, p)[3 if name in PLACE_FREE else 0:]
    return UF(name, *[x.sort() for x in s], sort)(*s)


def xs_contract(name):
    """interface contract of a cross section: a function of the object and the particle's current state, not negative"""
    def c(en, this, args):
        r = of_state(en, name, oid(en, this), args[0])
        en.assume(r >= 0)
        return FV(r)
    return c


def acted(name):
    def c(en, this, args):
        en.gset("acted", en.gget("acted", ()) + ((name, oid(en, this), args[0], pstate(en, args[0])),))
        if name == "resample":
            return
        o = en.load(args[0])
    return c


def uniforms(en):
    return [d[3].r for d, _ in en.gget("draws", ()) if d[0] == "uniform" and d[4] is not None] if False else \
           [d[0][3].r for d in en.gget("draws", ()) if d[0][0] == "uniform"]


def interval(en, S_, n, total, thr, chosen, what, share):
    """`chosen`: index -> formula 'this one was chosen'; exactly one index qualifies and its interval holds the threshold"""
    i = z3.Int("i")
    inr = z3.And(0 <= i, i < n)
    en.prove(z3.Implies(z3.And(inr, chosen(i)), z3.And(S_(i) <= thr, thr < S_(i + 1))),
             f"{what}: its interval of the running sum contains the drawn fraction of the total")
    en.prove(z3.Implies(z3.And(inr, chosen(i)), share(i) > 0), f"{what}: one with no share is never chosen")


@unit("C08", "choice of the colliding nuclide", ["Particle::SampleNuclide"], contracts={
    "Material::GetMicroscopicTotal": xs_contract("Material.total"), "Nuclide::GetTotal": xs_contract("Nuclide.total")})
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        pid = oid(en, p)
        ps = pstate(en, p)
        cell = en.field(en.load(p), "cell")
        en.assume(cell.id != 0)
        C = en.load(en.deref(cell))
        mat = en.field(C, "material")
        en.assume(mat.id != 0)
        M = en.load(en.deref(mat))
        af = en.field(M, "afracs")
        tot = lambda i: of_state(en, "Nuclide.total", i, p)
        k = z3.Int("_k")
        key = lambda i: af.key(i)
        share = lambda i: af.val(key(i)).r * tot(key(i).id)
        total = of_state(en, "Material.total", oid(en, en.deref(mat)), p)
        en.assume(total == SUM(en, share, af.n))
        en.assumed.add("contract of Material::GetMicroscopicTotal (C07): the sum of atom fraction times total of its nuclides")
        en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < af.n), z3.And(tot(key(k).id) >= 0, af.val(key(k)).r > 0)),
                            patterns=[key(k).id]))
        en.assume(total > 0)
        en.assumed.add("a nuclide is chosen only in a material with a positive total cross section; atom fractions are positive (C17)")
        r = en.call(fn(en, "Particle::SampleNuclide"), p, [])
        us = uniforms(en)
        en.prove(z3.BoolVal(len(us) == 1 and len(en.gget("draws", ())) == 1), "one uniform number is drawn")
        nid = oid(en, r)
        S_ = lambda i: SUM(en, share, i)
        x = z3.Int("_x")
        en.prove(z3.Exists([x], z3.And(0 <= x, x < af.n, key(x).id == nid)), "the nuclide is one of the material")
        interval(en, S_, af.n, total, us[0] * total, lambda i: key(i).id == nid, "the nuclide", share)
        unchanged(en, en.load(p), st, ["rng"])
    verify(en, "Particle::SampleNuclide", body)


def reaction_contract(name):
    def c(en, this, args):
        en.gset("acted", en.gget("acted", ()) + ((name, oid(en, this), oid(en, args[0])),))
    return c


@unit("C08", "choice of the multigroup reaction", ["Multigroup::Interact", "Multigroup::GetTotal"], contracts={
    "Multigroup::" + n: reaction_contract(n.lower()) for n in ("Capture", "Scatter", "Fission")})
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        o = LBox(Box(en.symobj("Multigroup", "m")))
        ob = en.load(o)
        e = en.field(en.load(p), "energy")
        en.assume(e.idx == 1)
        g = e.alts[1]
        G = en.field(ob, "max_group")
        en.assume(z3.And(1 <= g, g <= G, G < 2 ** 20))
        rs = en.field(ob, "reactions")
        tv = en.field(en.field(ob, "total"), "elements")
        en.assume(tv.n == G)
        k = z3.Int("_k")
        vec = lambda i: en.field(rs.val(rs.key(i)), "elements")
        share = lambda i: vec(i).elem(g - 1).r
        en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < rs.n), z3.And(vec(k).n == G, share(k) >= 0)), patterns=[rs.key(k)]))
        total = tv.elem(g - 1).r
        en.assume(z3.And(total == SUM(en, share, rs.n), total > 0))
        en.assumed.add("the total of a multigroup nuclide is the sum of its reactions (C09) and positive where it is chosen")
        names = en.prog.enums["Reaction"]
        en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < rs.n), z3.Or(*[rs.key(k) == v for v in names.values()])), patterns=[rs.key(k)]))
        method(en, o, "Interact", [p])
        us = uniforms(en)
        en.prove(z3.BoolVal(len(us) == 1 and len(en.gget("draws", ())) == 1), "one uniform number is drawn")
        a = en.gget("acted", ())
        en.prove(z3.BoolVal(len(a) == 1), "exactly one reaction happens")
        if len(a) == 1:
            en.prove(z3.And(a[0][1] == oid(en, o), a[0][2] == oid(en, p)), "to this particle")
            code = names[a[0][0]]
            x = z3.Int("_x")
            en.prove(z3.Exists([x], z3.And(0 <= x, x < rs.n, rs.key(x) == code)), "it is one of the nuclide's reactions")
            interval(en, lambda i: SUM(en, share, i), rs.n, total, us[0] * total, lambda i: rs.key(i) == code, "the reaction", share)
        unchanged(en, en.load(p), st, ["rng"])
    verify(en, "Multigroup::Interact", body)


@unit("C08", "outgoing group of a multigroup scatter", ["Multigroup::Scatter"], contracts=GEOM)
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        o = LBox(Box(en.symobj("Multigroup", "m")))
        ob = en.load(o)
        e = en.field(en.load(p), "energy")
        en.assume(e.idx == 1)
        g = e.alts[1]
        G = en.field(ob, "max_group")
        en.assume(z3.And(1 <= g, g <= G, G < 2 ** 20))
        sp = en.field(ob, "scatter_probs")
        en.assume(tobool(sp.has))
        cols = en.field(sp.v, "elements")
        en.assume(cols.n == G)
        col = en.field(cols.elem(g - 1), "elements")
        en.assume(col.n == G)
        probabilities(en, col, G)
        en.assumed.add("scatter probabilities of the incoming group sum to one (C09)")
        method(en, o, "Scatter", [p])
        dr = en.gget("draws", ())
        us = uniforms(en)
        en.prove(z3.BoolVal(len(us) >= 1), "a uniform number is drawn")
        e2 = en.field(en.load(p), "energy")
        en.prove(e2.idx == 1, "the energy is a group")
        C = lambda n: SUM(en, lambda i: col.elem(i).r, n)
        h = e2.alts[1]
        en.prove(z3.And(1 <= h, h <= G), "one of the groups")
        en.prove(z3.And(C(h - 1) <= us[0], us[0] < C(h)), "the group whose interval of the running sum of the incoming group's probabilities contains the drawn number")
        en.prove(col.elem(h - 1).r > 0, "a group with probability zero is never chosen")
        en.prove(norm2(xyz(en, en.member(p, "direction"))) == 1, "the new direction is a unit vector", timeout=30000)
        if len(us) == 3 and len(dr) == 3:
            d = xyz(en, en.member(p, "direction"))
            en.prove(d[0] == 2 * us[1] - 1 if dr[1][0][1] is None else d[0] == us[1], "isotropic: the x component is uniform")
        else:
            en.prove(z3.BoolVal(False), "the direction takes two more uniform numbers")
        en.prove(en.field(en.load(p), "event") == en.prog.enums["Particle::Event"]["scatter"], "the event is a scatter")
        unchanged(en, en.load(p), st, ["rng", "event", "energy", "direction"])
    verify(en, "Multigroup::Scatter", body)


def modifies(en, this, args):
    return of_state(en, "Reaction.modifies", oid(en, this), args[0], B)


@unit("C08", "choice of the continuous energy reaction", ["Continuous::Interact"], contracts={
    "Continuous::GetTotal": xs_contract("Continuous.total"), "ContinuousReaction::GetCrossSection": xs_contract("Reaction.xs"),
    "ContinuousReaction::Interact": reaction_contract("interact"), "Continuous::Interact": reaction_contract("resample")})
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        o = LBox(Box(en.symobj("Continuous", "c")))
        rs = en.field(en.load(o), "reactions")
        i = z3.Int("i")
        a_, b_ = z3.Ints("_a _b")
        en.assume(z3.ForAll([a_, b_], z3.Implies(z3.And(0 <= a_, a_ < b_, b_ < rs.n), rs.elem(a_).id != rs.elem(b_).id)))
        en.assumed.add("two unique_ptrs never own the same object")
        share = lambda i: of_state(en, "Reaction.xs", rs.elem(i).id, p)
        S_ = lambda i: SUM(en, share, i)
        en.assume(z3.ForAll([a_], z3.Implies(z3.And(0 <= a_, a_ < rs.n), share(a_) >= 0), patterns=[share(a_)]))
        total = of_state(en, "Continuous.total", oid(en, o), p)
        en.assume(total >= 0)
        en.call(fn(en, "Continuous::Interact"), o, [p])
        us = uniforms(en)
        en.prove(z3.BoolVal(len(us) == 1 and len(en.gget("draws", ())) == 1), "one uniform number is drawn")
        a = en.gget("acted", ())
        en.prove(z3.BoolVal(len(a) == 1), "exactly one reaction happens or the choice is repeated")
        if len(a) == 1:
            en.prove(a[0][2] == oid(en, p), "to this particle")
            if a[0][0] == "interact":
                x = z3.Int("_x")
                en.prove(z3.Exists([x], z3.And(0 <= x, x < rs.n, rs.elem(x).id == a[0][1])), "it is one of the nuclide's reactions")
                interval(en, S_, rs.n, total, us[0] * total, lambda i: rs.elem(i).id == a[0][1], "the reaction", share)
            else:
                en.prove(a[0][1] == oid(en, o), "the choice is repeated by the same nuclide")
                en.prove(us[0] * total >= S_(rs.n), "only if the drawn fraction lies beyond the running sum of all reactions")
        unchanged(en, en.load(p), st, ["rng"])
    verify(en, "Continuous::Interact", body)


@unit("C08", "the interaction of the particle's type", ["Nuclide::Interact"], contracts={"Interaction::Interact": reaction_contract("interact")})
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        o = LBox(Box(en.symobj("Nuclide", "n")))
        m = en.field(en.load(o), "xs")
        t = en.field(en.load(p), "type")
        en.assume(tobool(m.dom(t)))
        en.assumed.add("nuclides have data for every particle type of the input (own error otherwise)")
        method(en, o, "Interact", [p])
        a = en.gget("acted", ())
        en.prove(z3.BoolVal(len(a) == 1), "exactly one interaction happens")
        if len(a) == 1:
            en.prove(z3.And(a[0][1] == m.val(t).id, a[0][2] == oid(en, p)), "that of the particle's type")
        unchanged(en, en.load(p), st, [])
    verify(en, "Nuclide::Interact", body)
