"""C10 secondaries"""
from spec import *
from common import *
from tally import particle
from sens import same, unchanged, kept, STATE
import loops

PFIELDS = ("position", "direction", "energy", "cell", "rng", "type", "event")
RNGOUT = lambda s: S.xfn("rng_out", I, I)(s)


def seq_same(en, a, i, b, j):
    return tobool(same(en, a.elem(i), b.elem(j)))


@unit("C10", "banking of a secondary", ["Particle::BankSecondaries", "Bank::emplace_back"])
def u(en):
    def body():
        p = particle(en, "p")
        o = en.load(p)
        st = kept(en, o, STATE)
        b0 = en.copy(en.field(en.field(o, "secondaries"), "banked"))
        rng0 = en.field(o, "rng").data
        d = LBox(Box(en.symobj("Direction", "d")))
        e = LBox(Box(en.mk(en.tyof(o.rec["tu"], en.find_field(o.rec, "energy")[1]["type"]), "e")))
        method(en, p, "BankSecondaries", [d, e])
        o = en.load(p)
        b = en.field(en.field(o, "secondaries"), "banked")
        i = z3.Int("i")
        en.prove(b.n == b0.n + 1, "one secondary is added")
        s = b.elem(b0.n)
        for nm in ("position", "cell"):
            en.prove(tobool(same(en, en.field(s, nm), st[nm])), f"it starts with the parent's {nm}")
        en.prove(tobool(same(en, en.field(s, "direction"), en.load(d))), "with the given direction")
        en.prove(tobool(same(en, en.field(s, "energy"), en.load(e))), "with the given energy")
        en.prove(en.field(s, "type") == en.prog.enums["Particle::Type"]["neutron"], "as a neutron")
        en.prove(en.field(s, "event") == en.prog.enums["Particle::Event"]["birth"], "newly born")
        en.prove(en.field(s, "current_surface").id == 0, "on no surface")
        en.prove(en.field(s, "rng").data == RNGOUT(rng0), "with its own random seed, drawn from the parent")
        en.prove(en.field(o, "rng").data == S.xfn("rng_next", I, I)(rng0), "the parent's generator moves on")
        n = en.field(en.field(s, "secondaries"), "banked").n
        en.prove(n == 0, "and without secondaries of its own")
        x, y = en.symobj("Particle", "any"), None
        same_prefix(en, b, b0, b0.n, 0, "secondaries banked before are not disturbed")
        unchanged(en, o, st, [])
    verify(en, "Particle::BankSecondaries", body)


def same_prefix(en, b, b0, n, off, name):
    i = z3.Int("i")
    en.assume(z3.And(0 <= i, i < n))
    a, c = b.elem(z3.simplify(i + off)), b0.elem(i)
    for f in PFIELDS:
        en.prove(tobool(same(en, en.field(a, f), en.field(c, f))), f"{name} ({f})")


@unit("C10", "joining banks", ["Bank::operator+="])
def u(en):
    def body():
        a, b = LBox(Box(en.symobj("Bank", "a"))), LBox(Box(en.symobj("Bank", "b")))
        A, Bb = [en.copy(en.field(en.load(x), "banked")) for x in (a, b)]
        method(en, a, "operator+=", [b])
        R2 = en.field(en.load(a), "banked")
        en.prove(R2.n == A.n + Bb.n, "no particle is lost or added")
        en.prove(en.field(en.load(b), "banked").n == 0, "the other bank is empty afterwards")
        # particles already waiting keep their places at the back
        same_prefix(en, R2, A, A.n, Bb.n, "particles already waiting stay where they are, at the back")
        j = z3.Int("j")
        en.assume(z3.And(0 <= j, j < Bb.n))
        x, y = R2.elem(j), Bb.elem(j)
        for f in PFIELDS:
            en.prove(tobool(same(en, en.field(x, f), en.field(y, f))), f"the new particles come before them ({f})")
    verify(en, "Bank::operator+=", body)


@unit("C10", "banks", ["Bank::back", "Bank::pop_back", "Bank::empty"])
def u(en):
    def body():
        a = LBox(Box(en.symobj("Bank", "a")))
        b0 = en.copy(en.field(en.load(a), "banked"))
        en.prove(tobool(method(en, a, "empty")) == (b0.n == 0), "empty means without particles")
        en.assume(b0.n > 0)
        f = fn(en, "Bank::back")
        l = en.call(f, a, [])
        x = b0.elem(b0.n - 1)
        for f in PFIELDS:
            en.prove(tobool(same(en, en.field(en.load(l), f), en.field(x, f))), f"the particle at the back ({f})")
        method(en, a, "pop_back")
        b = en.field(en.load(a), "banked")
        en.prove(b.n == b0.n - 1, "one particle is removed")
        same_prefix(en, b, b0, b.n, 0, "the others are not disturbed")
    verify(en, "Bank::pop_back", body)


@unit("C10", "handing over secondaries", ["Particle::MoveSecondariesTo", "Bank::operator+="])
def u(en):
    def body():
        p = particle(en, "p")
        st = kept(en, en.load(p), STATE)
        a = LBox(Box(en.symobj("Bank", "a")))
        A, s0 = en.copy(en.field(en.load(a), "banked")), en.copy(en.field(en.field(en.load(p), "secondaries"), "banked"))
        method(en, p, "MoveSecondariesTo", [a])
        R2 = en.field(en.load(a), "banked")
        en.prove(R2.n == A.n + s0.n, "every secondary is handed over")
        en.prove(en.field(en.field(en.load(p), "secondaries"), "banked").n == 0, "the parent keeps none")
        unchanged(en, en.load(p), st, [])
        same_prefix(en, R2, A, A.n, s0.n, "particles already waiting stay where they are, at the back")
        j = z3.Int("j")
        en.assume(z3.And(0 <= j, j < s0.n))
        for f in PFIELDS:
            en.prove(tobool(same(en, en.field(R2.elem(j), f), en.field(s0.elem(j), f))), f"the secondaries come before them ({f})")
    verify(en, "Particle::MoveSecondariesTo", body)


for _q in ("ContinuousCapture::Interact", "Multigroup::Capture"):
    def mk(q):
        @unit("C10", f"{q.split(':')[0].lower()} capture", [q])
        def u(en):
            def body():
                p = particle(en, "p")
                st = kept(en, en.load(p), STATE)
                n0 = en.field(en.field(en.load(p), "secondaries"), "banked").n
                r0 = en.field(en.load(p), "rng").data
                o = LBox(Box(en.symobj(q.split(":")[0], "reaction")))
                method(en, o, q.split(":")[-1], [p])
                en.prove(en.field(en.load(p), "event") == en.prog.enums["Particle::Event"]["capture"], "the particle is captured")
                en.prove(en.field(en.field(en.load(p), "secondaries"), "banked").n == n0, "without secondaries")
                en.prove(en.field(en.load(p), "rng").data == r0, "without a random number")
                unchanged(en, en.load(p), st, ["event"])
            verify(en, q, body)
    mk(_q)


# ---- fission
def bank(en, this, args):
    """contract of Particle::BankSecondaries (own unit): one secondary with the given direction and energy"""
    o = en.load(this)
    d, e = en.load(args[0]), en.load(args[1])
    en.gset("banked", en.gget("banked", ()) + ((oid(en, this), d, e),))
    en.store(en.member(this, "rng"), Opaque("rng", S.xfn("rng_next", I, I)(en.field(o, "rng").data)))


def fission_unit(cls, setup, energy_ok):
    def u(en):
        def body():
            p = particle(en, "p")
            o = LBox(Box(en.symobj(cls, "reaction")))
            st = kept(en, en.load(p), STATE)
            nubar = setup(en, p, o)
            en.assume(z3.And(nubar >= 0, nubar < 2 ** 31))
            en.assumed.add("the average number of fission neutrons is not negative (and less than 2^31)")
            pid = oid(en, p)
            done = []

            def start(en):
                en.gset("banked", ())
                en.gset("predraws", en.gget("draws", ()))

            def post(en):
                b = en.gget("banked", ())
                en.prove(z3.BoolVal(len(b) == 1), "each round of the loop banks one secondary")
                if len(b) == 1:
                    en.prove(b[0][0] == pid, "of the fissioning particle")
                    dr = [x for x in en.gget("draws", ())[len(en.gget("predraws")):] ]
                    D = LBox(Box(b[0][1]))
                    en.prove(norm2(xyz(en, D)) == 1, "its direction is a unit vector", timeout=30000)
                    energy_ok(en, p, o, st, b[0][2], dr)
            outer = []

            def hook(en, s, cb):
                if outer and s is not outer[0]:
                    return None
                if not outer:
                    outer.append(s)
                if cb is None:
                    return True
                return loops.inv_loop(en, cb[0], cb[1], None, start, post, left)

            def left(en):
                en.prove(z3.BoolVal(False), "fission stops before the whole yield is banked")
            en.loop_hook = hook
            en.gset("banked", ())
            en.gset("predraws", ())
            method(en, o, "Interact" if cls != "Multigroup" else "Fission", [p])
            dr = [d for d, _ in en.gget("predraws", ())] or [d for d, _ in en.gget("draws", ())]
            en.prove(z3.BoolVal(len(dr) == 1 and dr[0][0] == "uniform"), "the yield takes one uniform number")
            K = en.gget("K") if outer else z3.IntVal(0)
            y = nubar + dr[0][3].r
            en.prove(z3.And(z3.ToReal(K) <= y, y < z3.ToReal(K) + 1), "the number of secondaries is the integer part of the yield plus a uniform number")
            en.prove(z3.And(z3.ToReal(K) <= nubar + 1, z3.ToReal(K) > nubar - 1), "it is the integer part of the yield or one more")
            en.prove(en.field(en.load(p), "event") == en.prog.enums["Particle::Event"]["fission"], "the event is a fission")
            unchanged(en, en.load(p), st, ["event"])
        verify(en, cls + " fission", body)
        en.loop_hook = None
    return u


def mg_setup(en, p, o):
    en.assumed.add("multigroup fission data are complete: nubar and chi have an entry for every group, columns of chi are probabilities (C09)")
    ob = en.load(o)
    g = en.field(en.load(p), "energy")
    en.assume(g.idx == 1)
    G = en.field(ob, "max_group")
    g = g.alts[1]
    en.assume(z3.And(1 <= g, g <= G, G < 2 ** 20))
    nb, chi = en.field(ob, "nubar"), en.field(ob, "chi")
    en.assume(z3.And(tobool(nb.has), tobool(chi.has)))
    nv = en.field(nb.v, "elements")
    en.assume(nv.n == G)
    cols = en.field(chi.v, "elements")
    en.assume(cols.n == G)
    col = en.field(cols.elem(g - 1), "elements")
    en.assume(col.n == G)
    probabilities(en, col, G)
    return nv.elem(g - 1).r


def probabilities(en, col, G):
    k = z3.Int("_k")
    en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < G), col.elem(k).r >= 0), patterns=[col.elem(k).r]))
    en.assume(SUM(en, lambda i: col.elem(i).r, G) == 1)


def mg_energy(en, p, o, st, e, dr):
    en.prove(e.idx == 1, "the energy is a group")
    g = e.alts[1]
    G = en.field(en.load(o), "max_group")
    en.prove(z3.And(1 <= g, g <= G), "one of the groups")
    col = en.field(en.field(en.field(en.load(o), "chi").v, "elements").elem(st["energy"].alts[1] - 1), "elements")
    C = lambda n: SUM(en, lambda i: col.elem(i).r, n)
    us = [d[3].r for d, _ in dr if d[0] == "uniform" and d[4] is not None]
    en.prove(z3.Or(*[z3.And(C(g - 1) <= u, u < C(g)) for u in us]), "the group whose interval of the running sum of the spectrum contains the drawn number")


unit("C10", "multigroup fission", ["Multigroup::Fission"], contracts={"Particle::BankSecondaries": bank, **GEOM})(
    fission_unit("Multigroup", mg_setup, mg_energy))


def ce_setup(en, p, o):
    e = en.field(en.load(p), "energy")
    en.assume(e.idx == 0)
    nb = en.field(en.load(o), "nubar")
    en.assume(tobool(nb.has))
    en.assumed.add("fissionable continuous energy nuclides have nubar data (schema)")
    return UF("ContinuousMap.at", I, R, R)(oid(en, LOpt_of(en, o)), e.alts[0].r)


def LOpt_of(en, o):
    return E.LOpt(en.member(o, "nubar"))


def map_at(en, this, args):
    """contract of ContinuousMap::at (C15)"""
    return FV(UF("ContinuousMap.at", I, R, R)(oid(en, this), en.load(args[0]).r))


def ce_energy(en, p, o, st, e, dr):
    en.prove(tobool(same(en, e, st["energy"])), "the energy is that of the incident particle")


unit("C10", "continuous energy fission", ["ContinuousFission::Interact"], contracts={"Particle::BankSecondaries": bank, "ContinuousMap::at": map_at, **GEOM})(
    fission_unit("ContinuousFission", ce_setup, ce_energy))
