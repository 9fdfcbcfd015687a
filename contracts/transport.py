"""C05 surface tracking, C06 delta tracking"""
from spec import *
from common import *
from fields import rec_type
from tally import particle
from sens import same, unchanged, kept, STATE, streaming, PERT
from selection import pstate, of_state, PLACE_FREE
import loops

NUDGE = z3.RealVal("1e-6")


def cell_at(p):
    return UF("World.cell", R, R, R, I)(*p)


def find_cell(en, this, args):
    """contract of World::FindCellContaining (C03): the cell of the point"""
    c = cell_at(xyz(en, args[0]))
    en.assume(c != 0)
    return en.deref(Ptr(c, None, rec_type(en, "Cell")))


def cell_of(en, cid):
    return en.load(LBox(en.heap_box(Ptr(cid, None, rec_type(en, "Cell")))))


def material_of(en, cid):
    return en.field(cell_of(en, cid), "material")


def micro(name, m, ps):
    s = ps[3 if name in PLACE_FREE else 0:]
    return UF(name, I, *[x.sort() for x in s], R)(m, *s)


def positive(name):
    def c(en, this, args):
        r = of_state(en, name, oid(en, this), args[0])
        en.assume(r > 0)
        en.assumed.add("cross sections of materials are positive for particles in flight (else the rate of the exponential is not positive)")
        return FV(r)
    return c


def nearest(en, this, args):
    """contract of Cell::NearestSurface (C03): a bounding surface and the distance to it, or plus infinity"""
    a = [oid(en, this), *xyz(en, args[0]), *xyz(en, args[1])]
    d = surface_distance(a)
    en.assume(z3.Or(tobool(d.pinf), d.r > 0))
    return Tup([Ptr(UF("Cell.nearest", *[x.sort() for x in a], I)(*a), None, rec_type(en, "CSGSurface"), True), d])


def surface_distance(a):
    s = [x.sort() for x in a]
    return FV(UF("Cell.distance", *s, R)(*a), False, UF("Cell.distance.inf", *s, B)(*a), False)


def log(en, *x):
    en.gset("log", en.gget("log", ()) + (x,))


def stream(en, this, args):
    """contract of Particle::Stream (C05, C14)"""
    d = en.load(args[0])
    en.prove(b_not(b_or(d.pinf, d.ninf, d.nan)), "particles move by finite distances")
    l = en.member(this, "position")
    p, u = xyz(en, l), xyz(en, en.member(this, "direction"))
    log(en, "stream", oid(en, this), d.r)
    for c, a, b in zip("xyz", p, u):
        en.store(en.member(l, c), FV(a + b * d.r))


def chosen(en, this, args):
    """contract of Particle::SampleNuclide (C08)"""
    s = [oid(en, this)] + pstate(en, this) + [en.field(en.load(this), "rng").data]
    n = UF("Particle.nuclide", *[x.sort() for x in s], I)(*s)
    en.assume(n != 0)
    log(en, "choose", oid(en, this), n, pstate(en, this))
    l = en.member(this, "rng")
    en.store(l, Opaque("rng", S.xfn("rng_next", I, I)(en.load(l).data)))
    return en.deref(Ptr(n, None, rec_type(en, "Nuclide")))


def interact(en, this, args):
    """contract of Nuclide::Interact (C08, C10, C18, C19): direction, energy, generator and secondaries change, the event
    is the one of the reaction"""
    p = args[0]
    log(en, "interact", oid(en, p), oid(en, this), pstate(en, p))
    o = en.load(p)
    E_ = en.prog.enums["Particle::Event"]
    ev = en.fresh("event", I)
    en.assume(z3.Or(*[ev == E_[x] for x in ("capture", "scatter", "fission")]))
    en.store(en.member(p, "event"), ev)
    en.store(en.member(p, "rng"), Opaque("rng", en.fresh("rng", I)))
    for f in ("direction", "energy", "secondaries"):
        t = en.find_field(o.rec, f)
        en.store(en.member(p, f), en.mk(en.tyof(t[0]["tu"], t[1]["type"]), f"after_{f}{en.nfresh}"))
        en.nfresh += 1


def score(en, this, args):
    """contract of EstimatorSetProxy::Score (C13)"""
    o = en.load(args[0])
    log(en, "score", oid(en, args[0]), oid(en, this), kept(en, o, STATE))


FLIGHT = {"World::FindCellContaining": find_cell, "Material::GetMicroscopicTotal": positive("Material.total"),
          "Material::GetMicroscopicMajorant": positive("Material.majorant"), "Cell::NearestSurface": nearest, "Particle::Stream": stream,
          "Particle::SampleNuclide": chosen, "Nuclide::Interact": interact, "EstimatorSetProxy::Score": score}


def tracking(en, cls, delta):
    def body():
        E_ = en.prog.enums["Particle::Event"]
        m = LBox(Box(en.symobj(cls, "method")))
        p = particle(en, "p")
        e = LBox(Box(en.symobj("EstimatorSetProxy", "proxy")))
        w = LBox(Box(en.symobj("World", "world")))
        pid, eid = oid(en, p), oid(en, e)
        f = lambda n: en.field(en.load(p), n)
        alive = lambda v: z3.And(*[v != E_[x] for x in ("capture", "leak", "fission")])
        start_cell = cell_at(xyz(en, en.member(p, "position")))
        en.assume(material_of(en, start_cell).id != 0)
        en.assumed.add("histories start in cells with material")
        loop = []

        def inv(en):
            c = f("cell").id
            ok = z3.And(c != 0, z3.Implies(alive(f("event")), material_of(en, c).id != 0))
            return [("a particle in flight is in a cell with material", ok)]

        def start(en):
            en.gset("log", ())
            en.gset("draws", ())
            o = en.load(p)
            loop[:] = [kept(en, o, STATE), pstate(en, p), xyz(en, en.member(p, "position")), xyz(en, en.member(p, "direction")), f("cell").id,
                       f("rng").data]

        def post(en):
            st, ps, pos, d, cid, rng = loop
            lg = en.gget("log")
            kinds = [x[0] for x in lg]
            en.prove(alive(st["event"]), "only particles that were not captured, did not leak and caused no fission fly on")
            dr = [x[0] for x in en.gget("draws")]
            ex = [x for x in dr if x[0] == "exponential"]
            en.prove(z3.BoolVal(len(ex) == 1 and len(dr) >= 1 and dr[0][0] == "exponential"), "one flight length is drawn")
            if len(ex) != 1:
                return
            M = material_of(en, cid)
            mo = en.load(en.deref(M))
            xs = micro("Material.majorant" if delta else "Material.total", M.id, ps)
            rate = ex[0][1]
            en.prove(tobool(f_same(rate, FV(en.field(mo, "number_density").r * xs))),
                     "its rate is the number density times the " + ("majorant" if delta else "total") + " cross section of the cell's material for the particle's state")
            length = ex[0][3].r
            sd = surface_distance([cid, *pos, *d])
            surf = UF("Cell.nearest", I, *[R] * 6, I)(cid, *pos, *d)
            inf, s = tobool(sd.pinf), sd.r
            collides = z3.Or(inf, length < s) if not delta else z3.Or(inf, z3.Not(s < length))
            collides = z3.simplify(collides)
            moves = [x for x in lg if x[0] == "stream"]
            en.prove(z3.BoolVal(len(moves) == 1), "the particle moves once per flight")
            if len(moves) != 1:
                return
            en.prove(moves[0][1] == pid, "this particle")
            dist = moves[0][2]
            now = xyz(en, en.member(p, "position"))
            en.prove(z3.And(*[a == b + c * dist for a, b, c in zip(now, pos, d)]), "it is where its move ended, straight ahead")
            en.prove(z3.Implies(collides, dist == length), "a flight without crossing has the drawn length")
            en.prove(z3.Implies(z3.Not(collides), z3.And(dist - s > 0, dist - s <= NUDGE)), "a flight with a crossing ends on the far side of the surface, a tiny nudge behind it")
            acts = [x for x in lg if x[0] == "interact"]
            picks = [x for x in lg if x[0] == "choose"]
            bern = [x for x in dr if x[0] == "bernoulli"]
            ev = f("event")
            # the state at the collision site
            site = [*now, *d, *ps[6:]]
            real = z3.BoolVal(True)
            if delta:
                en.prove(z3.Implies(collides, z3.BoolVal(len(bern) == 1)), "a collision site is accepted or rejected by one draw")
                en.prove(z3.BoolVal(len(dr) == 1 + len(bern)), "no other number is drawn")
                if len(bern) == 1:
                    t, mj = [micro(n, M.id, site) for n in ("Material.total", "Material.majorant")]
                    pr = bern[0][1]
                    en.prove(z3.Implies(collides, z3.And(tobool(b_not(b_or(pr.nan, pr.pinf, pr.ninf))), pr.r * mj == t)),
                             "it is accepted with probability total over majorant, both for the particle at the collision site")
                    real = tobool(bern[0][3])
                else:
                    real = z3.BoolVal(False)
            else:
                en.prove(z3.BoolVal(len(dr) == 1), "no other number is drawn")
            hit = z3.And(collides, real)
            en.prove(z3.Implies(hit, z3.BoolVal(len(acts) == 1 and len(picks) == 1)), "exactly one nuclide interacts in a collision")
            en.prove(z3.Implies(z3.Not(hit), z3.BoolVal(not acts)), "no nuclide interacts otherwise")
            if len(acts) == 1 and len(picks) == 1:
                en.prove(z3.Implies(hit, z3.And(acts[0][1] == pid, picks[0][1] == pid, acts[0][2] == picks[0][2],
                                                 z3.Or(z3.And(*[a == b for a, b in zip(picks[0][3], site)]),
                                                       # surface tracking has constant temperatures: anywhere on the way is the same
                                                       z3.And(*[a == b for a, b in zip(picks[0][3], ps)]) if not delta else z3.BoolVal(False)),
                                                 z3.And(*[a == b for a, b in zip(acts[0][3], site)]))),
                         "it is chosen for the particle at the collision site and interacts with it there")
                en.prove(z3.BoolVal(kinds.index("choose") < kinds.index("interact")), "and is chosen first")
            en.prove(z3.Implies(hit, z3.Or(*[ev == E_[x] for x in ("capture", "scatter", "fission")])), "the event is that of the interaction")
            o = en.load(p)
            for n in ("cell", "current_surface", "type"):
                en.prove(z3.Implies(collides, tobool(same(en, en.field(o, n), st[n]))), f"a collision leaves the {n}")
            for n in ("direction", "energy", "type"):
                en.prove(z3.Implies(z3.Not(hit), tobool(same(en, en.field(o, n), st[n]))), f"without interaction the {n} stays")
            if delta:
                en.prove(z3.Implies(z3.And(collides, z3.Not(real)), ev == E_["virtual_collision"]), "a rejected collision is virtual")
            cross = z3.Not(collides)
            c2 = f("cell").id
            en.prove(z3.Implies(cross, c2 == cell_at(now)), "after a crossing the cell is the one containing the new position")
            en.prove(z3.Implies(cross, f("current_surface").id == surf), "the crossed surface is recorded")
            void = material_of(en, cell_at(now)).id == 0
            en.prove(z3.Implies(z3.And(cross, void), ev == E_["leak"]), "entering a cell without material is a leak")
            en.prove(z3.Implies(z3.And(cross, z3.Not(void)), ev == E_["surface_cross"]), "entering one with material is a surface crossing")
            sc = [x for x in lg if x[0] == "score"]
            en.prove(z3.BoolVal(len(sc) == 1 and kinds[-1] == "score"), "the flight is scored once, at its end")
            if len(sc) == 1:
                en.prove(z3.And(sc[0][1] == pid, sc[0][2] == eid), "by the given proxy, for this particle")
                for n in STATE:
                    en.prove(tobool(same(en, en.field(o, n), sc[0][3][n])), f"the {n} scored is the one at the end of the flight")

        def hook(en, s, cb):
            if cb is None:
                return True
            en.prove(f("cell").id == start_cell, "a history starts in the cell containing its position")
            en.prove(z3.BoolVal(not en.gget("log", ())), "nothing happens before the first flight")
            r = loops.inv_loop(en, cb[0], cb[1], inv, start, post)
            loop.append("left")
            en.gset("log", ())
            en.gset("draws", ())
            en.prove(z3.Not(alive(f("event"))), "the flights stop only at a capture, a leak or a fission")
            return r
        en.loop_hook = hook
        r = method(en, m, "Transport", [p, e, w])
        en.loop_hook = None
        if not loop or loop[-1] != "left":
            raise Unsupported("no loop of flights")
        en.prove(z3.BoolVal(not en.gget("log") and not en.gget("draws")), "nothing happens after the last flight")
        en.prove(en.field(r, "banked").n == 0, "no other particles are returned")
    verify(en, cls + "::Transport", body)
    en.loop_hook = None


unit("C05", "flights of surface tracking", ["SurfaceTracking::Transport", "SurfaceTracking::GetCollisionProbabilityDensity", "Particle::IsAlive",
                                           "Particle::SetCell", "Particle::GetCell", "Particle::GetPosition", "Particle::GetDirection"],
     contracts=FLIGHT)(lambda en: tracking(en, "SurfaceTracking", False))
unit("C06", "flights of cell delta tracking", ["CellDeltaTracking::Transport", "CellDeltaTracking::GetCollisionProbabilityDensity", "Particle::IsAlive",
                                              "Particle::SetCell", "Particle::GetCell", "Particle::GetPosition", "Particle::GetDirection"],
     contracts=FLIGHT)(lambda en: tracking(en, "CellDeltaTracking", True))
unit("C05", "movement of a particle", ["Particle::Stream"], contracts={**PERT, **GEOM})(streaming)


@unit("C05", "transport by the method chosen", ["Particle::Transport"], contracts={
    "TransportMethod::Transport": lambda en, this, args: dispatched(en, this, args)})
def u(en):
    def body():
        p = particle(en, "p")
        e, w = [LBox(Box(en.symobj(q, q))) for q in ("EstimatorSetProxy", "World")]
        tm = en.load(global_of(en, "Particle::transport_method"))
        en.assume(tm.id != 0)
        st = kept(en, en.load(p), STATE)
        method(en, p, "Transport", [e, w])
        lg = en.gget("log", ())
        en.prove(z3.BoolVal(len(lg) == 1), "the method transports once")
        if len(lg) == 1:
            en.prove(z3.And(*[a == b for a, b in zip(lg[0], (tm.id, oid(en, p), oid(en, e), oid(en, w)))]), "this particle, with the given tallies, in the given world")
        unchanged(en, en.load(p), st, [])
    verify(en, "Particle::Transport", body)


def dispatched(en, this, args):
    log(en, oid(en, this), *[oid(en, a) for a in args])
    o = en.symobj("Bank", "bank")
    return o
