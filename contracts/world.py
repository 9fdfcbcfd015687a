"""C17, C02, C03: construction of the world: each named object is made once, from the input node of its name, and shared"""
from spec import *
from common import *
from fields import rec_type
from material import vec_type
import loops

DEF = lambda kind, nm: z3.Function("definition_of_" + kind, I, I)(nm)      # node a name is defined by (0: none)
MADE = lambda kind, nm: z3.Function("made_" + kind, I, I)(nm)              # object made for a name


def name_in(en, node, a="name"):
    return S.xstr(en, attr(en, node, a)).t


def tag(n):
    return S.xfn("xml_name", I, I)(n)


def new_list(en):
    """the list under construction: the empty one"""
    for fr in reversed(en.frames):
        for l in fr["env"].values():
            try:
                v = en.load(l)
            except Exception:
                continue
            if isinstance(v, Seq) and const_of(z3.simplify(v.n)) == 0:
                return l
    raise Unsupported("no empty list under construction")


def make(rec, kind):
    """contract of the constructor / factory: the object of a defined name, an error for other names"""
    def made(en, nm):
        if not en.branch(DEF(kind, nm) != 0):
            en.gset("undefined", nm)
            raise CppThrow(kind + " not found", "std::runtime_error")
        x = MADE(kind, nm)
        en.assume(x != 0)
        en.assume(z3.Function(rec + ".name", I, I)(x) == nm)
        return Ptr(x, None, rec_type(en, rec), True)
    return made


class Collect:
    """unique objects named by the nodes under cells: specification of one Create… function.
    wanted(en, c) -> None (the cell names one object: of(en, c)) or number of nodes below it; skip(en, c) -> formula"""

    def __init__(self, en, rec, kind, root, skip, inner, of):
        self.en, self.rec, self.kind, self.root, self.skip, self.inner, self.of = en, rec, kind, root, skip, inner, of
        self.cells = child(en, root.id, "cells")
        self.l, self.depth, self.outer = None, 0, []
        self.ran, self.had = [], []

    def oid(self, v, i):
        return z3.IntVal(0) if const_of(z3.simplify(v.n)) == 0 else v.elem(i).id

    def N(self, v, i):
        return z3.Function(self.rec + ".name", I, I)(self.oid(v, i))

    def present(self, v, nm, tg=""):
        i = z3.Int("_pi" + tg)
        return z3.Exists([i], z3.And(0 <= i, i < v.n, self.N(v, i) == nm))

    def inv(self, en):
        v = en.load(self.l)
        a, b = z3.Ints("a b")
        qa, qb = z3.Ints("_qa _qb")
        uniq = lambda a, b: z3.Implies(z3.And(0 <= a, a < b, b < v.n), self.N(v, a) != self.N(v, b))
        own = lambda a: z3.Implies(z3.And(0 <= a, a < v.n), z3.And(self.oid(v, a) != 0, self.oid(v, a) == MADE(self.kind, self.N(v, a)), DEF(self.kind, self.N(v, a)) != 0))
        r = [("the list", v.n >= 0),
             ("names in the list are distinct", uniq(a, b), z3.ForAll([qa, qb], uniq(qa, qb))),
             ("every object in the list is the one made for its name", own(a), z3.ForAll([qa], own(qa)))]
        K = en.gget("K")
        c, m, qc, qm = z3.Ints("c m _qc _qm")
        node = lambda c: S.xkid(en, self.cells, c)
        if self.inner is None:
            cov = lambda c, t: z3.Implies(z3.And(0 <= c, c < K, z3.Not(self.skip(node(c)))), self.present(v, self.of(en, node(c), None), t))
            r.append(("every object named so far is in the list", cov(c, ""), z3.ForAll([qc], cov(qc, "q"))))
            return r
        top = K if not self.outer else self.outer[-1]
        cov = lambda c, m, t: z3.Implies(z3.And(0 <= c, c < top, z3.Not(self.skip(node(c))), 0 <= m, m < S.xkids(en, self.inner(node(c)))),
                                         self.present(v, self.of(en, node(c), m), t))
        r.append(("every object named so far is in the list", cov(c, m, ""), z3.ForAll([qc, qm], cov(qc, qm, "q"))))
        if self.outer:
            here = lambda m, t: z3.Implies(z3.And(0 <= m, m < K), self.present(v, self.of(en, node(top), m), t))
            b, q = self.had[-1], z3.Int("_qh")
            stay = lambda j: z3.Implies(z3.And(0 <= j, j < b.n), z3.And(j < v.n, self.oid(v, j) == self.oid(b, j)))
            r.append(("objects of earlier cells stay", stay(a), z3.ForAll([q], stay(q))))
            r.append(("every object named so far below this cell is in the list", here(m, ""), z3.ForAll([qm], here(qm, "q"))))
        return r

    def hook(self, en, s, cb):
        if cb is None:
            return True
        if self.l is None:
            self.l = new_list(en)
        inner = self.depth > 0
        if inner and self.inner is None:
            return None
        saved = en.gget("K") if inner else None
        if inner:
            self.outer.append(saved)
        self.depth += 1
        before = []

        def start(en):
            before[:] = [en.copy(en.load(self.l))]
            if not inner:
                self.had[:] = before

        def post(en):
            b, a, j = before[0], en.load(self.l), z3.Int("j")
            en.prove(z3.Implies(z3.And(0 <= j, j < b.n), z3.And(j < a.n, self.oid(a, j) == self.oid(b, j))), "objects already there stay in their place")
        try:
            r = loops.inv_loop(en, cb[0], cb[1], self.inv, start, post,
                               lambda en: en.prove(z3.BoolVal(False), "no node is left out"))
        finally:
            self.depth -= 1
            K = en.gget("K")
            if inner:
                self.outer.pop()
                en.gset("K", saved)
        if inner:
            c = S.xkid(en, self.cells, saved)
            en.prove(K == S.xkids(en, self.inner(c)), "every node below the cell is looked at")
        else:
            self.ran.append((K, en.copy(en.load(self.l))))
        return r

    def run(self, q, args):
        en = self.en
        en.loop_hook = self.hook
        try:
            r = static(en, q, args)
        except CppThrow:
            del en.frames[:]
            nm = en.gget("undefined", None)
            if nm is None:
                raise
            en.prove(DEF(self.kind, nm) == 0, "an error only for a name without definition")
            return
        finally:
            en.loop_hook = None
        if not self.ran:
            raise Unsupported("no loop over the cells")
        K, v = self.ran[-1]
        j = z3.Int("j")
        en.prove(K == S.xkids(en, self.cells), "every cell is looked at")
        en.prove(r.n == v.n, "every object made is returned")
        en.prove(z3.Implies(z3.And(0 <= j, j < v.n), self.oid(r, j) == self.oid(v, j)), "the objects returned are those made")


VOID = lambda c: tag(c) == mkcode("void")


def same_list(en, got, all_, what):
    j = z3.Int("_sl")
    en.prove(z3.And(got.n == all_.n, z3.Implies(z3.And(0 <= j, j < all_.n), got.elem(j).id == all_.elem(j).id)), what, "requires")


def vec(en, q, i, name):
    return S.mk_std(en, vec_type(en, q, i), name, [])


def new_material(en, this, args):
    root, nm, allv = [en.load(a) for a in args]
    en.prove(root.id == z3.Int("root"), "a material is built from the input", "requires")
    same_list(en, allv, vec(en, "World::CreateMaterials", 1, "all"), "a material is built with all nuclides")
    return make("Material", "material")(en, nm.t)


@unit("C17", "materials of the cells", ["World::CreateMaterials"], contracts={"new Material": new_material})
def u(en):
    def body():
        root = XML("root")
        allv = vec(en, "World::CreateMaterials", 1, "all")
        Collect(en, "Material", "material", root, VOID, None, lambda en, c, m: name_in(en, c, "material")).run(
            "World::CreateMaterials", [root, LBox(Box(allv))])
    verify(en, "World::CreateMaterials", body)
    en.loop_hook = None


def find_material(en, this, args):
    """contract of Material::FindNode (its own unit)"""
    root, nm = [en.load(a) for a in args]
    en.prove(root.id == z3.Int("root"), "a material is looked up in the input", "requires")
    n = DEF("material", nm.t)
    if not en.branch(n != 0):
        en.gset("undefined material", nm.t)
        raise CppThrow("material not found", "std::runtime_error")
    return XNode(n)


def new_nuclide(en, this, args):
    n = en.load(args[0])
    nm = name_in(en, n.id)
    lib = S.xml_method(en, XNode(child(en, z3.Int("root"), "nuclides")), "first_child", []).id
    f = S.xml_find(en, lib, mkcode("name"), nm).id
    en.prove(n.id != 0, "a nuclide is built from a node", "requires")
    en.prove(n.id == f, "a nuclide is built from the input node of its name", "requires")
    x = MADE("nuclide", nm)
    en.assume(x != 0)
    en.assume(z3.Function("Nuclide.name", I, I)(x) == nm)
    en.assume(DEF("nuclide", nm) != 0)     # by definition: a node of that name was found
    return Ptr(x, None, rec_type(en, "Nuclide"), True)


@unit("C17", "nuclides of the materials", ["World::CreateNuclides"], contracts={"new Nuclide": new_nuclide, "Material::FindNode": find_material})
def u(en):
    def body():
        root = XML("root")
        inner = lambda c: DEF("material", name_in(en, c, "material"))
        try:
            Collect(en, "Nuclide", "nuclide", root, VOID, inner, lambda en, c, m: name_in(en, S.xkid(en, inner(c), m))).run("World::CreateNuclides", [root])
        except CppThrow:
            del en.frames[:]
            nm = en.gget("undefined material", None)
            if nm is not None:
                en.prove(DEF("material", nm) == 0, "an error only for a material or nuclide without definition")
                return
            n, at, val, i = en.gget("xml_find")[-1]
            en.prove(i == S.xkids(en, n), "an error only for a material or nuclide without definition")
            lib = S.xml_method(en, XNode(child(en, z3.Int("root"), "nuclides")), "first_child", []).id
            en.prove(z3.And(n == lib, at == mkcode("name")), "definitions are looked up by name below nuclides")
    verify(en, "World::CreateNuclides", body)
    en.loop_hook = None


def create_surface(en, this, args):
    """contract of CSGSurface::Create (unit: a surface name makes the surface of its node)"""
    root, nm = [en.load(a) for a in args]
    en.prove(root.id == z3.Int("root"), "a surface is built from the input", "requires")
    return make("CSGSurface", "surface")(en, nm.t)


@unit("C02", "surfaces of the cells", ["World::CreateCSGSurfaces"], contracts={"CSGSurface::Create": create_surface})
def u(en):
    def body():
        root = XML("root")
        Collect(en, "CSGSurface", "surface", root, lambda c: z3.BoolVal(False), lambda c: c,
                lambda en, c, m: name_in(en, S.xkid(en, c, m))).run("World::CreateCSGSurfaces", [root])
    verify(en, "World::CreateCSGSurfaces", body)
    en.loop_hook = None


def senses_type(en):
    f = fn(en, "Cell::AssignSurfaceSenses")
    return f.ty(f.d["ret"])


def map_in_frames(en):
    for fr in reversed(en.frames):
        for l in fr["env"].values():
            try:
                v = en.load(l)
            except Exception:
                continue
            if isinstance(v, MapV) and const_of(z3.simplify(v.n)) == 0:
                return l
    raise Unsupported("no empty map under construction")


@unit("C02", "surfaces and senses of a cell", ["Cell::AssignSurfaceSenses"])
def u(en):
    def body():
        n = XML("cell")
        allv = vec(en, "Cell::AssignSurfaceSenses", 1, "all")
        nk = S.xkids(en, n.id)
        w = z3.Function("where_is", I, I)
        j, a, b = z3.Ints("_nj _na _nb")
        k = lambda j: S.xkid(en, n.id, j)
        N = lambda i: z3.Function("CSGSurface.name", I, I)(allv.elem(i).id)
        minus, plus = mkcode("-1"), mkcode("+1")
        sense = lambda j: name_in(en, k(j), "sense")
        en.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nk), z3.And(0 <= w(j), w(j) < allv.n, N(w(j)) == name_in(en, k(j)),
                                            allv.elem(w(j)).id != 0, z3.Or(sense(j) == minus, sense(j) == plus))), patterns=[k(j)]))
        en.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < allv.n), z3.And(N(a) != N(b), allv.elem(a).id != allv.elem(b).id))))
        en.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < nk), name_in(en, k(a)) != name_in(en, k(b)))))
        en.assumed.add("schema: a cell lists each surface once, with sense \"-1\" or \"+1\"")
        en.assumed.add("names of a cell's surfaces are in the list of all surfaces, once (postcondition of World::CreateCSGSurfaces, its own unit)")
        P = lambda j: allv.elem(w(j))
        at = lambda m, j: z3.And(tobool(m.dom(P(j))), tobool(m.val(P(j))) == (sense(j) == minus))
        ran = []

        def hook(en, s, cb):
            if cb is None:
                return True
            l = map_in_frames(en)

            def inv(en):
                m, K = en.load(l), en.gget("K")
                x, i, q = z3.Ints("x i _q")
                e = lambda i: z3.Exists([q], z3.And(0 <= q, q < K, m.key(i).id == P(q).id))
                f = lambda x: z3.Implies(z3.And(0 <= x, x < K), at(m, x))
                r = [("size", m.n >= 0)]
                if const_of(z3.simplify(m.n)) == 0:
                    r.append(("nothing listed yet", K == 0))
                if const_of(z3.simplify(m.n)) != 0:
                    g = lambda i: z3.Implies(z3.And(0 <= i, i < m.n), e(i))
                    r.append(("surfaces listed so far have the sense given", f(x), z3.ForAll([q], f(q))))
                    r.append(("no other surface", g(i), z3.ForAll([x], g(x))))
                return r
            r = loops.inv_loop(en, cb[0], cb[1], inv, None, None, lambda en: en.prove(z3.BoolVal(False), "no surface is left out"))
            ran.append(en.gget("K"))
            return r
        en.loop_hook = hook
        r = static(en, "Cell::AssignSurfaceSenses", [n, LBox(Box(allv))])
        en.loop_hook = None
        if not ran:
            raise Unsupported("no loop over the surfaces of the cell")
        x, i, q = z3.Ints("x i q")
        en.prove(ran[-1] == nk, "every surface of the cell is looked at")
        en.prove(z3.Implies(z3.And(0 <= x, x < nk), at(r, x)), "every surface listed bounds the cell, inside exactly for sense -1")
        en.prove(z3.Implies(z3.And(0 <= i, i < r.n), z3.Exists([q], z3.And(0 <= q, q < nk, r.key(i).id == P(q).id))), "no other surface bounds the cell")
    verify(en, "Cell::AssignSurfaceSenses", body)
    en.loop_hook = None


@unit("C02", "a surface name makes the surface of its node", ["CSGSurface::Create", "CSGSurface::ToSurfaceType", "Sphere::Sphere", "PlaneX::PlaneX", "CylinderX::CylinderX"])
def u(en):
    def body():
        root, nm = XML("root"), Str(z3.Int("name"))
        node = S.xml_find(en, child(en, root.id, "surfaces"), mkcode("name"), nm.t).id
        kinds = {"sphere": "Sphere", "planex": "PlaneX", "cylinderx": "CylinderX"}
        en.assume(z3.Implies(node != 0, z3.Or(*[tag(node) == mkcode(k) for k in kinds])))
        en.assumed.add("schema: a surface is a sphere, a planex or a cylinderx")
        try:
            r = static(en, "CSGSurface::Create", [root, LBox(Box(nm))])
        except CppThrow:
            del en.frames[:]
            en.prove(node == 0, "an error only for a surface without definition")
            return
        en.prove(node != 0, "a surface without definition is an error")
        o = en.load(en.deref(r))
        for k, rec in kinds.items():
            if en.branch(tag(node) == mkcode(k)):
                en.prove(z3.BoolVal(o.rec["q"] == rec), "the kind of surface is that of the node")
                w = en.load(construct(en, rec, [XNode(node)]))    # what the constructor reads: C02
                en.prove(en.field(o, "name").t == nm.t, "the surface carries the name")
                if rec != "PlaneX":
                    en.prove(tobool(f_same(en.field(o, "radius"), en.field(w, "radius"))), "the radius is that of the node")
                if rec == "PlaneX":
                    en.prove(tobool(f_same(en.field(o, "c"), en.field(w, "c"))), "the offset is that of the node")
                if rec == "Sphere":
                    for c in "xyz":
                        en.prove(tobool(f_same(en.field(en.field(o, "center"), c), en.field(en.field(w, "center"), c))), "the centre is that of the node")
                return
    verify(en, "CSGSurface::Create", body)


def cell_of(en, this, args):
    """contract of Cell::Cell: the cell of the node"""
    n, surf, mat, temp = [en.load(a) for a in args]
    same_list(en, surf, vec(en, "World::CreateCells", 1, "surfaces"), "a cell is built with all surfaces")
    same_list(en, mat, vec(en, "World::CreateCells", 2, "materials"), "a cell is built with all materials")
    en.prove(temp.id == z3.Int("temperature"), "a cell is built with the global temperature", "requires")
    return en.mk(rec_type(en, "Cell"), "cell_of", [n.id])


@unit("C03", "cells of the world", ["World::CreateCells"], contracts={"new Cell": cell_of})
def u(en):
    def body():
        root = XML("root")
        cells = child(en, root.id, "cells")
        ran = []

        def hook(en, s, cb):
            if cb is None:
                return True
            l = new_list(en)
            before = []

            def start(en):
                before[:] = [en.copy(en.load(l))]

            def post(en):
                K, b, a, j = en.gget("K"), before[0], en.load(l), z3.Int("j")
                en.prove(a.n == b.n + 1, "every cell node adds one cell")
                name = lambda v, i: en.field(v.elem(i), "name").t
                en.prove(z3.Implies(z3.And(0 <= j, j < b.n), name(a, j) == name(b, j)), "earlier cells stay in their place")
                s = a.elem(b.n).sym
                en.prove(s[1][0] == S.xkid(en, cells, K) if s and s[0] == "cell_of" else z3.BoolVal(False), "that of the node")
            r = loops.inv_loop(en, cb[0], cb[1], lambda en: [("one cell for every node so far", en.load(l).n == en.gget("K"))], start, post,
                               lambda en: en.prove(z3.BoolVal(False), "no cell is left out"))
            ran.append(en.gget("K"))
            return r
        en.loop_hook = hook
        surf, mat = vec(en, "World::CreateCells", 1, "surfaces"), vec(en, "World::CreateCells", 2, "materials")
        temp = Ptr(z3.Int("temperature"), None, rec_type(en, "ScalarField"), True)
        r = static(en, "World::CreateCells", [root, LBox(Box(surf)), LBox(Box(mat)), temp])
        en.loop_hook = None
        if not ran:
            raise Unsupported("no loop over the cells")
        en.prove(ran[-1] == S.xkids(en, cells), "every cell of the input is made")
        en.prove(r.n == ran[-1], "and is in the world")
    verify(en, "World::CreateCells", body)
    en.loop_hook = None


def ret_type(en, q):
    f = fn(en, q)
    return f.ty(f.d["ret"])


def seq_made(q, name):
    """contract of a Create… function in the constructor of the world: the list it makes from the input"""
    def c(en, this, args):
        en.prove(en.load(args[0]).id == z3.Int("root"), "objects are made from the input", "requires")
        made(en, q)
        return S.mk_std(en, ret_type(en, q), name, [])
    return c


def made(en, q):
    en.gset("made", en.gget("made", ()) + (q,))


def materials_made(en, this, args):
    same_list(en, en.load(args[1]), S.mk_std(en, ret_type(en, "World::CreateNuclides"), "nuclides_made", []), "materials use the nuclides made")
    return seq_made("World::CreateMaterials", "materials_made")(en, this, args)


def temperature_made(en, this, args):
    en.prove(en.load(args[0]).id == child(en, z3.Int("root"), "temperature"), "the global temperature is that of the input", "requires")
    made(en, "World::CreateTemperature")
    x = z3.Int("temperature_made")
    en.assume(x >= 1)
    return Ptr(x, None, rec_type(en, "ScalarField"), True)


def cells_made(en, this, args):
    same_list(en, en.load(args[1]), S.mk_std(en, ret_type(en, "World::CreateCSGSurfaces"), "surfaces_made", []), "cells use the surfaces made")
    same_list(en, en.load(args[2]), S.mk_std(en, ret_type(en, "World::CreateMaterials"), "materials_made", []), "cells use the materials made")
    en.prove(en.load(args[3]).id == z3.Int("temperature_made"), "cells use the global temperature", "requires")
    return seq_made("World::CreateCells", "cells_made")(en, this, args)


@unit("C17", "construction of the world", ["World::World"], contracts={
    "World::CreateCSGSurfaces": seq_made("World::CreateCSGSurfaces", "surfaces_made"), "World::CreateNuclides": seq_made("World::CreateNuclides", "nuclides_made"),
    "World::CreateMaterials": materials_made, "World::CreateTemperature": temperature_made, "World::CreateCells": cells_made})
def u(en):
    def body():
        o = en.load(construct(en, "World", [XML("root")]))
        for m, q in (("surfaces", "CSGSurfaces"), ("nuclides", "Nuclides"), ("materials", "Materials")):
            same_list(en, en.field(o, m), S.mk_std(en, ret_type(en, "World::Create" + q), m + "_made", []), f"the world keeps the {m} made")
        en.prove(en.field(o, "cells").n == S.mk_std(en, ret_type(en, "World::CreateCells"), "cells_made", []).n, "the world keeps the cells made")
        en.prove(en.field(o, "temperature").id == z3.Int("temperature_made"), "and the global temperature")
    verify(en, "World::World", body)


def senses_of(en, this, args):
    n, surf = en.load(args[0]), en.load(args[1])
    en.prove(n.id == z3.Int("cell"), "surfaces of the cell's own node", "requires")
    same_list(en, surf, vec(en, "World::CreateCells", 1, "surfaces"), "among all surfaces")
    return S.mk_std(en, senses_type(en), "senses", [])


def material_of(en, this, args):
    n, mat = en.load(args[0]), en.load(args[1])
    en.prove(n.id == z3.Int("cell"), "material of the cell's own node", "requires")
    same_list(en, mat, vec(en, "World::CreateCells", 2, "materials"), "among all materials")
    return Ptr(z3.Int("material_assigned"), None, rec_type(en, "Material"), True)


def temperature_of(en, this, args):
    n, t = en.load(args[0]), en.load(args[1])
    en.prove(n.id == z3.Int("cell"), "temperature of the cell's own node", "requires")
    en.prove(t.id == z3.Int("temperature"), "or the global one", "requires")
    return Ptr(z3.Int("temperature_assigned"), None, rec_type(en, "ScalarField"), True)


def cell_unit(en):
    def body():
        surf, mat = vec(en, "World::CreateCells", 1, "surfaces"), vec(en, "World::CreateCells", 2, "materials")
        temp = Ptr(z3.Int("temperature"), None, rec_type(en, "ScalarField"), True)
        o = en.load(construct(en, "Cell", [XML("cell"), LBox(Box(surf)), LBox(Box(mat)), temp]))
        i = z3.Int("i")
        a, b = en.field(o, "surface_senses"), S.mk_std(en, senses_type(en), "senses", [])
        en.prove(z3.And(a.n == b.n, z3.Implies(z3.And(0 <= i, i < b.n), z3.And(a.key(i).id == b.key(i).id, tobool(a.val(b.key(i))) == tobool(b.val(b.key(i)))))), "the cell keeps its surfaces and senses")
        en.prove(en.field(o, "material").id == z3.Int("material_assigned"), "and its material")
        en.prove(en.field(o, "temperature").id == z3.Int("temperature_assigned"), "and its temperature")
        en.prove(en.field(o, "name").t == name_in(en, z3.Int("cell")), "and its name")
    verify(en, "Cell::Cell", body)


for pid in ("C02", "C17", "C22"):
    unit(pid, "construction of a cell", ["Cell::Cell"], contracts={"Cell::AssignSurfaceSenses": senses_of, "Cell::AssignMaterial": material_of, "Cell::AssignTemperature": temperature_of})(cell_unit)


def data_of(kind):
    def c(en, this, args):
        x = UF(kind + "_of", I, I)(en.load(args[0]).id)
        en.assume(x != 0)
        return Ptr(x, None, rec_type(en, "Interaction"), True)
    return c


@unit("C17", "data of a nuclide", ["Interaction::Create"], contracts={"new Multigroup": data_of("multigroup"), "new Continuous": data_of("continuous")})
def u(en):
    def body():
        n = XML("nuclide")
        en.assume(n.id != 0)
        lib = S.xfn("xml_name", I, I)(S.xfn("xml_parent", I, I)(n.id))
        en.assume(S.xfn("xml_parent", I, I)(n.id) != 0)
        multi = lib == mkcode("multigroup")
        en.assume(z3.Or(multi, lib == mkcode("continuous")))
        P = en.prog.enums["Particle::Type"]
        ran, before = [], []

        def hook(en, s, cb):
            if cb is None:
                return True
            l = map_in_frames(en)
            en.prove(en.load(l).n == 0, "no data to start with")
            st = stream_in_frames(en)

            def start(en):
                v = en.load(st)
                tok = S.xfn("tok_str", I, I, I)(v.s, v.pos)
                before[:] = [en.copy(en.load(l)), tok]
                en.assume(z3.Or(*[tok == mkcode(x) for x in P]))
                en.assumed.add("schema: particle types are neutron or photon")

            def post(en):
                (b, tok), a = before, en.load(l)
                x = z3.Int("x")
                key = P["neutron"] if set(P) == {"neutron"} else z3.If(tok == mkcode("neutron"), z3.IntVal(P["neutron"]), z3.IntVal(P["photon"]))
                node = child_code(en, n.id, tok)
                en.prove(node != 0, "data are read from an existing node")
                en.prove(tobool(a.dom(x)) == z3.Or(tobool(b.dom(x)), x == key), "data for the particle type named and no other are added")
                en.prove(z3.Implies(z3.And(tobool(b.dom(x)), x != key), a.val(x).id == b.val(x).id), "others are kept")
                en.prove(z3.Implies(z3.And(z3.Not(tobool(b.dom(key))), x == key),
                                    a.val(x).id == z3.If(multi, UF("multigroup_of", I, I)(node), UF("continuous_of", I, I)(node))),
                         "they are those of the node of that particle type in the nuclide, of the kind of the library")
            r = loops.inv_loop(en, cb[0], cb[1], lambda en: [("the map", en.load(l).n >= 0)], start, post,
                               lambda en: en.prove(z3.BoolVal(False), "no particle type is left out"))
            ran.append(en.copy(en.load(l)))
            return r
        en.loop_hook = hook
        try:
            r = static(en, "Interaction::Create", [n])
        except CppThrow:
            en.loop_hook = None
            del en.frames[:]
            en.prove(child_code(en, n.id, before[1]) == 0, "an error only for a particle type without data")
            return
        en.loop_hook = None
        if not ran:
            raise Unsupported("no loop over the particle types")
        v, x = ran[-1], z3.Int("x")
        en.prove(tobool(r.dom(x)) == tobool(v.dom(x)), "all data are kept")
        if const_of(z3.simplify(v.n)) != 0:
            en.prove(z3.Implies(tobool(v.dom(x)), r.val(x).id == v.val(x).id), "as made")
    verify(en, "Interaction::Create", body)
    en.loop_hook = None


def child_code(en, n, code):
    return S.xchild(en, n, code)


def stream_in_frames(en):
    import values
    for fr in reversed(en.frames):
        for l in fr["env"].values():
            try:
                v = en.load(l)
            except Exception:
                continue
            if type(v).__name__ == "Stream":
                return l
    raise Unsupported("no list of particle types")


@unit("C17", "construction of a nuclide", ["Nuclide::Nuclide"], contracts={"Interaction::Create": lambda en, this, args: interactions(en, args)})
def u(en):
    def body():
        n = XML("nuclide")
        o = en.load(construct(en, "Nuclide", [n]))
        en.prove(en.field(o, "name").t == name_in(en, n.id), "the nuclide carries the name of its node")
        m, w, x = en.field(o, "xs"), S.mk_map(en, ret_type(en, "Interaction::Create"), "interactions", []), z3.Int("x")
        en.prove(tobool(m.dom(x)) == tobool(w.dom(x)), "the nuclide keeps the data of its node")
        en.prove(z3.Implies(tobool(w.dom(x)), m.val(x).id == w.val(x).id), "for every particle type")
    verify(en, "Nuclide::Nuclide", body)


def interactions(en, args):
    en.prove(en.load(args[0]).id == z3.Int("nuclide"), "the data are those of the nuclide's own node", "requires")
    return S.mk_map(en, ret_type(en, "Interaction::Create"), "interactions", [])


def reactions_made(en, this, args):
    """contract of Continuous::CreateReactions (its own unit)"""
    en.prove(en.load(args[0]).id == z3.Int("particle"), "the reactions are those of the nuclide's own node", "requires")
    return S.mk_std(en, ret_type(en, "Continuous::CreateReactions"), "reactions_made", [])


@unit("C23", "construction of continuous data", ["Continuous::Continuous"], contracts={"Continuous::CreateReactions": reactions_made,
    "new ContinuousEvaluation": lambda en, this, args: en.mk(rec_type(en, "ContinuousEvaluation"), "evaluation_of", [en.load(args[0]).id]),
    "init ContinuousEvaluation": lambda en, this, args: en.store(this, en.mk(rec_type(en, "ContinuousEvaluation"), "evaluation_of", [en.load(args[0]).id]))})
def u(en):
    def body():
        n = XML("particle")
        o = en.load(construct(en, "Continuous", [n]))
        r, w, j = en.field(o, "reactions"), S.mk_std(en, ret_type(en, "Continuous::CreateReactions"), "reactions_made", []), z3.Int("j")
        en.prove(r.n == w.n, "the nuclide keeps the reactions made")
        en.prove(z3.Implies(z3.And(0 <= j, j < w.n), r.elem(j).id == w.elem(j).id), "in order")
        t = en.field(o, "total")
        en.prove(t.sym[1][0] == child(en, n.id, "total") if t.sym and t.sym[0] == "evaluation_of" else z3.BoolVal(False), "the total is that of the input")
    verify(en, "Continuous::Continuous", body)
