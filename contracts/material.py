"""C17 material composition; C07/C08 material sums"""
from spec import *
from common import *
from fields import rec_type


def name_of(en, rec, i):
    """name of the object with identity i"""
    return en.field(en.load(en.deref(Ptr(i, None, rec_type(en, rec)))), "name").t


def found(en, nodes, nm):
    return S.xml_find(en, nodes, mkcode("name"), nm).id


def material_node(en, root, nm):
    return found(en, child(en, root, "materials"), nm)


@unit("C17", "a material name resolves to its node", ["Material::FindNode"])
def u(en):
    def body():
        root, nm = XML("root"), Str(z3.Int("name"))
        want = material_node(en, root.id, nm.t)
        try:
            r = static(en, "Material::FindNode", [root, LBox(Box(nm))])
        except CppThrow:
            del en.frames[:]
            en.prove(want == 0, "an error only for a name without definition")
            return
        en.prove(want != 0, "a name without definition is an error")
        en.prove(r.id == want, "the node with the given name under materials is returned")
    verify(en, "Material::FindNode", body)


def find_node(en, this, args):
    """contract of Material::FindNode (its own unit)"""
    root, nm = [en.load(a) for a in args]
    want = material_node(en, root.id, nm.t)
    if not en.branch(want != 0):
        raise CppThrow("material not found", "std::runtime_error")
    return XNode(want)


NODE = {"Material::FindNode": find_node}


def nuclides_present(en, allv, node):
    """every nuclide named by the material is among all nuclides, whose names are distinct
    (postcondition of World::CreateNuclides; schema: names of a material's nuclides are unique)"""
    j, a, b = z3.Ints("_nj _na _nb")
    w = z3.Function("where_is", I, I)
    nk = S.xkids(en, node)
    kid = S.xkid(en, node, j)
    nm = S.xstr(en, S.xchild(en, kid, mkcode("name"), "xml_attr")).t
    N = lambda i: name_of_elem(en, allv, i)
    en.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nk), z3.And(0 <= w(j), w(j) < allv.n, N(w(j)) == nm, kid != 0)),
                        patterns=[kid]))
    en.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < allv.n), N(a) != N(b))))
    ka, kb = S.xkid(en, node, a), S.xkid(en, node, b)
    na, nb = [S.xstr(en, S.xchild(en, x, mkcode("name"), "xml_attr")).t for x in (ka, kb)]
    en.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < nk), na != nb)))
    return w


def name_of_elem(en, v, i):
    o = v.elem(i)
    return z3.Function("Nuclide.name", I, I)(o.id)


def find_node_const(en, this, args):
    """contract of Material::FindNode for the material the unit is about"""
    root, nm = [en.load(a) for a in args]
    en.prove(z3.And(root.id == z3.Int("root"), nm.t == z3.Int("name")), "the material is looked up by its own name", "requires")
    n = z3.Int("material_node")
    if not en.branch(n != 0):
        raise CppThrow("material not found", "std::runtime_error")
    return XNode(n)


@unit("C17", "atom fractions of a material", ["Material::AssignNuclides"], contracts={"Material::FindNode": find_node_const}, budget=300)
def u(en):
    def body():
        root, nm = XML("root"), Str(z3.Int("name"))
        allv = S.mk_std(en, vec_type(en, "Material::AssignNuclides", 2), "all", [])
        node = z3.Int("material_node")
        w = nuclides_present(en, allv, node)
        j = z3.Int("j")
        nk = S.xkids(en, node)
        af = lambda i: S.xdbl(en, attr(en, S.xkid(en, node, i), "afrac"))
        q = z3.Int("_nq")
        en.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < nk), z3.And(tobool(af(q).fin), af(q).r > 0)),
                            patterns=[S.xkid(en, node, q)]))
        en.assume(nk >= 1)
        en.assumed.add("schema: a material lists at least one nuclide, atom fractions are positive, names are unique")
        try:
            r = static(en, "Material::AssignNuclides", [root, LBox(Box(nm)), LBox(Box(allv))])
        except CppThrow:
            del en.frames[:]
            en.prove(node == 0, "an error only for a material without definition")
            return
        en.prove(node != 0, "a material without definition is an error")
        inr = z3.And(0 <= j, j < nk)
        nuc = allv.elem(w(j))
        en.prove(z3.Implies(inr, tobool(r.dom(nuc))), "every nuclide of the material gets a fraction")
        v = lambda p: r.val(p)
        total = SUM(en, lambda i: r.val(r.key(i)).r, r.n)
        i = z3.Int("i")
        k = r.key(i)
        x = z3.Int("_x")
        nmk = z3.Function("Nuclide.name", I, I)(k.id)
        ex = z3.Exists([x], z3.And(0 <= x, x < nk, S.xstr(en, attr(en, S.xkid(en, node, x), "name")).t == nmk))
        en.prove(z3.Implies(z3.And(0 <= i, i < r.n), ex), "only nuclides of the material get a fraction")
        en.prove(total == 1, "the fractions sum to one", timeout=20000)
        j2 = z3.Int("j2")
        in2 = z3.And(inr, 0 <= j2, j2 < nk)
        n2 = allv.elem(w(j2))
        en.prove(z3.Implies(in2, v(nuc).r * af(j2).r == v(n2).r * af(j).r), "ratios of the input are kept", timeout=20000)
    verify(en, "Material::AssignNuclides", body)


def vec_type(en, q, i):
    f = fn(en, q)
    t = f.ty(f.params[i]["type"])
    return en.prog.types[t["tu"]][t["to"]] if t["k"] == "ref" else t


@unit("C17", "construction of a material", ["Material::Material"], contracts={
    **NODE, "Material::AssignNuclides": lambda en, this, args: assigned(en, args)})
def u(en):
    def body():
        root, nm = XML("root"), Str(z3.Int("name"))
        allv = S.mk_std(en, vec_type(en, "Material::AssignNuclides", 2), "all", [])
        en.assume(S.xfn("composition", I, I)(root.id) >= 0)
        try:
            m = construct(en, "Material", [root, nm, LBox(Box(allv))])
        except CppThrow:
            del en.frames[:]
            en.prove(material_node(en, root.id, nm.t) == 0, "an error only for a material without definition")
            return
        o = en.load(m)
        node = material_node(en, root.id, nm.t)
        en.prove(en.field(o, "name").t == nm.t, "the material carries the name it was made for")
        d = en.field(o, "number_density")
        en.prove(tobool(f_same(d, S.xdbl(en, attr(en, node, "aden")))), "the density is the one in the input")
        en.prove(en.gget("assigned", 0) == 1, "the composition is the one assigned for its own name")
    verify(en, "Material::Material", body)


def assigned(en, args):
    root, nm, allv = [en.load(a) for a in args]
    en.prove(z3.And(root.id == z3.Int("root"), nm.t == z3.Int("name")), "the composition is looked up by the material's name", "requires")
    en.gset("assigned", 1)
    f = fn(en, "Material::AssignNuclides")
    return S.mk_map(en, f.ty(f.d["ret"]), "afracs", [])


@unit("C17", "material of a cell", ["Cell::AssignMaterial"])
def u(en):
    def body():
        n = XML("cell")
        f = fn(en, "Cell::AssignMaterial")
        allv = S.mk_std(en, vec_type(en, "Cell::AssignMaterial", 1), "all", [])
        N = lambda i: z3.Function("Material.name", I, I)(allv.elem(i).id)
        en.assume(n.id != 0)
        isvoid = attr(en, n.id, "name") == 0
        nm = xstring(en, n.id, "material")
        w = z3.Int("where")
        en.assume(z3.Implies(z3.Not(isvoid), z3.And(0 <= w, w < allv.n, N(w) == nm)))
        en.assumed.add("schema: only void cells have no name; World::CreateMaterials made a material for every other cell (its own unit)")
        r = static(en, "Cell::AssignMaterial", [n, LBox(Box(allv))])
        en.prove((r.id == 0) == isvoid, "exactly void cells have no material")
        en.prove(z3.Implies(z3.Not(isvoid), z3.Function("Material.name", I, I)(r.id) == nm), "the material has the name the cell gives")
        i = z3.Int("i")
        en.prove(z3.Implies(z3.And(z3.Not(isvoid), 0 <= i, i < allv.n, N(i) == nm,
                                   allidx(allv.n, lambda a: z3.Or(N(a) != nm, a == i), "_u")), r.id == allv.elem(i).id),
                 "the shared object of that name is used")
    verify(en, "Cell::AssignMaterial", body)


def find_by_name(q, member, rec):
    def body(en):
        def go():
            w = LBox(Box(en.symobj("World", "w")))
            nm = Str(z3.Int("name"))
            v = en.field(en.load(w), member)
            N = lambda i: z3.Function(rec + ".name", I, I)(v.elem(i).id)
            i = z3.Int("i")
            hit = z3.And(0 <= i, i < v.n, N(i) == nm.t)
            try:
                r = method(en, w, q[7:], [LBox(Box(nm))])
            except CppThrow:
                del en.frames[:]
                en.prove(z3.Not(hit), "an error only for a name without object")
                return
            en.prove(z3.Function(rec + ".name", I, I)(r.id) == nm.t, "the object found has the name asked for")
            en.prove(z3.Implies(z3.And(hit, allidx(v.n, lambda a: z3.Or(N(a) != nm.t, a == i), "_u")), r.id == v.elem(i).id),
                     "the shared object of that name is returned")
        verify(en, q, go)
    return body


unit("C17", "lookup of a nuclide by name", ["World::FindNuclideByName"])(find_by_name("World::FindNuclideByName", "nuclides", "Nuclide"))
unit("C17", "lookup of a surface by name", ["World::FindSurfaceByName"])(find_by_name("World::FindSurfaceByName", "surfaces", "CSGSurface"))
