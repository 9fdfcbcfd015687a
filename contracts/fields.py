"""C22 temperature fields and the choice of the tracking method"""
from spec import *
from common import *


def field_at(i, p):
    return UF("ScalarField.at", I, R, R, R, R)(i, *p)


def field_const(i):
    return UF("ScalarField.IsConstant", I, B)(i)


FIELD = {"ScalarField::at": lambda en, this, args: FV(field_at(oid(en, this), xyz(en, args[0]))),
         "ScalarField::IsConstant": lambda en, this, args: field_const(oid(en, this))}


def value_at(en, f, p):
    return method(en, f, "at", [p])


def bounds(en, f):
    o = en.load(f)
    return en.field(o, "upper_bound"), en.field(o, "lower_bound")


def check_constant(en, f, c, what):
    p = LBox(Box(en.symobj("Point", "p")))
    u, l = bounds(en, f)
    v = value_at(en, f, p)
    en.prove(tobool(f_same(v, c)), f"{what}: the temperature is the given constant everywhere")
    en.prove(z3.And(tobool(f_same(u, c)), tobool(f_same(l, c))), f"{what}: both bounds are the constant")
    en.prove(tobool(method(en, f, "IsConstant")), f"{what}: counts as constant")


def check_linear(en, f, n):
    p = LBox(Box(en.symobj("Point", "p")))
    P = xyz(en, p)
    g = [xdouble(en, child(en, n, "gradient"), c) for c in "xyz"]
    b = xdouble(en, child(en, n, "intercept"), "b")
    v = value_at(en, f, p)
    en.prove(z3.And(tobool(v.fin), v.r == dot(g, P) + b), "linear field: gradient dot position plus intercept")
    k = tobool(method(en, f, "IsConstant"))
    en.prove(k == z3.And(*[c == 0 for c in g]), "linear field: constant exactly when the gradient is zero")
    u, l = bounds(en, f)
    bn = child(en, n, "bounds")
    en.prove(tobool(f_same(u, S.xdbl(en, attr(en, bn, "upper")))), "linear field: declared upper bound")
    en.prove(tobool(f_same(l, S.xdbl(en, attr(en, bn, "lower")))), "linear field: declared lower bound")


@unit("C22", "constant fields", ["ConstantField::ConstantField", "ConstantField::at", "ConstantField::IsConstant"])
def u(en):
    def body():
        c = real(en, "c")
        check_constant(en, construct(en, "ConstantField", [c]), c, "constant field")
        n = XML("node")
        check_constant(en, construct(en, "ConstantField", [n]), S.xdbl(en, attr(en, n.id, "c")), "constant field of the input")
    verify(en, "ConstantField", body)


@unit("C22", "linear fields", ["LinearField::LinearField", "LinearField::at", "LinearField::IsConstant"])
def u(en):
    def body():
        n = XML("node")
        check_linear(en, construct(en, "LinearField", [n]), n.id)
    verify(en, "LinearField", body)


@unit("C22", "field type follows the input", ["ScalarField::Create"])
def u(en):
    def body():
        n = XML("node")
        nm = S.xfn("xml_name", I, I)(n.id)
        const, lin = nm == mkcode("constant"), nm == mkcode("linear")
        en.assume(n.id != 0)
        en.assume(z3.Or(const, lin))
        en.assumed.add("the schema admits constant and linear temperature fields only")
        r = static(en, "ScalarField::Create", [n])
        en.prove(r.id != 0, "a field is created")
        l = en.deref(r)
        if en.branch(const):
            check_constant(en, l, S.xdbl(en, attr(en, n.id, "c")), "created constant field")
        else:
            check_linear(en, l, n.id)
    verify(en, "ScalarField::Create", body)


@unit("C22", "temperature of a cell", ["Cell::AssignTemperature"], contracts=FIELD)
def u(en):
    def body():
        n = XML("node")
        en.assume(n.id != 0)
        glob = Ptr(z3.Int("global"), None, rec_type(en, "ScalarField"), True)
        en.assume(glob.id >= 1)
        r = static(en, "Cell::AssignTemperature", [n, LBox(Box(glob))])
        own = attr(en, n.id, "temperature")
        if en.branch(own != 0):
            check_constant(en, en.deref(r), S.xdbl(en, own), "cell with a temperature")
        else:
            en.prove(r.id == glob.id, "a cell without temperature uses the global field")
    verify(en, "Cell::AssignTemperature", body)


def rec_type(en, q):
    r = en.prog.recname[q][0]
    for t in en.prog.types[r["tu"]]:
        if t["k"] == "rec" and t["q"] == q:
            return t
    raise MissingFunction(f"type {q}")


def field_contract(en, this, args):
    """ScalarField::Create: the field of the node (its own unit)"""
    return Ptr(UF("field_of", I, I)(en.load(args[0]).id), None, rec_type(en, "ScalarField"), True)


@unit("C22", "global temperature field", ["World::CreateTemperature"], contracts={"ScalarField::Create": field_contract})
def u(en):
    def body():
        n = XML("node")
        r = static(en, "World::CreateTemperature", [n])
        if en.branch(n.id == 0):
            check_constant(en, en.deref(r), FV(293.6), "default field")
        else:
            en.assume(S.xkids(en, n.id) > 0)
            en.prove(r.id == UF("field_of", I, I)(S.xkid(en, n.id, z3.IntVal(0))), "the field declared in the input is used")
    verify(en, "World::CreateTemperature", body)


@unit("C22", "choice of the tracking method", ["TransportMethod::Create", "World::HasConstantTemperature"], contracts=FIELD)
def u(en):
    def body():
        n = XML("root")
        w = LBox(Box(en.symobj("World", "world")))
        t = en.field(en.load(w), "temperature")
        en.assume(t.id >= 1)
        tn = child(en, child(en, n.id, "general"), "tracking")
        txt = z3.If(tn == 0, z3.IntVal(0), S.xfn("xml_text", I, I)(tn))
        surf, delta = z3.Or(txt == 0, txt == mkcode("surface")), txt == mkcode("cell delta")
        en.assume(z3.Or(surf, delta))
        en.assumed.add("the schema admits surface and cell delta tracking only")
        const = field_const(t.id)
        try:
            r = static(en, "TransportMethod::Create", [n, w])
        except CppThrow:
            del en.frames[:]
            en.prove(z3.And(surf, z3.Not(const)), "an error only for surface tracking in a field that is not constant")
            return
        en.prove(z3.Not(z3.And(surf, z3.Not(const))), "surface tracking in a field that is not constant is an error")
        q = en.load(en.deref(r)).rec["q"]
        if q == "SurfaceTracking":
            en.prove(surf, "surface tracking is used when asked for or by default")
        elif q == "CellDeltaTracking":
            en.prove(delta, "delta tracking is used when asked for")
        else:
            en.prove(False, "a known tracking method is created")
    verify(en, "TransportMethod::Create", body)
