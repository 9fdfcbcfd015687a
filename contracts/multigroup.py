"""C09 multigroup data"""
from spec import *
from common import *
from fields import rec_type
import loops


def text(en, n):
    return z3.If(n == 0, z3.IntVal(0), S.xfn("xml_text", I, I)(n))


def count(en, n):
    return S.ntok(en, text(en, n))


def entry(en, n, i):
    return S.xfn("tok_dbl", I, I, R)(text(en, n), i)


def root(en, n):
    return S.xfn("xml_root", I, I)(n)


def groups(en, n):
    g = attr(en, child(en, child(en, child(en, root(en, n), "minimc"), "nuclides"), "multigroup"), "groups")
    G = S.xint(en, g)
    en.assume(z3.And(1 <= G, G < 2 ** 20))
    en.assumed.add("schema: the number of groups is positive (and below 2^20, so that its square does not overflow)")
    return G


def node(en, name="node"):
    n = XML(name)
    r = root(en, n.id)
    en.assume(z3.And(n.id != 0, root(en, r) == r))
    en.assumed.add("pugixml: the root of the root of a document is the root")
    return n


def this_elements(en):
    """the columns of the matrix under construction"""
    for fr in en.frames:
        t = fr.get("this")
        if t is not None:
            o = en.load(t)
            if isinstance(o, Obj) and "TwoDimensional" in o.rec["q"] and o.fields.get("elements") is not None:
                return en.member(t, "elements")
    return None


def els(en, o):
    return en.field(en.load(o) if isinstance(o, Loc) else o, "elements")


@unit("C09", "cross sections of one index", ["Multigroup::OneDimensional::OneDimensional", "Multigroup::OneDimensional::at", "Multigroup::GroupStructureSize"])
def u(en):
    n = XML("node")
    cnt = count(en, n.id)

    def body():
        node(en)
        G = groups(en, n.id)
        o = construct(en, "Multigroup::OneDimensional", [n])
        g = z3.Int("g")
        en.prove(cnt == G, "another number of entries than groups is rejected")
        en.assume(z3.And(1 <= g, g <= G))
        en.prove(method(en, o, "at", [g]).r == entry(en, n.id, g - 1), "group g has the g-th listed value")

    def thrown(t):
        node(en)
        en.prove(cnt != groups(en, n.id), "rejected only for a wrong number of entries")
    verify(en, "Multigroup::OneDimensional::OneDimensional", body, on_throw=thrown)


@unit("C09", "cross sections of two indices", ["Multigroup::TwoDimensional::TwoDimensional", "Multigroup::TwoDimensional::at"])
def u(en):
    n = XML("node")
    cnt = count(en, n.id)

    def body():
        node(en)
        G = groups(en, n.id)
        o = construct(en, "Multigroup::TwoDimensional", [n])
        a, b = z3.Ints("incoming outgoing")
        en.prove(cnt == G * G, "another number of entries than the square of the number of groups is rejected")
        en.assume(z3.And(1 <= a, a <= G, 1 <= b, b <= G))
        c = method(en, o, "at", [a])
        r = method(en, LBox(Box(c)) if not isinstance(c, Loc) else c, "at", [b])
        en.prove(r.r == entry(en, n.id, G * (b - 1) + (a - 1)), "row of the outgoing and column of the incoming group", timeout=30000)

    def thrown(t):
        node(en)
        G = groups(en, n.id)
        en.prove(cnt != G * G, "rejected only for a wrong number of entries")
    verify(en, "Multigroup::TwoDimensional::TwoDimensional", body, on_throw=thrown)


def matrix_of(en, n):
    G = groups(en, n)
    return G, lambda out, inc: entry(en, n, G * (out - 1) + (inc - 1))


RAW = lambda out, inc: UF("raw", I, I, R)(out, inc)


def raw_matrix(en, this, args):
    """contract of TwoDimensional's constructor (own unit): the matrix of the entries, row outgoing, column incoming"""
    G = en.gget("G")
    en.prove(en.load(args[0]).id == en.gget("node"), "the matrix is read from the node")
    mrec = en.prog.recname["Multigroup::TwoDimensional"][0]
    mt = en.targ(en.tyof(mrec["tu"], [f for f in mrec["fields"] if f["name"] == "elements"][0]["type"]), 0)
    rec = en.prog.recname["Multigroup::OneDimensional"][0]
    ft = en.tyof(rec["tu"], [f for f in rec["fields"] if f["name"] == "elements"][0]["type"])
    el = en.targ(ft, 0)
    col = lambda a: Obj(rec, {"elements": Seq(G, lambda b: FV(RAW(b + 1, a + 1)), el, "vector")})
    en.store(en.member(this, "elements"), Seq(G, col, mt, "vector"))


@unit("C09", "columns of a normalised matrix", ["Multigroup::NormalizedTwoDimensional::NormalizedTwoDimensional"],
      contracts={"init Multigroup::TwoDimensional": raw_matrix})
def u(en):
    n = XML("node")
    raw = RAW

    def body():
        node(en)
        G = z3.Int("G")
        en.assume(z3.And(1 <= G, G < 2 ** 20))
        en.gset("G", G)
        en.gset("node", n.id)
        ssum = lambda a: SUM(en, lambda k: raw(k + 1, a + 1), G)      # column a, counted from zero
        busy = [False]

        def hook(en, s, cb):
            if busy[0]:
                return None
            l = this_elements(en)
            if l is None or any(fr["f"].q == "Multigroup::TwoDimensional::TwoDimensional" for fr in en.frames if fr.get("f")):
                return None
            if cb is None:
                return True
            cols = lambda: en.load(l)
            ent = lambda a, b: els(en, cols().elem(a))
            j, b = z3.Ints("_j _b")

            b0 = z3.Int("b")

            def done(js, bs):
                x = ent(js, bs).elem(bs).r
                return z3.If(ssum(js) == 0, x == raw(bs + 1, js + 1), x * ssum(js) == raw(bs + 1, js + 1))

            def inv(en):
                K = en.gget("K")
                js, bs = z3.Int("j"), b0
                last = z3.simplify(K - 1)
                rng = lambda x, y: z3.And(0 <= x, x < G, 0 <= y, y < G)
                old = lambda x, y: z3.Implies(z3.And(rng(x, y), x < last), done(x, y))
                new = lambda y: z3.Implies(z3.And(rng(last, y), K > 0), done(last, y))
                todo = lambda x, y: z3.Implies(z3.And(rng(x, y), x >= K), ent(x, y).elem(y).r == raw(y + 1, x + 1))
                size = lambda x: z3.Implies(z3.And(0 <= x, x < G), els(en, cols().elem(x)).n == G)
                return [("the matrix keeps its size", cols().n == G), ("columns are counted", K <= G),
                        ("columns keep their length", size(js), z3.ForAll([j], size(j))),
                        ("columns done stay normalised", old(js, bs),
                         z3.ForAll([j, b], z3.Implies(z3.And(rng(j, b), j < K), done(j, b)))),       # this one and the next together
                        ("the column just done is normalised", new(bs), z3.BoolVal(True)),
                        ("columns to do are raw", todo(js, bs), z3.ForAll([j, b], todo(j, b)))]
            busy[0] = True
            try:
                return loops.inv_loop(en, cb[0], lambda: en.focused(l, cb[1]), inv)
            finally:
                busy[0] = False
        en.loop_hook = hook
        o = construct(en, "Multigroup::NormalizedTwoDimensional", [n])
        en.loop_hook = None
        a, b = z3.Ints("incoming outgoing")
        en.assume(z3.And(0 <= a, a < G, 0 <= b, b < G))
        c = method(en, o, "at", [a + 1])
        r = method(en, LBox(Box(c)), "at", [b + 1])
        s = ssum(a)
        en.prove(z3.Implies(s != 0, r.r * s == raw(b + 1, a + 1)), "every entry is divided by the sum of its column", timeout=60000)
        en.prove(z3.Implies(s == 0, r.r == raw(b + 1, a + 1)), "a column of sum zero stays as it is", timeout=60000)
    verify(en, "Multigroup::NormalizedTwoDimensional::NormalizedTwoDimensional", body)
    en.loop_hook = None


@unit("C09", "normalised columns sum to one", [])
def u(en):
    def body():
        S_, P, Q, x = z3.Reals("sum partial_normalised partial_raw entry")
        en.assume(z3.And(S_ != 0, P * S_ == Q))
        en.prove((P + x / S_) * S_ == Q + x, "induction step: partial sums of the normalised column are those of the raw column divided by its sum", "lemma")
        en.prove(z3.Implies(Q == S_, P == 1), "hence the whole column sums to one", "lemma")
    verify(en, "lemma", body)


@unit("C09", "scatter cross section", ["Multigroup::CreateScatterXS"])
def u(en):
    n = XML("node")

    def body():
        node(en)
        G, raw = matrix_of(en, n.id)
        en.assume(count(en, n.id) == G * G)
        r = static(en, "Multigroup::CreateScatterXS", [n])
        g = z3.Int("g")
        v = els(en, r)
        en.prove(v.n == G, "one value per group")
        en.assume(z3.And(1 <= g, g <= G))
        en.prove(v.elem(g - 1).r == SUM(en, lambda k: raw(k + 1, g), G), "the scatter cross section of a group is the sum over outgoing groups of its column", timeout=60000)
    verify(en, "Multigroup::CreateScatterXS", body)


@unit("C09", "total cross section", ["Multigroup::CreateTotalXS"])
def u(en):
    n = XML("node")

    def body():
        node(en)
        G = groups(en, n.id)
        rs = en.mk(reactions_type(en), "reactions", [])
        k = z3.Int("_k")
        vec = lambda i: els(en, rs.val(rs.key(i)))
        en.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < rs.n), vec(k).n == G), patterns=[rs.key(k)]))
        en.assumed.add("contracts of OneDimensional and CreateScatterXS: one value per group")
        busy = [False]

        def hook(en, s, cb):
            if busy[0]:
                return None
            l = LBox(s["acc"]) if s.get("acc") else real_seq(en)
            if l is None or not isinstance(en.load(l), Seq):
                return None
            if cb is None:
                return True
            b, bq = z3.Int("b"), z3.Int("_b")

            def fact(b):
                v = en.load(l)
                return z3.Implies(z3.And(0 <= b, b < G), v.elem(b).r == SUM(en, lambda i: vec(i).elem(b).r, en.gget("K")))
            busy[0] = True
            try:
                return loops.inv_loop(en, cb[0], cb[1], lambda en: [
                    ("one value per group", en.load(l).n == G), ("reactions are counted", en.gget("K") <= rs.n),
                    ("the sum over the reactions so far", fact(b), z3.ForAll([bq], fact(bq)))])
            finally:
                busy[0] = False
        en.loop_hook = hook
        r = static(en, "Multigroup::CreateTotalXS", [n, LBox(Box(rs))])
        en.loop_hook = None
        g = z3.Int("g")
        v = els(en, r)
        en.prove(v.n == G, "one value per group")
        en.assume(z3.And(0 <= g, g < G))
        en.prove(v.elem(g).r == SUM(en, lambda i: vec(i).elem(g).r, rs.n), "the total of a group is the sum over the reactions", timeout=60000)
    verify(en, "Multigroup::CreateTotalXS", body)


def real_seq(en):
    """a local sequence of real numbers"""
    for fr in reversed(en.frames):
        for l in fr["env"].values():
            try:
                v = en.load(l)
            except Exception:
                continue
            if isinstance(v, Seq) and v.elty and v.elty["k"] == "float":
                return l
    return None


def reactions_type(en):
    r = en.prog.recname["Multigroup"][0]
    f = [x for x in r["fields"] if x["name"] == "reactions"][0]
    t = en.tyof(r["tu"], f["type"])
    return t


def one_dim(en, name, node):
    return en.mk(rec_type(en, "Multigroup::OneDimensional"), name, [node])


def equal_rows(en, a, b):
    """same number of values, same arbitrary value"""
    i = z3.Int("i")
    x, y = els(en, a), els(en, b)
    return z3.And(x.n == y.n, z3.Implies(z3.And(0 <= i, i < x.n), x.elem(i).r == y.elem(i).r))


def map_in_frames(en, cls):
    for fr in reversed(en.frames):
        for l in fr["env"].values():
            try:
                v = en.load(l)
            except Exception:
                continue
            if isinstance(v, MapV):
                return l
    raise Unsupported("no map of " + cls)


@unit("C09", "reactions present", ["Multigroup::CreateReactions"], contracts={
    "Multigroup::CreateScatterXS": lambda en, this, args: one_dim(en, "column_sums", en.load(args[0]).id),
    "new Multigroup::OneDimensional": lambda en, this, args: one_dim(en, "values", en.load(args[0]).id)})
def u(en):
    def body():
        n = XML("node")
        nk = S.xkids(en, n.id)
        k = lambda i: S.xkid(en, n.id, i)
        name = lambda i: S.xfn("xml_name", I, I)(k(i))
        E_ = en.prog.enums["Reaction"]
        kind = lambda i: z3.If(name(i) == mkcode("capture"), E_["capture"], z3.If(name(i) == mkcode("scatter"), E_["scatter"], E_["fission"]))
        ran = []

        def hook(en, s, cb):
            if cb is None:
                return True
            l = map_in_frames(en, "reactions")
            en.prove(en.load(l).n == 0, "no reactions to start with")
            before = []

            def start(en):
                K = en.gget("K")
                before[:] = [en.copy(en.load(l))]
                en.assume(z3.Or(*[name(K) == mkcode(x) for x in E_]))
                en.assumed.add("schema: reactions are capture, scatter and fission, each at most once")

            def post(en):
                K, b, a = en.gget("K"), before[0], en.load(l)
                x = z3.Int("x")
                key = kind(K)
                en.prove(tobool(a.dom(x)) == z3.Or(tobool(b.dom(x)), x == key), "the reaction of the node is added and no other")
                en.prove(z3.Implies(z3.And(tobool(b.dom(x)), x != key), equal_rows(en, a.val(x), b.val(x))), "other reactions keep their cross sections")
                fresh = z3.And(z3.Not(tobool(b.dom(key))), key == x)
                en.prove(z3.Implies(z3.And(fresh, x == E_["scatter"]), equal_rows(en, a.val(x), one_dim(en, "column_sums", k(K)))),
                         "a scatter reaction has the column sums of its matrix")
                en.prove(z3.Implies(z3.And(fresh, x == E_["fission"]), equal_rows(en, a.val(x), one_dim(en, "values", child(en, k(K), "xs")))),
                         "a fission reaction has the values of its cross sections")
                en.prove(z3.Implies(z3.And(fresh, x == E_["capture"]), equal_rows(en, a.val(x), one_dim(en, "values", k(K)))),
                         "a capture reaction has its values")
            r = loops.inv_loop(en, cb[0], cb[1], lambda en: [("the map", en.load(l).n >= 0)], start, post,
                               lambda en: en.prove(z3.BoolVal(False), "no reaction is left out"))
            ran.append((en.gget("K"), en.copy(en.load(l))))
            return r
        en.loop_hook = hook
        r = static(en, "Multigroup::CreateReactions", [n])
        en.loop_hook = None
        if not ran:
            raise Unsupported("no loop over the nodes")
        K, v = ran[-1]
        x = z3.Int("x")
        en.prove(K == nk, "every node of the input is looked at")
        en.prove(tobool(r.dom(x)) == tobool(v.dom(x)), "every reaction found is kept")
        en.prove(z3.Implies(tobool(v.dom(x)), equal_rows(en, r.val(x), v.val(x))), "with its cross sections")
    verify(en, "Multigroup::CreateReactions", body)
    en.loop_hook = None


@unit("C09", "data of a nuclide", ["Multigroup::Multigroup"], contracts={
    "Multigroup::CreateReactions": lambda en, this, args: reactions_of(en, en.load(args[0]).id),
    "Multigroup::CreateTotalXS": lambda en, this, args: total_of(en, args),
    "Multigroup::GroupStructureSize": lambda en, this, args: S.xfn("groups_of", I, I)(root(en, en.load(args[0]).id)),
    "new Multigroup::OneDimensional": lambda en, this, args: one_dim(en, "values", en.load(args[0]).id),
    "new Multigroup::NormalizedTwoDimensional": lambda en, this, args: two_dim(en, en.load(args[0]).id)})
def u(en):
    def body():
        n = node(en)
        o = construct(en, "Multigroup", [n])
        f = lambda x: en.field(en.load(o) if isinstance(o, Loc) else o, x)
        fis = child(en, n.id, "fission")
        a, b = z3.Ints("incoming outgoing")
        for nm, nd in (("chi", child(en, fis, "chi")), ("scatter_probs", child(en, n.id, "scatter"))):
            v = f(nm)
            en.prove(tobool(v.has) == (nd != 0), f"{nm} is there exactly if the input has it")
            en.prove(z3.Implies(nd != 0, same_matrix(en, v.v, nd)), f"{nm} is the normalised matrix of its node")
        nd = child(en, fis, "nubar")
        v = f("nubar")
        en.prove(tobool(v.has) == (nd != 0), "yields are there exactly if the input has them")
        en.prove(z3.Implies(nd != 0, equal_rows(en, v.v, one_dim(en, "values", nd)) if v.v is not None else z3.BoolVal(False)), "with the values of the input")
        t = f("total")
        en.prove(equal_rows(en, t, one_dim(en, "total_of", n.id)), "the total is the sum over the reactions of the nuclide")
        r = f("reactions")
        x = z3.Int("x")
        w = reactions_of(en, n.id)
        en.prove(tobool(r.dom(x)) == tobool(w.dom(x)), "the reactions are those of the node")
        en.prove(z3.Implies(tobool(r.dom(x)), equal_rows(en, r.val(x), w.val(x))), "with their cross sections")
        en.prove(f("max_group") == S.xfn("groups_of", I, I)(root(en, n.id)), "groups are those of the input")
    verify(en, "Multigroup::Multigroup", body)


def reactions_of(en, n):
    return en.mk(reactions_type(en), "reactions_of", [n])


def total_of(en, args):
    n = en.load(args[0]).id
    r, w = en.load(args[1]), reactions_of(en, n)
    x = z3.Int("x")
    en.prove(tobool(r.dom(x)) == tobool(w.dom(x)), "the total is made of the reactions of the nuclide")
    en.prove(z3.Implies(tobool(r.dom(x)), equal_rows(en, r.val(x), w.val(x))), "and their cross sections")
    return one_dim(en, "total_of", n)


def two_dim(en, n):
    return en.mk(rec_type(en, "Multigroup::NormalizedTwoDimensional"), "normalised", [n])


def same_matrix(en, v, n):
    if v is None:
        return z3.BoolVal(False)
    x, y = els(en, v), els(en, two_dim(en, n))
    j = z3.Int("j")
    return z3.And(x.n == y.n, z3.Implies(z3.And(0 <= j, j < x.n), equal_rows(en, x.elem(j), y.elem(j))))
