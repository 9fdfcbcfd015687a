"""C15 interpolation, C16 HDF5 tables"""
from spec import *
from common import *


def lmap(en, name, depth):
    """symbolic ContinuousMap with a non-empty table"""
    rec = [r for r in en.prog.recname.get("ContinuousMap", ()) if r["usr"].count("ContinuousMap>#d") == depth]
    if not rec:
        raise MissingFunction(f"ContinuousMap nested {depth} deep")
    o = Obj(rec[0], {}, (name, []))
    return LBox(Box(o, name))


def at_fn(en, rec, nargs):
    for m in rec["methods"]:
        f = en.prog.funcs.get(m["usr"])
        if m["name"] == "at" and f and len(f.params) == nargs:
            return f
    for f in en.prog.find("ContinuousMap::at", nargs):
        if rec["usr"] in f.usr:
            return f
    raise MissingFunction(f"ContinuousMap::at with {nargs} arguments")


def at_contract(en, this, args):
    """inner table: a pure function of the table and the inner keys"""
    o = en.load(this)
    ks = [en.load(a).r for a in args]
    return FV(UF(f"table.at{len(ks)}", *[a.sort() for a in o.sym[1]], *[R] * len(ks), R)(*o.sym[1], *ks))


def interp(depth):
    @unit("C15", f"table of {depth} dimension{'s' * (depth > 1)}", [f"ContinuousMap::at ({depth} keys)"],
          contracts={"ContinuousMap::at": at_contract} if depth > 1 else {})
    def u(en):
        def body():
            m = lmap(en, "table", depth)
            els = en.field(en.load(m), "elements")
            en.assume(els.n >= 1)
            k = real(en, "k")
            inner = [real(en, f"k{i}") for i in range(1, depth)]
            f = at_fn(en, en.load(m).rec, depth)
            r = en.call(f, m, [k] + inner)
            r = en.load(r)
            en.prove(r.fin, "the value is finite")
            r = r.r
            n = els.n
            key = lambda i: els.key(i).r

            def val(i):
                v = els.val(els.key(i))
                if depth == 1:
                    return v.r
                return UF(f"table.at{depth - 1}", *[a.sort() for a in v.sym[1]], *[R] * (depth - 1), R)(
                    *v.sym[1], *[x.r for x in inner])
            i = z3.Int("i")
            inr = z3.And(0 <= i, i < n)
            nxt = z3.And(0 <= i, i + 1 < n)
            en.prove(z3.Implies(z3.And(inr, k.r == key(i)), r == val(i)), "at a tabulated key the tabulated value")
            en.prove(z3.Implies(k.r <= key(z3.IntVal(0)), r == val(z3.IntVal(0))), "below the first key the first value")
            en.prove(z3.Implies(k.r >= key(n - 1), r == val(n - 1)), "above the last key the last value")
            btw = z3.And(nxt, key(i) < k.r, k.r < key(i + 1))
            lo, hi = val(i), val(i + 1)
            w = z3.Real("w")
            en.assume(z3.Implies(btw, w * (key(i + 1) - key(i)) == k.r - key(i)))
            en.prove(z3.Implies(btw, r == lo + (hi - lo) * w), "between two keys the linear interpolation", timeout=20000)
            en.prove(z3.Implies(btw, z3.And(w > 0, w < 1)), "interpolation weight lies between zero and one", timeout=20000)
            en.prove(z3.Implies(btw, z3.And(z3.If(lo <= hi, lo, hi) <= r, r <= z3.If(lo <= hi, hi, lo))),
                     "the result lies between the two bracketing values", timeout=20000)
        verify(en, "ContinuousMap::at", body)


for _d in (1, 2, 3):
    interp(_d)


@unit("C15", "assignment through the subscript operator", ["ContinuousMap::operator[]"])
def u(en):
    def body():
        m = lmap(en, "table", 1)
        k, v, q = real(en, "k"), real(en, "v"), real(en, "q")
        old = en.field(en.load(m), "elements")
        had, oldv = tobool(old.dom(q)), old.val(q)
        f = fn(en, "ContinuousMap::operator[]", 1)
        f = [x for x in en.prog.find("ContinuousMap::operator[]") if en.load(m).rec["usr"] in x.usr][0]
        l = en.call(f, m, [LBox(Box(k))])
        en.store(l, v)
        new = en.field(en.load(m), "elements")
        en.prove(new.dom(k), "the key is in the table afterwards")
        en.prove(new.val(k).r == v.r, "the assigned value is stored under the key")
        en.prove(z3.Implies(q.r != k.r, z3.And(tobool(new.dom(q)) == had, z3.Implies(had, new.val(q).r == oldv.r))),
                 "other entries are unchanged")
    verify(en, "operator[]", body)


# ---------------------------------------------------------------- C16
def dataset_rec(en, d):
    for r in en.prog.recname.get("HDF5DataSet", ()):
        if r["usr"].endswith(f"#Vl{d}") or r["usr"].endswith(f"#Vm{d}"):
            return r
    raise MissingFunction(f"HDF5DataSet with {d} dimensions")


def member(en, rec, name, nparams=None):
    for m in rec["methods"]:
        f = en.prog.funcs.get(m["usr"])
        if m["name"] == name and f and (nparams is None or len(f.params) == nparams):
            return f
    for fs in en.prog.find(rec["q"] + "::" + name, nparams):
        if fs.usr.startswith(rec["usr"] + "@"):
            return fs
    raise MissingFunction(f"{rec['q']}::{name}")


def h5set(path, nm):
    grp = S.xfn("h5_group", I, I, I)(path, mkcode("/pandas"))
    return S.xfn("h5_set", I, I, I)(grp, mkcode(nm))


def dataset(en, d):
    """a data set read by the real constructor from a symbolic file"""
    rec = dataset_rec(en, d)
    path = z3.Int("path")
    f = [en.prog.funcs[m["usr"]] for m in rec["methods"] if m["usr"] in en.prog.funcs
         and en.prog.funcs[m["usr"]].d.get("ctor") and not en.prog.funcs[m["usr"]].d.get("implicit")][0]
    o = Obj(rec)
    o.extra = {"exact": True}
    b = LBox(Box(o, "dataset"))
    en.call(f, b, [LBox(Box(Opaque("path", path)))])
    return b, path


def grid(en, path, d):
    """number of points of each stored axis; the file holds a full grid (pandas layout)"""
    n = [S.h5_npoints(h5set(path, f"axis1_level{l}")) for l in range(d)]
    vals = h5set(path, "block0_values")
    prod = z3.IntVal(1)
    for x in n:
        en.assume(x >= 1)
        prod = prod * x
    en.assume(S.h5_npoints(vals) == z3.simplify(prod))
    return n, vals


def readable(path, d):
    """the file exists and has d index levels"""
    lv = S.xfn("h5_attr", I, I, I)(S.xfn("h5_group", I, I, I)(path, mkcode("/pandas")), mkcode("axis1_nlevels"))
    return z3.And(S.xfn("file_exists", I, B)(path), S.xfn("h5_attrval", I, I)(lv) == d)


def c16(d):
    @unit("C16", f"table with {d} dimension{'s' * (d > 1)}",
          ["HDF5DataSet::HDF5DataSet", "HDF5DataSet::ReadPandasAxis", "HDF5DataSet::ReadPandasValues",
           "HDF5DataSet::ComputeAxisStrides", "HDF5DataSet::at", "HDF5DataSet::at_from_base", "HDF5DataSet::GetAxis"])
    def u(en):
        def body():
            path = z3.Int("path")
            n, vals = grid(en, path, d)
            try:
                ds, _ = dataset(en, d)
            except CppThrow:
                del en.frames[:]
                en.prove(z3.Not(readable(path, d)), "an error only if the file is missing or has another number of levels")
                return
            en.prove(readable(path, d), "a missing file or another number of levels is an error")
            o = en.load(ds)
            axes, values = en.field(o, "axes"), en.field(o, "values")
            q = z3.Int("q")
            data = S.xfn("h5_data", I, I, R)
            for l in range(d):
                ax = en.load(en.call(member(en, o.rec, "GetAxis", 1), ds, [z3.IntVal(l)]))
                en.prove(ax.n == n[l], f"axis {l} has the stored size")
                en.prove(z3.Implies(z3.And(0 <= q, q < n[l]), ax.elem(q).r == data(h5set(path, f"axis1_level{l}"), q)),
                         f"axis {l} has the stored values")
            en.prove(values.n == S.h5_npoints(vals), "the table has the stored size")
            idx = [z3.Int(f"i{l}") for l in range(d)]
            for x in idx:
                en.assume(x >= 0)
            # Horner form of the offset, its range and its injectivity, one axis at a time
            off, size = z3.IntVal(0), z3.IntVal(1)
            inr = []
            for l in range(d):
                inr.append(idx[l] < n[l])
                r, N = en.fresh("r", I), en.fresh("N", I)
                o2 = z3.simplify(off * n[l] + idx[l])
                lem = z3.Implies(z3.And(0 <= r, r < N, 0 <= idx[l], idx[l] < n[l]),
                                 z3.And(0 <= r * n[l] + idx[l], r * n[l] + idx[l] < N * n[l]))
                step = z3.Implies(z3.And(r < N, n[l] >= 1), (N - 1 - r) * n[l] >= 0)
                en.prove(step, "product of nonnegative numbers", timeout=10000)
                en.prove(lem, f"offsets of axis {l} stay inside the table", timeout=10000)
                if l:
                    en.assume(z3.substitute(lem, (r, off), (N, size)))
                off, size = o2, z3.simplify(size * n[l])
            off = z3.simplify(off, som=True)
            en.assume(z3.Implies(z3.And(*inr), z3.And(0 <= off, off < z3.simplify(size, som=True))))
            f = member(en, o.rec, "at", d)
            try:
                r = en.load(en.call(f, ds, list(idx)))
            except CppThrow:
                del en.frames[:]
                en.prove(z3.Not(z3.And(*inr)), "an error only for an index outside its axis", timeout=20000)
                return
            en.prove(z3.And(*inr), "indices outside an axis are an error", timeout=20000)
            en.prove(r.r == data(vals, off), "the element stored for the index combination is returned", timeout=20000)
        verify(en, "HDF5DataSet", body)


for _d in (1, 2, 3, 4):
    c16(_d)


@unit("C16", "distinct index combinations address distinct elements", ["HDF5DataSet::at_from_base"])
def u(en):
    r, s, n, i, j = z3.Ints("r s n i j")
    en.reset()
    rng = z3.And(n >= 1, 0 <= i, i < n, 0 <= j, j < n)
    en.prove(z3.Implies(z3.And(rng, r < s), (s - r - 1) * n >= 0), "product of nonnegative numbers", timeout=10000)
    en.prove(z3.Implies(z3.And(rng, s < r), (r - s - 1) * n >= 0), "product of nonnegative numbers", timeout=10000)
    en.prove(z3.Implies(z3.And(rng, r * n + i == s * n + j), z3.And(r == s, i == j)),
             "one more axis keeps offsets distinct (induction step of the mixed-radix numbering)", timeout=10000)
    en.prove(z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i == j), i == j), "one axis: offsets are the indices")


def tocm(depth):
    def inner(en, this, args):
        """table of the remaining axes for fixed outer indices (its own unit has depth - 1)"""
        ks = [en.load(a) for a in args]
        rec = [r for r in en.prog.recname["ContinuousMap"] if r["usr"].count("ContinuousMap>#d") == depth - 1][0]
        return Obj(rec, {}, ("slice", ks))

    @unit("C16", f"conversion of {depth} axes to a function", ["HDF5DataSet::ToContinuousMap", "ContinuousMap::operator[]"],
          contracts={"HDF5DataSet::ToContinuousMap": inner} if depth > 1 else {})
    def u(en):
        def body():
            d = depth if depth > 1 else 2
            rec = dataset_rec(en, d)
            ds = LBox(Box(Obj(rec, {}, ("dataset", [])), "dataset"))
            o = en.load(ds)
            axes = en.field(o, "axes")
            outer = [] if depth > 1 else [z3.Int("i0")]
            ax = axes.elem(z3.IntVal(d - depth))
            a, b, q = z3.Ints("a b q")
            srt = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < ax.n), ax.elem(a).r < ax.elem(b).r))
            en.assume(srt)
            f = [x for x in en.prog.find("HDF5DataSet::ToContinuousMap", len(outer))
                 if x.usr.startswith(rec["usr"] + "@")]
            if not f:
                raise MissingFunction("HDF5DataSet::ToContinuousMap")
            en.contracts["HDF5DataSet::at"] = lambda en, this, args: FV(
                UF("dataset.at", I, I, R)(*[en.load(x) for x in args]))
            r = en.load(en.call(f[0], ds, list(outer)))
            els = en.field(r, "elements")
            k = ax.elem(q)
            en.prove(els.n == ax.n, "one entry per axis value")
            en.prove(z3.Implies(z3.And(0 <= q, q < ax.n), tobool(els.dom(k))), "every axis value is a key")
            v = els.val(k)
            want = v.sym[1][-1] == q if depth > 1 else v.r == UF("dataset.at", I, I, R)(*outer, q)
            en.prove(z3.Implies(z3.And(0 <= q, q < ax.n), want), "an axis value maps to the entry of the same position")
        verify(en, "HDF5DataSet::ToContinuousMap", body)


for _d in (1, 2, 3):
    tocm(_d)
