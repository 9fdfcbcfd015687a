"""Specification-side helpers: units (a function under contract), symbolic
construction of objects through the real constructors, ghost sums."""
import time, traceback, os, sys, hashlib
import z3
from values import *
import engine as E
from engine import Engine, LBox, LField, LElem, LMap, CppThrow, PathEnd, Ret, Loc
import stdmodel as S
import loops

UNITS = {}


class Unit:
    def __init__(self, pid, name, fns, f, budget, contracts):
        self.pid, self.name, self.fns, self.f, self.budget = pid, name, fns, f, budget
        self.contracts = contracts


def unit(pid, name, fns, budget=240, contracts=None):
    def dec(f):
        UNITS.setdefault(pid, []).append(Unit(pid, name, fns, f, budget, contracts or {}))
        return f
    return dec


def run_unit(prog, u):
    en = Engine(prog, u.contracts, u.budget)
    t = time.time()
    res = {"unit": u.name, "property": u.pid, "functions": list(u.fns), "status": "ok", "why": ""}
    try:
        u.f(en)
        if not en.obligations:
            res["status"], res["why"] = "undecided", "no obligation was generated"
    except Unsupported as x:
        res["status"], res["why"] = "undecided", f"outside the verifier's reach: {x}"
        if os.environ.get("VCG_TB"):
            traceback.print_exc()
    except (Ret, PathEnd, CppThrow, E.Brk, E.Cont) as x:
        res["status"], res["why"] = "undecided", f"control flow outside a path: {type(x).__name__} {x}"
    except RecursionError:
        res["status"], res["why"] = "undecided", "recursion limit of the verifier"
    except MissingFunction as x:
        res["status"], res["why"] = "undecided", str(x)
    except Exception as x:
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        res["status"], res["why"] = "undecided", f"verifier error: {type(x).__name__} {x} at {os.path.basename(tb.filename)}:{tb.lineno}"
        if os.environ.get("VCG_DEBUG"):
            traceback.print_exc()
    if os.environ.get("VCG_DEBUG") and res["status"] != "ok":
        print(res["why"])
    res["obligations"] = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3), loc=o.loc,
                               fn=o.fn, kind=o.kind, model=o.model, smt=o.smt) for o in en.obligations]
    res["inlined"] = sorted(en.inlined)
    res["contracts"] = sorted(en.used_contracts)
    res["models"] = sorted(en.models)
    res["assumed"] = sorted(en.assumed)
    res["opaque"] = sorted(en.opaque_notes)
    res["solver_time"] = round(en.solver_time, 2)
    res["time"] = round(time.time() - t, 2)
    res["covers"] = dict(en.covers)
    return res


class MissingFunction(Exception):
    pass


# ---------------------------------------------------------------- engine extensions
def fn(en, q, nparams=None, ptypes=None, rec=None):
    r = en.prog.find(q, nparams, ptypes)
    if not r:
        raise MissingFunction(f"function {q} is not in the sources any more")
    return r[0]


def verify(en, name, thunk, on_throw=None, limit=4000, need="return"):
    """run thunk on every path; thunk proves its obligations. on_throw(what) is called
    on a path that leaves by an exception (default: that must be impossible)."""
    en.reset()
    st = {"ok": 0, "throw": 0}

    def th():
        try:
            thunk()
            st["ok"] += 1
            en.cover(name + ": normal return reachable")
        except CppThrow as t:
            del en.frames[:]
            st["throw"] += 1
            if on_throw:
                on_throw(t)
            else:
                en.prove(False, f"{name}: no exception is thrown", "ensures")
    en.explore(th, lambda out: None, limit)
    en.prove(st["ok"] > 0 if need == "return" else st["throw"] > 0 if need == "throw" else True,
             f"{name}: some execution reaches the postcondition", "vacuity") if need else None
    return st


def construct(en, recq, args, exact=True):
    """object made by the real constructor"""
    rec = en.prog.recname[recq][0]
    o = Obj(rec)
    if exact:
        o.extra = {"exact": True}
    b = LBox(Box(o, recq))
    f = S.find_ctor(en, rec, args)
    if f is None or f == "copy":
        if f == "copy":
            return LBox(Box(en.copy(en.load(args[0]))))
        if args:
            raise MissingFunction(f"constructor of {recq}")
        en.default_fields(rec, o)
        return b
    av = []
    for p, a in zip(f.params, args):
        pt = f.ty(p["type"])
        a = a if isinstance(a, Loc) or pt["k"] != "ref" else LBox(Box(a))
        av.append(S.convert_arg(en, pt, a))
    en.call(f, b, av)
    return b


def method(en, this, name, args=(), nparams=None):
    """call a real method of the object at `this` (final overrider)"""
    o = en.load(this)
    f = find_method(en, o.rec, name, args)
    if f is None:
        raise MissingFunction(f"{o.rec['q']}::{name}")
    c = en.contracts.get(f.q)
    r = en.call(f, this, [a if isinstance(a, Loc) else LBox(Box(a)) for a in args])
    return en.load(r) if isinstance(r, Loc) else r


def find_method(en, rec, name, args):
    for m in rec["methods"]:
        if m["name"] == name:
            f = en.prog.funcs.get(m["usr"])
            if f is None:
                continue
            req = [p for p in f.params if "default" not in p]
            if len(req) <= len(args) <= len(f.params) and all(
                    S.value_matches(en, f.ty(p["type"]), a) for p, a in zip(f.params, args)):
                return f
    for b in rec["bases"]:
        br = en.prog.record_of(en.tyof(rec["tu"], b))
        if br:
            r = find_method(en, br, name, args)
            if r:
                return r
    return None


def static(en, q, args, **kw):
    f = fn(en, q, **kw)
    r = en.call(f, None, [a if isinstance(a, Loc) else LBox(Box(a)) for a in args])
    return en.load(r) if isinstance(r, Loc) else r


def real(en, name):
    return FV(z3.Real(name))


def XML(name):
    return XNode(z3.Int(name))


def attr(en, n, s):
    return S.xchild(en, n, mkcode(s), "xml_attr")


def child(en, n, s):
    return S.xchild(en, n, mkcode(s))


def mkcode(s):
    return z3.IntVal(E.strcode(s))


def xdouble(en, n, s):
    return S.xdbl(en, attr(en, n, s)).r


def xstring(en, n, s):
    return S.xstr(en, attr(en, n, s)).t


def SUM(en, f, n):
    k = z3.Int("_spec_k")
    t = f(k)
    t = t.r if isinstance(t, FV) else t
    return loops.summation(en, t, k, n)


def point(en, recq, name):
    """symbolic Point/Direction observed through Dot with the unit axes"""
    return en.symobj(recq, name)


def xyz(en, loc):
    o = en.load(loc) if isinstance(loc, Loc) else loc
    return [en.field(o, c).r for c in "xyz"]

__all__ = [n for n in list(globals()) if not n.startswith("__")]
