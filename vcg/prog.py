"""Loads the clang AST exported from /repo/src on every run."""
import re, hashlib, json, os, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VCG_REPO", "/repo")
SRC = REPO + "/src/"
CACHE = os.environ.get("VCG_CACHE", VERIF + "/.cache")
FLAGS = ["-std=gnu++17", "-I" + REPO + "/src", "-isystem", "/usr/include/hdf5/serial"]


class BuildError(Exception):
    pass


def exporter():
    """path of the AST exporter, built on first use"""
    src = VERIF + "/vcg/exporter/export.cpp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = f"{CACHE}/export-{h}"
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + f".{os.getpid()}"
        r = subprocess.run(
            ["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
             "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
             "-Wl,-rpath,/usr/lib/llvm-18/lib"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("exporter does not build: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def sources():
    return sorted(SRC + f for f in os.listdir(SRC) if f.endswith(".cpp"))


def export_all():
    exe = exporter()
    allf = sorted(os.path.join(d, f) for d, _, fs in os.walk(SRC) for f in fs)
    h = hashlib.sha256(open(exe, "rb").read())
    for f in allf + [VERIF + "/contracts/instances.cpp"]:
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    out = f"{CACHE}/ast-{h.hexdigest()[:20]}"
    os.makedirs(out, exist_ok=True)

    def one(f):
        o = f"{out}/{os.path.basename(f)}.json"
        if os.path.exists(o):
            return o, ""
        t = o + f".{os.getpid()}"
        r = subprocess.run([exe, SRC, t, f, "--"] + FLAGS, capture_output=True, text=True)
        if r.returncode or not os.path.exists(t):
            return None, r.stderr[-1500:]
        os.rename(t, o)
        return o, ""

    extra = VERIF + "/contracts/instances.cpp"
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, sources() + [extra]))
    if rs[-1][0] is None:
        print("instances.cpp does not parse against the sources:", rs[-1][1][-300:])
        rs.pop()
    bad = [m for o, m in rs if o is None]
    if bad:
        raise BuildError("clang does not parse the sources: " + bad[0])
    return [o for o, _ in rs]


class Func:
    __slots__ = ("d", "tu", "usr", "q", "prog", "params", "body")

    def __init__(self, prog, tu, usr, d):
        self.prog, self.tu, self.usr, self.d = prog, tu, usr, d
        self.q, self.params, self.body = d["q"], d["params"], d["body"]

    def ty(self, i):
        return self.prog.ty(self.tu, i)

    def __repr__(self):
        return f"<{self.q} {self.d['loc']}>"


class Prog:
    def __init__(self, files=None):
        files = files or export_all()
        self.types, self.tus = [], []
        self.funcs, self.records, self.enums, self.globals = {}, {}, {}, {}
        self.byname, self.recname = {}, {}
        for n, f in enumerate(files):
            d = json.load(open(f))
            self.tus.append(f)
            self.types.append(d["types"])
            for i, t in enumerate(d["types"]):
                if t is not None:
                    t["tu"], t["id"] = n, i
            for u, x in d["functions"].items():
                key = self.key(n, u)
                if key not in self.funcs:
                    fn = Func(self, n, key, x)
                    self.funcs[key] = fn
                    self.byname.setdefault(x["q"], []).append(fn)
            for u, x in d["records"].items():
                if u not in self.records:
                    x["tu"], x["usr"] = n, u
                    self.records[u] = x
                    self.recname.setdefault(x["q"], []).append(x)
            for q, x in d["enums"].items():
                self.enums.setdefault(q, {e["name"]: int(e["value"]) for e in x})
            for u, x in d["globals"].items():
                if u not in self.globals or ("init" in x and "init" not in self.globals[u]):
                    x["tu"] = n
                    self.globals[u] = x
        # a by-value parameter may be const in the declaration only (or in the definition only)
        byname = {}
        flat = lambda u: re.sub(r"#1(?=[a-zA-Z$])", "#", u)
        for u, f in self.funcs.items():
            byname.setdefault(flat(u), f)
        for r in self.records.values():
            for m in r["methods"]:
                if m["usr"] not in self.funcs and flat(m["usr"]) in byname:
                    self.funcs[m["usr"]] = byname[flat(m["usr"])]
        # methods overriding a virtual method
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.d.get("overrides", ()):
                self.overriders.setdefault(o, []).append(f)

    @staticmethod
    def key(tu, usr):
        return f"{tu}|{usr}" if usr.startswith(("lambda:", "addr:")) else usr

    def ty(self, tu, i):
        return self.types[tu][i]

    def func(self, tu, usr):
        return self.funcs.get(self.key(tu, usr))

    def find(self, q, nparams=None, ptypes=None):
        """functions with this qualified name"""
        r = [f for f in self.byname.get(q, ()) if not f.d.get("implicit")]
        if nparams is not None:
            r = [f for f in r if len(f.params) == nparams]
        if ptypes is not None:
            def ok(f):
                return len(f.params) == len(ptypes) and all(
                    p in f.ty(x["type"])["s"] for p, x in zip(ptypes, f.params))
            r = [f for f in r if ok(f)]
        return r

    def record_of(self, t):
        """record of a type entry (dict)"""
        return self.records.get(t.get("usr"))
