"""Replay of properties on the real code: compiles /repo/src and the property's driver, runs it."""
import concurrent.futures as cf
import hashlib, json, os, shutil, signal, subprocess, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VCG_REPO", "/repo")
SRC = REPO + "/src"
CACHE = os.environ.get("VCG_CACHE", V + "/.cache") + "/native"
CXX = ["g++", "-O1", "-g1", "-std=gnu++17", "-D_GLIBCXX_ASSERTIONS", "-fno-access-control", "-w", "-I" + SRC,
       "-isystem", "/usr/include/hdf5/serial", "-I" + V + "/harness"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lxerces-c", "-lpugixml", "-lhdf5_cpp", "-lhdf5", "-lpthread",
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial"]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class Native:
    def __init__(self, pid):
        self.pid = pid
        self.src = f"{V}/harness/{pid}.cpp"
        self.exe, self.err, self.th = None, "", None

    def start(self):
        if not os.path.exists(self.src):
            self.err = "no concrete driver for this property"
            return
        self.th = threading.Thread(target=self.build)
        self.th.start()

    def build(self):
        try:
            self.exe = build(self.src)
        except Exception as x:
            self.err = str(x)[-1500:]

    def wait(self):
        if self.th:
            self.th.join()
        return self.exe

    def run(self, args, secs):
        """-> (ok, report dict). The driver writes its progress to a report file."""
        d = tempfile.mkdtemp(prefix="minimc-run-")
        rep = d + "/report"
        env = dict(os.environ, TMPDIR=d)
        out = ""
        try:
            p = subprocess.Popen([self.exe] + args + [rep], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 env=env, start_new_session=True, text=True, errors="replace")
            try:
                out, _ = p.communicate(timeout=secs + 45)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                rc = "timeout"
            lines = open(rep, errors="replace").read().splitlines() if os.path.exists(rep) else []
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return rc, lines, (out or "")[-1500:]

    def search(self, seed, secs, known=()):
        if not self.wait():
            return {"ran": False, "note": self.err}
        t = time.time()
        rc, lines, out = self.run(["search", str(seed), str(secs)], secs)
        r = {"ran": True, "seconds": round(time.time() - t, 1), "known": []}
        cur, cases, samples, viol, ks = None, 0, [], None, {k for k, _ in known}
        for l in lines:
            k, _, v = l.partition(" ")
            if k == "case":
                cur = v
            elif k == "cases":
                cases = int(v)
            elif k == "sample":
                samples.append(v)
            elif k == "known":
                r["known"].append(v)
            elif k == "fail":
                viol = {"case": cur, "what": v, "seed": seed}
        if rc == "timeout":
            r["note"] = "driver did not finish in time; not counted as a violation"
        elif viol is None and rc != 0:
            if cur is not None and rc is not None:
                viol = {"case": cur, "what": f"the program ended abnormally (status {rc}): {out[-600:]}", "seed": seed}
            else:
                r["ran"], r["note"] = False, f"driver did not run: status {rc} {out[-400:]}"
        r["cases"], r["samples"] = cases, samples[:3]
        if viol:
            r["violation"] = viol
        return r

    def replay(self, d):
        if not self.wait():
            return {"note": self.err}
        rc, lines, out = self.run(["replay", str(d["seed"]), str(d["case"])], 60)
        for l in lines:
            if l.startswith("fail "):
                return {"violation": l[5:]}
        if rc not in (0, "timeout"):
            return {"violation": f"abnormal end {rc}: {out[-600:]}"}
        return {"note": "the recorded case passes on this tree"}


def build(src):
    os.makedirs(CACHE, exist_ok=True)
    heads = b"".join(rd(os.path.join(dp, f)) for dp, _, fs in sorted(os.walk(SRC)) for f in sorted(fs) if f.endswith((".hpp", ".h")))
    # a probability may exceed one by rounding in delta tracking; libstdc++'s check of it is off there, the driver has its own
    cxx = [x for x in CXX if "ASSERTIONS" not in x] if rd(src).startswith(b"// no-assertions") else CXX
    base = hashlib.sha256(heads + repr(cxx).encode()).hexdigest()[:12]

    def comp(f, extra=b""):
        h = hashlib.sha256(rd(f) + base.encode() + extra).hexdigest()[:20]
        o = f"{CACHE}/{os.path.basename(f)}-{h}.o"
        if not os.path.exists(o):
            t = o + f".{os.getpid()}"
            r = subprocess.run(cxx + ["-c", f, "-o", t], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(f"{os.path.basename(f)} does not compile: " + r.stderr[-1200:])
            os.rename(t, o)
        return o
    srcs = sorted(SRC + "/" + f for f in os.listdir(SRC) if f.endswith(".cpp") and f != "minimc.cpp")
    common = b"".join(rd(f"{V}/harness/{h}") for h in sorted(os.listdir(V + "/harness")) if h.endswith(".hpp"))
    with cf.ThreadPoolExecutor(6) as ex:
        objs = list(ex.map(lambda f: comp(f, common if f == src else b""), [src] + srcs))
    h = hashlib.sha256("".join(objs).encode()).hexdigest()[:20]
    exe = f"{CACHE}/{os.path.basename(src)[:-4]}-{h}"
    if not os.path.exists(exe):
        t = exe + f".{os.getpid()}"
        r = subprocess.run(["g++", "-o", t] + objs + LIBS, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("link: " + r.stderr[-1200:])
        os.rename(t, exe)
    return exe


if __name__ == "__main__":
    import sys
    print(build(f"{V}/harness/{sys.argv[1]}.cpp"))
