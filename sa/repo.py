"""Loads the resolved program (clang AST exported by tool/exporter.cc) of /repo's
current working tree.  Every run re-exports: nothing about /repo is cached."""
import json, os, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXPORTER = os.path.join(BUILD, "exporter")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """An anchor vanished / a rule matches nothing: an error of the check."""


def build_exporter():
    src = os.path.join(VERIF, "tool", "exporter.cc")
    if os.path.exists(EXPORTER) and os.path.getmtime(EXPORTER) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = EXPORTER + ".%d" % os.getpid()
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-O0", "-std=c++17",
           "-fno-exceptions", "-fno-rtti", "-I%s/include" % LLVM, "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "-L%s/lib" % LLVM, "-l:libclang-cpp.so.18.1", "-lLLVM-18",
           "-Wl,-rpath,%s/lib" % LLVM]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the AST exporter: " + r.stdout[-2000:])
    os.replace(tmp, EXPORTER)


_mpiflags = None


def mpi_flags():
    global _mpiflags
    if _mpiflags is None:
        r = subprocess.run(["mpic++", "--showme:compile"], stdout=subprocess.PIPE, text=True)
        _mpiflags = r.stdout.split()
    return _mpiflags


def base_flags(ndebug=True):
    f = ["-resource-dir", LLVM + "/lib/clang/18", "-I" + os.path.join(VERIF, "tool/stubs"),
         "-fopenmp", "-w", "-ferror-limit=0", "-fno-caret-diagnostics"]
    if ndebug:
        f.append("-DNDEBUG")
    return f


# name -> (source, extra flags)
def tus():
    R = REPO
    S = os.path.join(VERIF, "tool/stubs")
    core = ["-std=c++11", "-I" + R]
    mpi = ["-std=c++17", "-I" + R, "-I" + R + "/mpi", "-I" + R + "/tests"]
    return {
        "convolve": (R + "/convolve.cc", base_flags() + core),
        "convolve_nosse": (R + "/convolve.cc", base_flags() + core + ["-U__SSE2__"]),
        "fftw": (R + "/fftw++.cc", base_flags() + core),
        "parallel": (R + "/parallel.cc", base_flags() + core),
        "Array": (R + "/Array.cc", base_flags() + core),
        "cfftw": (R + "/wrappers/cfftw++.cc", base_flags() + core),
        "stub_fftw": (S + "/stub_fftw.cc", base_flags() + core),
        "stub_array": (S + "/stub_array.cc", base_flags() + core),
        "stub_array_dbg": (S + "/stub_array.cc", base_flags(False) + core),
        "mpiconvolve": (R + "/mpi/mpiconvolve.cc", base_flags() + mpi + mpi_flags()),
        "mpifftw": (R + "/mpi/mpifftw++.cc", base_flags() + mpi + mpi_flags()),
        "mpitranspose": (R + "/mpi/mpitranspose.cc", base_flags() + mpi + mpi_flags()),
        "stub_mpi": (S + "/stub_mpi.cc", base_flags() + mpi + mpi_flags()),
    }


def export(names):
    build_exporter()
    T = tus()
    out = {}
    d = tempfile.mkdtemp(prefix="vexport-")
    try:
        def one(n):
            src, fl = T[n]
            o = os.path.join(d, n + ".json")
            r = subprocess.run([EXPORTER, REPO, o, src, "--"] + fl, cwd=REPO,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(o):
                raise AnalysisBroken("exporter failed on %s: %s" % (src, r.stdout[-1500:]))
            with open(o) as f:
                return n, json.load(f)
        with ThreadPoolExecutor(max_workers=8) as ex:
            for n, j in ex.map(one, names):
                out[n] = j
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


class Program:
    def __init__(self, names, allow_errors=False):
        self.raw = export(names)
        self.funcs = {}        # id -> definition (or declaration)
        self.byname = {}       # name -> [func]
        self.classes = {}
        self.globals = {}
        self.diags = []
        for n, j in self.raw.items():
            for g in j["diags"]:
                self.diags.append((n, g))
            for f in j["functions"]:
                f["tu"] = n
                old = self.funcs.get(f["id"])
                if old is None or (f["isdef"] and not old["isdef"]):
                    if old is not None:
                        # keep default arguments known from the declaration
                        for a, b in zip(old["params"], f["params"]):
                            if "def" in a and "def" not in b:
                                b["def"] = a["def"]
                        for k in ("virt", "overrides"):
                            if old.get(k) and not f.get(k):
                                f[k] = old[k]
                    self.funcs[f["id"]] = f
            for c in j["classes"]:
                self.classes.setdefault(c["name"], c)
            for g in j["globals"]:
                o = self.globals.get(g["id"])
                if o is None or g["def"]:
                    self.globals[g["id"]] = g
        if self.diags and not allow_errors:
            raise AnalysisBroken("clang cannot parse %s: %s" % (self.diags[0][0], self.diags[0][1]))
        for f in self.funcs.values():
            self.byname.setdefault(f["name"], []).append(f)
        self.sub = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.sub.setdefault(b, []).append(c["name"])

    def defs(self):
        return [f for f in self.funcs.values() if f["isdef"]]

    def bases(self, c):
        out, st = [], [c]
        while st:
            x = st.pop()
            if x in out or x not in self.classes:
                if x not in out:
                    out.append(x)
                continue
            out.append(x)
            st.extend(self.classes[x]["bases"])
        return out

    def derived(self, c):
        out, st = [], [c]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.append(x)
            st.extend(self.sub.get(x, []))
        return out

    def override_in(self, fid, cls):
        """final overrider of virtual method fid in dynamic class cls"""
        f = self.funcs.get(fid)
        if f is None:
            return None
        sig = sigof(f)
        for c in self.bases(cls):
            for g in self.byname.get(c + "::" + f["base"], []):
                if sigof(g) == sig:
                    return g
        return f

    def overriders(self, fid):
        f = self.funcs.get(fid)
        if f is None:
            return []
        out = [f]
        sig = sigof(f)
        for c in self.derived(f.get("cls", "")):
            for g in self.byname.get(c + "::" + f["base"], []):
                if sigof(g) == sig and g not in out:
                    out.append(g)
        return out

    def method(self, name, nargs=None):
        return [f for f in self.byname.get(name, []) if nargs is None or len(f["params"]) == nargs]


def sigof(f):
    return tuple(p["t"] for p in f["params"]) + (f.get("const", False),)


def walk(n):
    """all dict nodes of an AST fragment, pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


def strip(e):
    """drop value-preserving wrappers"""
    while isinstance(e, dict) and e.get("k") in ("rv", "icast", "cast", "defarg"):
        e = e["e"]
    return e
