"""C01: iterations of every parallel loop are independent."""
import multiprocessing, os, re
from ..common import load, effects, walk, strip
from ..access import Analyzer, rname
from ..race import RaceCheck, rbase
from ..invariants import fft_fields
from ..poly import P, Poly
from ..effects import isptr

EXPLANATION = """Affine dependence analysis of every OpenMP parallel loop of the library (all
functions of convolve.cc/h, fftw++.h/cc, parallel.cc, mpi/*): each access inside the loop is
abstracted to (storage root, polynomial byte offset, size); calls are inlined or replaced by
their inferred write effects; two different iterations are renamed apart and every
(write, access) pair has to be separated by the sign of the polynomial distance.  A pair that
can be neither separated nor shown to collide is counted as undecided."""
RULE = """violation: two iterations of a parallel loop write, or write and read, the same storage
(proved for all sizes, or exhibited by a size assignment satisfying every loop bound); an FFTW
planner call or stream output inside a parallel region; per-thread objects built from one shared
scratch buffer."""
ASSUMPTIONS = [
    "distinct pointer parameters of one function, distinct pointer fields and distinct slots of a pointer array do not alias",
    "size fields satisfy the constructor-checked class invariants (S>=C>=1, p=ceil(L/m), e=m/2+1, block sizes)",
    "strides and extents are at least one; the strided layout given to the normalising loops is injective",
    "FFTW's execute functions touch only the arrays they are given and may run concurrently on different arrays",
]

TECHNIQUE = "interprocedural affine dependence analysis of parallel loops on the typed AST"
NOTE = ("Static: sound separation proofs or exhibited collisions per access pair; pairs outside the affine "
        "fragment are counted undecided and never reported. Trusts clang's AST, the listed aliasing assumptions and FFTW's documented thread safety.")

_G = {}


def derived_defs(prog):
    """Sm = S*m and Cm = C*m, verified on every assignment to those fields"""
    out = {}
    for name, a, b in (("Sm", "S", "m"), ("Cm", "C", "m")):
        seen = ok = 0
        for f in prog.defs():
            for n in walk(f.get("body")):
                if n.get("k") == "asg" and strip(n["l"]).get("k") == "mem" and strip(n["l"])["f"] == name:
                    seen += 1
                    r = strip(n["r"])
                    if n["op"] == "=" and r.get("k") == "bin" and r["op"] == "*":
                        g = {strip(x).get("f") or strip(x).get("n") for x in (r["l"], r["r"])}
                        ok += g == {a, b}
        if seen and seen == ok:
            def mk(a, b):
                def f(A, st, r):
                    x = A.load(st, ("m", ("sub", r[1], r[2], a), P(0)), "unsigned long", 0)
                    y = A.load(st, ("m", ("sub", r[1], r[2], b), P(0)), "unsigned long", 0)
                    return x * y
                return f
            out[name] = mk(a, b)
    return out


def layout_ok(R, env):
    """assumed injectivity of a strided 2-d layout (stride,dist given by the caller)"""
    n = {k: v for k, v in env.items()}
    if "ostride" in n and "odist" in n:
        nx, M = n.get("nx"), n.get("M")
        if nx is None or M is None:
            return False
        return n["odist"] >= nx * n["ostride"] or n["ostride"] >= M * n["odist"]
    return True


def foreign(root):
    """handles and streams of other libraries (MPI datatypes, iostreams)"""
    r = rbase(root)
    return r[0] == "global" and str(r[1]).startswith(("ompi_", "std::", "stdout", "stderr"))


def work(i):
    prog, E, fs, defs = _G["prog"], _G["E"], _G["fs"], _G["defs"]
    f = fs[i]
    A = Analyzer(prog, E)
    A.flddefs = defs
    A.function(f)
    RC = RaceCheck(A, [fft_fields])
    RC.filter = layout_ok
    out = {"fn": f["name"], "file": f["file"], "regions": 0, "sites": set(), "acc": 0, "bad": [], "und": {}, "steps": A.steps}
    for R in A.regions:
        for k in [k for k, a in R.acc.items() if foreign(a.root)]:
            del R.acc[k]
        acc = list(R.acc.values())
        out["regions"] += 1
        out["sites"].add((R.fn.get("file"), R.ln))
        out["acc"] += len(acc)
        for pr in RC.region(R):
            if pr.verdict == "race":
                out["bad"].append((R.fn["file"], R.ln, R.fn["name"], pr.w.kind + pr.a.kind, rname(pr.w.root), pr.w.ln,
                                   rname(pr.a.root), pr.a.ln, pr.w.what, str(pr.why)[:600]))
            else:
                k = (R.fn["name"], R.ln)
                out["und"][k] = out["und"].get(k, 0) + 1
        for nt in R.notes:
            if nt[0] == "planner":
                out["bad"].append((R.fn["file"], R.ln, R.fn["name"], "planner", str(nt[2]), nt[1], "", 0, None, ""))
            elif nt[0] == "unsupported":
                k = (R.fn["name"], R.ln)
                out["und"][k] = out["und"].get(k, 0) + 1
    out["pairs"] = RC.npairs
    return out


def run(rep, tier):
    prog = load()
    E = effects(prog)
    fs, seen = [], set()
    allsites = set()
    for f in prog.defs():
        for n in walk(f.get("body")):
            if n.get("k") == "omp":
                allsites.add((f["file"], n.get("ln")))
                if f["id"] not in seen:
                    seen.add(f["id"])
                    fs.append(f)
    # big functions first
    fs.sort(key=lambda f: -sum(1 for _ in walk(f["body"])))
    _G.update(prog=prog, E=E, fs=fs, defs=derived_defs(prog))
    with multiprocessing.get_context("fork").Pool(8) as pool:
        res = pool.map(work, range(len(fs)), chunksize=1)
    sites = set()
    for r in res:
        rep.count("region_instances", r["regions"])
        rep.count("accesses", r["acc"])
        rep.count("pairs_checked", r["pairs"])
        rep.count("abstract_steps", r["steps"])
        sites |= r["sites"]
        for b in r["bad"]:
            file, ln, fn, kind, wr, wl, ar, al, what, why = b
            if kind == "planner":
                rep.bad("planner:%s:%s" % (fn, wr), file, wl, "FFTW planner call %s inside the parallel loop of %s (line %s)" % (wr, fn, ln))
            else:
                rep.bad("race:%s:%s:%s:%s" % (fn, kind, wr, ar), file, wl,
                        "iterations of the parallel loop at line %s of %s collide: %s of %s (line %s%s) and %s of %s (line %s) %s" %
                        (ln, fn, "write", wr, wl, ", " + what if what else "", {"W": "write", "R": "read"}[kind[1]], ar, al, why))
        for (fn, ln), n in r["und"].items():
            rep.undecided.append({"function": fn, "line": ln, "pairs": n})
    rep.coverage["functions_with_parallel_loops"] = len(fs)
    rep.coverage["parallel_loop_sites"] = len(sites)
    rep.coverage["omp_directive_sites"] = len(allsites)
    rep.coverage["pairs_discharged"] = rep.coverage["pairs_checked"] - sum(u["pairs"] for u in rep.undecided) - len(rep.violations)
    slots(rep, prog, E)
    rep.need("parallel_loop_sites", 200)
    rep.need("pairs_checked", 2000)
    rep.need("per_thread_slot_loops", 3)


def slots(rep, prog, E):
    """loops filling a per-thread table X[t]=new C(args): scratch passed to the
    constructor must depend on t"""
    for f in prog.defs():
        for lp in walk(f.get("body")):
            if lp.get("k") != "for":
                continue
            lv = loopvars(lp)
            for n in walk(lp.get("body")):
                if n.get("k") != "asg" or n["op"] != "=":
                    continue
                l, r = strip(n["l"]), strip(n["r"])
                if l.get("k") != "idx" or r.get("k") != "new":
                    continue
                c = r.get("init") or r.get("ctor") or {}
                c = strip(c) if isinstance(c, dict) else {}
                if c.get("k") != "ctor" or not any(x.get("k") == "ref" and x["id"] in lv for x in walk(l["i"])):
                    continue
                rep.count("per_thread_slot_loops")
                g = prog.funcs.get(c.get("fn"))
                if g is None or not g["isdef"]:
                    continue
                dep = dependent(lp, lv)
                for i, a in enumerate(c.get("args", [])):
                    if i >= len(g["params"]):
                        continue
                    t = g["params"][i]["t"]
                    if not isptr(t) or "Complex" not in t and "double" not in t and "void" not in t:
                        continue
                    rep.count("slot_scratch_arguments")
                    if a.get("k") == "defarg":
                        a = a["e"]
                    s = strip(a)
                    if s.get("k") in ("null", "int", "bool"):
                        continue
                    if any(x.get("k") == "ref" and x["id"] in dep for x in walk(s)):
                        continue
                    if any(x.get("k") in ("call", "new") for x in walk(s)):
                        continue
                    rep.bad("shared-scratch:%s:%s:%s" % (f["name"], c.get("cls"), g["params"][i]["n"]), f["file"], n.get("ln"),
                            "every per-thread %s is given the same buffer as %s; concurrent sub-convolutions overwrite each other" %
                            (c.get("cls"), g["params"][i]["n"]))


def loopvars(lp):
    out = set()
    i = lp.get("init") or {}
    for d in i.get("d", []) if i.get("k") == "decl" else []:
        out.add(d.get("id"))
    for n in walk(lp.get("inc")):
        if n.get("k") == "ref":
            out.add(n["id"])
    return out


def dependent(lp, lv):
    dep = set(lv)
    ch = True
    while ch:
        ch = False
        for n in walk(lp.get("body")):
            if n.get("k") == "decl":
                for d in n["d"]:
                    if d.get("id") not in dep and d.get("init") is not None and \
                            any(x.get("k") == "ref" and x["id"] in dep or x.get("k") in ("call", "new") for x in walk(d["init"])):
                        dep.add(d["id"])
                        ch = True
            elif n.get("k") == "asg":
                l = strip(n["l"])
                if l.get("k") == "ref" and l["id"] not in dep and \
                        any(x.get("k") == "ref" and x["id"] in dep or x.get("k") in ("call", "new") for x in walk(n["r"])):
                    dep.add(l["id"])
                    ch = True
    return dep
