"""C03: everything acquired is released exactly once."""
import os
from ..common import load, effects, walk, strip
from .. import owner

TECHNIQUE = "interprocedural typestate/ownership dataflow over the typed AST (construct, operate, destroy)"
EXPLANATION = """Ownership typestate analysis.  Every class that owns memory or FFTW plans is driven
through each of its constructors, each operation that can acquire something afterwards (twice) and
its destructor, and every free-standing function that acquires something through its body, by a
path-sensitive abstract interpretation in which every acquisition (new, new[], newAlign,
ComplexAlign, doubleAlign, fftw_plan_*, fftw_mpi_plan_*) is a tracked resource and every release
(delete, delete[], deleteAlign, free0, fftw_destroy_plan) ends it.  Loops are summarised as families of resources
indexed by the loop variable; release loops must cover the same index range."""
RULE = """violation: on some feasible path a resource is still owned by nobody after the object was
destroyed (leak); it is released twice, used after release, released with the wrong
deallocator, at an offset, or over another index range than it was acquired; a pointer never set is
released; a buffer supplied by the caller is released; an object is deleted through a base without virtual
destructor; a class whose destructor releases a member is copied by value with the implicit copy constructor."""
ASSUMPTIONS = [
    "class invariants S>=C>=1, p>=1; the optimiser objects may return any parameters",
    "exit() ends the program (resources held at that point are not leaks)",
    "the thread count an object was built with does not change before it is destroyed",
]
NOTE = ("Static: path-sensitive abstract interpretation with symbolic guards; undecided functions (time limit, "
        "too many paths) are listed in the evidence and never reported. Trusts clang's AST and the FFTW planner model.")

RULES = {"double-free", "free-uninit", "free-foreign", "free-interior", "free-range", "mismatch", "free-in-loop", "vdtor",
         "use-freed"}


def frees(f):
    """members of this the destructor releases"""
    out = []
    for n in walk(f.get("body")):
        e = None
        if n.get("k") == "delete":
            e = strip(n.get("e") or {})
        elif n.get("k") == "call" and (n.get("name") or "").split("::")[-1] in ("deleteAlign", "fftw_destroy_plan", "MPI_Comm_free", "free0") and n.get("args"):
            e = strip(n["args"][0])
        while e and e.get("k") == "idx":
            e = strip(e["b"])
        if e and e.get("k") == "un" and e.get("op") == "&":
            e = strip(e["e"])
        if e and e.get("k") == "mem" and (strip(e.get("b") or {}).get("k") in (None, "this")):
            out.append((e["f"], n.get("ln")))
    return out


def copies(prog, rep):
    fr = {}
    for f in prog.defs():
        if f["kind"] == "dtor":
            k = prog.classes.get(f.get("cls")) or {}
            m = frees(f)
            if m:
                rep.count("freeing_destructors")
                if not k.get("usercopyctor"):
                    fr[f["cls"]] = (f, m)
    derived = {}
    for c in fr:
        derived[c] = c
        for d in prog.derived(c):
            if not (prog.classes.get(d) or {}).get("usercopyctor"):
                derived.setdefault(d, c)
    for f in prog.defs():
        if f["file"].startswith("/") or "main" == f["name"]:
            continue
        for src in [f.get("body")] + [i.get("e") for i in f.get("inits") or []]:
            for n in walk(src or {}):
                if n.get("k") == "ctor" and n.get("copy") and not n.get("elide"):
                    rep.count("copies")
                    c = n.get("cls")
                    if c in derived and not "&&" in (n.get("fn") or ""):
                        d, m = fr[derived[c]]
                        rep.bad("copy:%s:%s" % (f["name"], c), f["file"], n.get("ln") or f["ln"],
                                "%s copies a %s by value with the implicit copy constructor, but ~%s (%s:%s) releases its member %s: both copies release it" %
                                (f["name"], c, c.split("::")[-1], d["file"], m[0][1], m[0][0]))


def run(rep, tier):
    prog = load()
    E = effects(prog)
    owner.LIMIT = 170 if tier == "quick" else 600
    out, info = owner.run(prog, E, procs=os.cpu_count() or 8)
    done = set()
    for r in out:
        kind, name, idx = r["job"]
        rep.count("objects" if kind == "class" else "functions")
        rep.count("states", r["states"])
        rep.count("destroyed_states", r["paths"])
        rep.count("calls_followed", r["calls"])
        if not r["err"]:
            done.add(name)
        for l in r["leaks"]:
            rep.bad(l["key"], l["file"], l["ln"],
                    "%s (%s) acquired in %s is never released; path: %s" % (l["tgt"] or "a resource", l["what"], l["fn"], "; ".join(map(str, l["path"]))))
        for q in r["problems"]:
            if q["rule"] in RULES:
                rep.bad("%s:%s" % (q["rule"], q["ident"]), q["file"], q["ln"], q["msg"] + "; path: " + "; ".join(map(str, q["path"][-5:])))
        for e in r["err"]:
            rep.undecided.append(dict(job=name, why=e[2], at="%s:%s" % (e[0], e[1])))
    for s in info["skipped"]:
        rep.undecided.append(dict(job=s, why="class not analysed"))
    copies(prog, rep)
    rep.coverage["decided_units"] = len(done)
    rep.need("objects", 20)
    rep.need("functions", 3)
    rep.need("decided_units", 20)
