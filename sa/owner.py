"""Ownership analysis: drives life.py over every class (constructor, then any
allocating operation, then destructor) and over every free-standing function."""
import multiprocessing, signal, sys, time
from .life import Life, St, Limit, FREE, ALLOCEXT, trace
from .objlife import ObjLife, ctors, dtor
from .repo import walk, strip

sys.setrecursionlimit(20000)
UNINIT = ("read-uninit", "use-uninit")


def allocating(f):
    for n in walk(f.get("body")):
        k = n.get("k")
        if k in ("new", "delete"):
            return True
        if k == "call":
            nm = n.get("name") or ""
            b = nm.split("::")[-1]
            if b in ("newAlign", "deleteAlign") or nm in FREE or nm in ALLOCEXT or nm.startswith(("fftw_plan_", "fftw_mpi_plan_")):
                return True
    return any(n.get("k") == "new" for i in f.get("inits") or [] for n in walk(i.get("e") or {}))


def reaches(prog, roots):
    """functions that transitively call one of roots"""
    callers = {}
    for f in prog.defs():
        for n in walk(f.get("body")):
            if n.get("k") == "call" and n.get("fn"):
                callers.setdefault(n["fn"], set()).add(f["id"])
        for i in f.get("inits") or []:
            for n in walk(i.get("e") or {}):
                if n.get("fn"):
                    callers.setdefault(n["fn"], set()).add(f["id"])
    out, todo = set(roots), list(roots)
    while todo:
        x = todo.pop()
        for c in callers.get(x, ()):
            if c not in out:
                out.add(c)
                todo.append(c)
    return out


def baseonly(prog):
    """constructors that only ever initialise the base part of another class"""
    used, based = set(), set()
    for f in prog.defs():
        for i in f.get("inits") or []:
            e = strip(i["e"]) if i.get("e") else {}
            if i.get("basecls") and e.get("fn"):
                based.add(e["fn"])
                for a in e.get("args") or []:
                    for n in walk(a):
                        if n.get("k") == "ctor" and n.get("fn"):
                            used.add(n["fn"])
            elif i.get("e"):
                for n in walk(i["e"]):
                    if n.get("fn"):
                        used.add(n["fn"])
        for n in walk(f.get("body")):
            if n.get("k") == "ctor" and n.get("fn"):
                used.add(n["fn"])
    return based - used


def owners(prog):
    """classes some constructor, destructor or operation of which handles resources"""
    alloc = {f["id"] for f in prog.defs() if allocating(f)}
    R = reaches(prog, alloc)
    out = []
    for c, k in prog.classes.items():
        if c.startswith("std::"):
            continue
        fs = [f for f in prog.defs() if f.get("cls") == c and f["id"] in R]
        bs = [b for b in prog.bases(c)]
        if not fs and not any(f.get("cls") in bs and f["id"] in R for f in prog.defs()):
            continue
        if not ctors(prog, c):
            continue
        out.append(c)
    return sorted(out), R


SKIP = ("utils::mpitranspose", "fftwpp::fftwblock")


def setupcalls(prog, bases):
    """methods that construction or destruction of some relative already performs"""
    fam = set(bases)
    for b in bases:
        fam |= set(prog.derived(b))
    cc = set()
    todo = [k["id"] for b in fam for k in prog.byname.get(b + "::<ctor>", []) + prog.byname.get(b + "::<dtor>", [])]
    while todo:
        x = todo.pop()
        if x in cc:
            continue
        cc.add(x)
        f = prog.funcs.get(x)
        if not f or not f["isdef"]:
            continue
        for src in [f.get("body")] + [i.get("e") for i in f.get("inits") or []]:
            for n in walk(src or {}):
                g = prog.funcs.get(n.get("fn") or "")
                if g and g.get("cls") in fam:
                    todo += [h["id"] for h in (prog.overriders(g["id"]) if n.get("virt") else [g])]
    return cc


def operations(prog, c, R):
    """entry points of c that make a member acquire or release something after
    construction: the direct callers of allocating methods, or the allocating
    methods themselves when nothing in the class calls them"""
    bases = [c] + list(prog.bases(c))
    cc = setupcalls(prog, bases)
    ms = [f for f in prog.defs() if f.get("cls") in bases and f["kind"] not in ("ctor", "dtor") and f["id"] not in cc
          and not f.get("static")]
    ms = [f for f in ms if not f["ret"].rstrip().endswith("*")]  # hands what it makes to its caller
    al = [f for f in ms if f["id"] in R and allocating(f)]
    out = []
    for m in al:
        cs = [f for f in ms if f is not m and any(n.get("k") == "call" and n.get("fn") == m["id"] for n in walk(f.get("body")))]
        for f in cs or [m]:
            if f not in out:
                out.append(f)
    return out


def unused(prog, c, k, used):
    """a constructor nobody calls, of a class that only serves as a base"""
    return k["id"] not in used and bool(prog.derived(c)) and not any(
        True for d in prog.derived(c) if d == c)


def ctorsused(prog):
    used = set()
    for f in prog.defs():
        for src in [f.get("body")] + [i.get("e") for i in f.get("inits") or [] if not i.get("basecls")]:
            for n in walk(src or {}):
                if n.get("k") == "ctor" and n.get("fn"):
                    used.add(n["fn"])
    return used


def holds(prog, c):
    """some pointer or object member (of c or a base)"""
    for b in [c] + list(prog.bases(c)):
        k = prog.classes.get(b)
        if k and any(x["t"].rstrip().endswith("*") or "fftw_plan" in x["t"] or x["t"].replace("fftwpp::", "") in
                     {y.split("::")[-1] for y in prog.classes} for x in k["fields"]):
            return True
    return False


_W = {}
LIMIT = 150


class Late(Exception):
    pass


def _late(*a):
    raise Late()


def _work(job):
    prog, E, R, bo = _W["a"]
    kind, name, idx = job
    t0 = time.time()
    res = {"job": job, "problems": [], "leaks": [], "err": [], "states": 0, "paths": 0, "calls": 0}
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(LIMIT)
    try:
        if kind == "class":
            _class(prog, E, R, bo, name, idx, res)
        else:
            _function(prog, E, name, res)
    except RecursionError as e:
        res["err"].append((name, 0, "recursion"))
    except Late:
        res["err"].append((name, 0, "time limit"))
    signal.alarm(0)
    res["t"] = time.time() - t0
    return res


def _leaks(L, outs, res, where):
    """resources still owned after everything was destroyed"""
    for z in outs:
        for r, v in z.res.items():
            if v == "live":
                R = L.resources[r]
                site = [x for x, _ in r[0]]
                fns = [L.p.funcs[x] for x in site if x in L.p.funcs]
                fns = [f for f in fns if not f["file"].startswith("align.h") and f["base"] not in WRAP]
                lns = [ln for x, ln in r[0] if x in L.p.funcs and not L.p.funcs[x]["file"].startswith("align.h") and L.p.funcs[x]["base"] not in WRAP]
                f = fns[-1] if fns else None
                fn = f["name"] if f else R.fn
                if R.what in L.p.classes or f is None:
                    nm = R.what
                else:
                    nm = R.what
                tgt = target(f, lns[-1] if lns else 0)
                key = "leak:%s:%s:%s" % (where, fn, tgt or nm)
                if not any(x["key"] == key for x in res["leaks"]):
                    res["leaks"].append(dict(key=key, fn=fn, file=f["file"] if f else R.file, ln=lns[-1] if lns else R.ln,
                                             what=R.what, tgt=tgt, path=trace(z, 6)))


WRAP = ("Activate", "Allocate", "CheckActivate", "__checkActivate", "ComplexAlign", "doubleAlign", "newAlign")


def target(f, ln):
    """what the allocation at this line is assigned to"""
    if f is None:
        return None
    for src in [f.get("body")] + [i.get("e") for i in f.get("inits") or []]:
        for n in walk(src or {}):
            if n.get("k") == "asg" and n.get("op") == "=" and n.get("ln") == ln:
                l = strip(n["l"])
                from .pp import pe
                return pe(l)
            if n.get("k") == "decl":
                for d in n["d"]:
                    if d.get("init") and any(x.get("ln") == ln for x in walk(d["init"])):
                        return d["n"]
    return None


def _class(prog, E, R, bo, c, idx, res):
    k = ctors(prog, c)[idx]
    O = ObjLife(prog, E, c)
    outs = O.construct(k)
    res["states"] += len(outs)
    ops = operations(prog, c, R)
    finals = []
    for s in outs:
        finals += O.destroy(s)
    for m in ops:
        mid = []
        for s in outs:
            for s2 in O.operate(m, s):
                mid.append(s2)
        mid = O.L.merge(mid) if mid else []
        for s in mid:
            finals += O.destroy(s)
        again = []
        for s in mid:
            again += O.operate(m, s)
        for s in (O.L.merge(again) if again else []):
            finals += O.destroy(s)
    res["paths"] = len(finals)
    res["calls"] = O.L.nfun
    res["ops"] = [m["name"] for m in ops]
    _leaks(O.L, finals, res, c)
    res["problems"] = list(O.L.problems.values())
    res["err"] += O.err


def _function(prog, E, fid, res):
    f = prog.funcs[fid]
    L = Life(prog, E)
    L.reset()
    L.owning = True
    s = L.start(f, St())
    this = ("ext", ("this",)) if f.get("cls") and not f.get("static") else None
    try:
        outs = L.run(f, s, this or ("ext", ("none",)), None)
    except Limit as e:
        res["err"].append((f["name"], f["ln"], str(e)))
        res["problems"] = list(L.problems.values())
        return
    fin = []
    for fl, v, s in outs:
        s = s.copy()
        if v is not None and v[0] == "p":
            L.escape(v, s)
        # reachable from what the caller keeps
        for k, x in list(s.mem.items()):
            if isinstance(x, tuple) and x and x[0] == "p" and (k[0] == "g" or isinstance(k[0], tuple) and k[0][0] in ("ext", "glob", "elem") or k[0] == this):
                L.escape(x, s)
        for x in s.env.values():
            pass
        fin.append(s)
    res["states"] = res["paths"] = len(fin)
    res["calls"] = L.nfun
    _leaks(L, fin, res, f["name"])
    res["problems"] = [q for q in L.problems.values() if q["rule"] != "free-foreign"]


def run(prog, E, procs=8, limit=None):
    cls, R = owners(prog)
    bo = baseonly(prog)
    used = ctorsused(prog)
    jobs = []
    for c in cls:
        if c.startswith(SKIP):
            continue
        if not holds(prog, c):
            continue
        for i, k in enumerate(ctors(prog, c)):
            if k["id"] in bo or unused(prog, c, k, used):
                continue
            jobs.append(("class", c, i))
    heavy = {"fftPad": 3, "fftPadCentered": 3, "fftPadReal": 3}
    jobs.sort(key=lambda j: -heavy.get(j[1].split("::")[-1], 0))
    fn = []
    for f in prog.defs():
        if not allocating(f) or f["kind"] in ("ctor", "dtor"):
            continue
        if f.get("cls") and not f.get("static"):
            continue
        if f["base"] in WRAP or f["base"] in ("deleteAlign", "free0", "posix_memalign0"):
            continue
        fn.append(("fun", f["id"], 0))
    _W["a"] = (prog, E, R, bo)
    with multiprocessing.get_context("fork").Pool(procs) as P:
        out = P.map(_work, jobs + fn, chunksize=1)
    return out, dict(classes=cls, skipped=[c for c in cls if c.startswith(SKIP)], baseonly=sorted(bo))
