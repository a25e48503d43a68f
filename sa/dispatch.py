"""The states in which the constructors of the padding classes can leave an
object: which forward/backward/pad routine is installed, together with the
branch facts (from the path-sensitive engine)."""
import multiprocessing, os, sys
from .life import Life, Limit
from .objlife import ObjLife, ctors
from .owner import baseonly, unused, ctorsused
from .repo import walk, strip
from .poly import P

_W = {}
THIS = ("this",)


class D:
    """one constructed state"""
    __slots__ = ("cls", "ctor", "fwd", "bwd", "pad", "overwrite", "single", "inplace", "unset", "path", "short", "allowed")


def fnof(v):
    return v[1] if v and v[0] == "f" else None


def _states(job):
    prog, E = _W["a"]
    c, i, case = job
    O = ObjLife(prog, E, c)
    k = ctors(prog, c)[i]
    outs = O.construct(k, (lambda L, f, s: assume(case, f, s)) if case else None)
    res = []
    L = O.L
    for s in outs:
        d = D()
        d.cls, d.ctor = c, k["id"]
        g = lambda n: s.mem.get((THIS, n))
        d.fwd, d.bwd, d.pad = fnof(g("Forward")), fnof(g("Backward")), fnof(g("Pad"))
        o = g("overwrite")
        d.overwrite = None if o is None else tr(L, o, s)
        d.allowed = asked(o[1]) if o is not None and o[0] == "b" else None
        d.single = one(s, g("S"))
        L_, m_ = g("L"), g("m")
        d.short = None
        if L_ and m_ and L_[0] == m_[0] == "i":
            d.short = s.F.query(s.F.sub(m_[1]) - s.F.sub(L_[1]) - P(1), ">=")
        if case:
            d.short = {"short": True, "full": False}.get(case, d.short)
        d.inplace = tr(L, g("inplace"), s) if g("inplace") else None
        d.unset = tuple(n for n in ("Forward", "Backward", "Pad", "overwrite") if g(n) is None or g(n)[0] == "ui")
        from .life import trace
        d.path = trace(s, 8)
        res.append(d)
    return job, res, O.err


def tr(L, v, s):
    try:
        c = L.truth(v, s)
    except Exception:
        return None
    if c in (True, False):
        return c
    t = L.branch(c, s) if isinstance(c, tuple) else None
    if t is not None:
        live = {x[1] for x in t}
        if len(live) == 1:
            return live.pop()
    return None


def assume(case, f, s):
    """case split on the constructor's arguments"""
    v = {q["n"]: q["id"] for q in f["params"]}
    s.env[v["inplace"]] = ("b", case == "in")
    if case != "in":
        x = s.env[v["m"]][1] - s.env[v["L"]][1]
        F = s.F.assume(x - P(1), ">=") if case == "short" else s.F.assume(x, "<=")
        if F is None:
            return False
        s.F = F
    return True


def asked(c):
    """does the overwrite condition include the application's permission"""
    if c is True or c is False:
        return None
    if c[0] == "and":
        r = [asked(x) for x in c[1:]]
        return True if True in r else None if None in r else False
    if c[0] == "or":
        r = [asked(x) for x in c[1:]]
        return False if False in r else None if None in r else True
    if c[0] == "atom":
        return "overwrite" in str(c)
    if c[0] == "cmp":
        return "overwrite" in str(c)
    return None


def resolve(prog, fid, cls):
    if fid is None:
        return None
    g = prog.override_in(fid, cls)
    return g["id"] if g else None


def one(s, v):
    if v is None or v[0] != "i":
        return None
    return s.F.query(s.F.sub(v[1]) - P(1), "==")


def jobs(prog):
    bo, used = baseonly(prog), ctorsused(prog)
    out = []
    for c in sorted(prog.derived("fftwpp::fftBase")):
        for i, k in enumerate(ctors(prog, c)):
            if k["id"] in bo or (prog.classes.get(c) or {}).get("abstract") or unused(prog, c, k, used):
                continue
            if {"inplace", "m", "L"} <= {q["n"] for q in k["params"]}:
                out += [(c, i, "in"), (c, i, "short"), (c, i, "full")]
            else:
                out.append((c, i, None))
    return out


def states(prog, E):
    _W["a"] = (prog, E)
    js = jobs(prog)
    with multiprocessing.get_context("fork").Pool(min(len(js), os.cpu_count() or 8)) as pool:
        return pool.map(_states, js, chunksize=1)
