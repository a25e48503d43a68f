"""C04: every padding object dispatches to one coherent set of routines."""
from ..common import load, effects
from ..repo import walk, strip
from .. import dispatch

EXPLANATION = """Path-sensitive abstract construction (symbolic values) of every padding class (every constructor, every
feasible branch through parameters(), valid(), common(), init()): each final state carries the
routines installed in Forward, Backward and Pad with the branch facts that led there.  Every state is
checked against the coherence rules."""
RULE = """violation: a constructor path can finish with Forward, Backward, Pad or overwrite unset; the
installed forward and backward routines are not each other's inverse; an installed routine resolves,
in the object's class, to one that does nothing; a routine that ignores the stride is installed on a
path where the stride is not known to be one although a strided variant exists; no padding routine
is installed on a path where other constructions with the same forward routine need one."""
ASSUMPTIONS = ["forwardX and backwardX are inverse routines (naming of the fftBase interface)"]
TECHNIQUE = "path-sensitive abstract interpretation of constructors (typestate of the dispatch table) over the AST"
NOTE = "Paths are enumerated from the source with linear facts; infeasible paths are pruned only when the facts refute them."
STRIDE = {"S", "C", "Sm", "Cm"}


def reads(p, fid, cls, memo):
    """fields of *this a routine reads, following calls on the same object"""
    key = (fid, cls)
    if key in memo:
        return memo[key]
    memo[key] = out = set()
    f = p.funcs.get(fid)
    if not f or not f.get("body"):
        return out
    for n in walk(f["body"]):
        if n.get("k") in ("fld", "mem", "member") and n.get("n"):
            out.add(n["n"])
        elif n.get("k") == "call" and n.get("fn") in p.funcs:
            g = p.funcs[n["fn"]]
            if g.get("cls") in p.bases(cls):
                t = dispatch.resolve(p, n["fn"], cls) if n.get("virt") else n["fn"]
                out |= reads(p, t, cls, memo)
    return out


def empty(p, fid):
    f = p.funcs.get(fid)
    b = f and f.get("body")
    return f is not None and f["isdef"] and not (b and [n for n in walk(b) if n.get("k") in ("call", "asg", "mpcall", "inc", "for", "omp", "ret", "decl", "if")])


def run(rep, tier):
    p = load()
    E = effects(p)
    memo = {}
    S = dispatch.states(p, E)
    padded = set()
    for (c, i, case), states, err in S:
        for d in states:
            if nm(p, d.pad) not in (None, "padNone"):
                padded.add((c, nm(p, d.fwd)))
    pairs = {}
    for (c, i, case), states, err in S:
        rep.count("constructor_cases")
        for e in err:
            rep.undecided.append("%s ctor %d: %s" % (c, i, e))
        k = None
        for d in states:
            rep.count("states")
            k = p.funcs[d.ctor]
            where = (k["file"], k["ln"])
            for n in d.unset:
                rep.bad("unset:%s:%s" % (c, n), *where, "a %s can be constructed with %s never set; path %s" % (c, n, d.path))
            if d.fwd is None or d.bwd is None:
                rep.undecided.append("%s: routine not tracked" % c)
                continue
            for t in (d.fwd, d.bwd, d.pad):
                if t is None:
                    continue
                r = dispatch.resolve(p, t, c)
                if empty(p, r) and not nm(p, r) == "padNone":
                    rep.bad("empty:%s:%s" % (c, nm(p, t)), *where,
                            "a %s can be constructed with routine %s, which the class does not implement (it does nothing); path %s" % (c, nm(p, t), d.path))
            a, b = nm(p, d.fwd), nm(p, d.bwd)
            if a.startswith("forward") and b.startswith("backward"):
                if a[7:] != b[8:]:
                    rep.bad("mates:%s:%s:%s" % (c, a, b), *where,
                            "a %s can be constructed with forward routine %s but backward routine %s; path %s" % (c, a, b, d.path))
            else:
                rep.bad("mates:%s:%s:%s" % (c, a, b), *where,
                        "a %s can be constructed with %s installed as forward and %s as backward routine; path %s" % (c, a, b, d.path))
            pairs.setdefault(c, set()).add((a, b))
            for t in (d.fwd, d.bwd):
                r = dispatch.resolve(p, t, c)
                if reads(p, r, c, memo) & STRIDE or d.single is True:
                    continue
                # is there a strided variant to choose instead?
                n = nm(p, t)
                if any(x.startswith(n[:7]) and x != n and x.replace("Many", "") == n for x in impl(p, c)):
                    rep.bad("stride:%s:%s" % (c, n), *where,
                            "a %s can be constructed with routine %s, which ignores the stride, while the stride is %s one; path %s" %
                            (c, n, "not" if d.single is False else "not known to be", d.path))
            if (c, a) in padded and nm(p, d.pad) == "padNone" and d.inplace is False and d.short is not False:
                rep.bad("pad:%s:%s" % (c, a), *where,
                        "an out-of-place %s with forward routine %s can be constructed without the routine that pads its work array; path %s" % (c, a, d.path))
    rep.coverage["routine_pairs"] = sum(len(x) for x in pairs.values())
    rep.need("constructor_cases", 6)
    rep.need("states", 200)
    rep.need("routine_pairs", 20)


_impl = {}


def impl(p, c):
    """routines implemented (non-empty) for class c"""
    if c in _impl:
        return _impl[c]
    out = _impl[c] = set()
    for b in p.bases(c):
        for f in p.defs():
            if f.get("cls") == b and f["kind"] == "method" and not empty(p, f["id"]):
                out.add(f["base"])
    return out


def nm(p, t):
    return p.funcs[t]["base"] if t in p.funcs else None
