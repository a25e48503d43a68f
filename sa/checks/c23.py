"""C23: the multiplication routines compute the documented product of every element, once."""
from ..common import load
from ..algebra import Interp, R, Undecided, toR, P, Poly
from .c20 import same, show, cmul
from fractions import Fraction
from ..wrapctor import Unknown, ev_r, ev_cond

EXPLANATION = """Value numbering of multNone, multBinary, realMultBinary and multcorrelation: the bodies are
evaluated symbolically, loops once for a generic index with its range, on every branch (parallel and
serial); the stores are compared with the documented product."""
RULE = """violation: on some branch a routine stores anything other than the documented product of F[0][j]
and F[1][j] into F[0][j]; the stores, instantiated from the extracted loop bounds, miss or repeat an
element of 0, ..., n-1 or go outside; or another array is changed."""
ASSUMPTIONS = ["F[0] and F[1] do not overlap", "real arithmetic"]
TECHNIQUE = "value numbering with generic loop indices"
NOTE = "Holds for every n and thread count; loop bodies are evaluated for a generic index."

cj = lambda z: (z[0], -z[1])
SPEC = {"multBinary": (2, cmul), "multcorrelation": (2, lambda x, y: cmul(x, cj(y))),
        "realMultBinary": (1, lambda x, y: x * y), "multNone": (0, None)}


def run(rep, tier):
    p = load(["convolve"])
    for f in p.defs():
        if f["base"] not in SPEC or f.get("cls") or not f["params"] or f["params"][0]["t"] != "Complex **":
            continue
        rep.count("routines")
        try:
            one(p, rep, f)
        except (Undecided, ZeroDivisionError) as e:
            rep.undecided.append("%s: %s" % (f["id"], e))
    rep.need("routines", 3)


def one(p, rep, f):
    w, spec = SPEC[f["base"]]
    I = Interp(p)
    I.preset = {}
    n = R(Poly.sym(("n",)))
    args = [("ptr", ("F",), P(0)), n, ("ptr", ("indices",), P(0)), R(Poly.sym(("threads",)))]
    groups = {}
    for v, m in I.run(f, args[:len(f["params"])]):
        rep.count("paths")
        mine = [s for s in m.stores if not (isinstance(s[0], tuple) and s[0][0] == "tmp")]
        rep.count("stores", len(mine))
        ln = mine[0][4] if mine and mine[0][4] else f["ln"]
        if not w:
            if mine:
                rep.bad("value:" + f["base"], f["file"], ln, "%s writes" % f["base"])
            continue
        why, fam = None, []
        B0, B1 = ("at", ("F",), P(0)), ("at", ("F",), P(1))
        cells = {}
        for base, off, val, loops, l in mine:
            if base != B0:
                why = "writes an array other than F[0]"
                break
            cells.setdefault(loops, {})[off] = val
        for loops, st in (cells.items() if not why else ()):
            for o in st:
                if w == 2:
                    if o + P(1) not in st:
                        if o - P(1) not in st:
                            why = "stores half of an element"
                        continue
                    if any(c % 2 for c in o.t.values()):
                        continue
                g = lambda b, i: R(Poly.sym(("m", b, (o + P(i)))))
                if w == 1:
                    ok = same(spec(g(B0, 0), g(B1, 0)), st[o])
                else:
                    ok = same(spec((g(B0, 0), g(B0, 1)), (g(B1, 0), g(B1, 1))), (st[o], st[o + P(1)]))
                if not ok:
                    why = "stores something other than the documented product"
                fam.append((loops, R(o) / R(P(w))))
        if why:
            rep.bad("value:" + f["base"], f["file"], ln, "%s %s" % (f["base"], why))
            return
        # conditions inside a loop select per iteration: paths that differ only there are one program path
        inner = [(c, b) for c, b in m.conds if any(x[0] == "loop" for x in deep(c))]
        outer = [(c, b) for c, b in m.conds if (c, b) not in inner]
        groups.setdefault(repr(outer), (outer, ln, []))[2].append((inner, fam))
    for outer, ln, parts in groups.values():
        why = cover(parts, outer, rep)
        if why:
            rep.bad("value:" + f["base"], f["file"], ln, "%s %s" % (f["base"], why))


def deep(c):
    """symbols a condition depends on"""
    out = set()

    def go(x):
        if isinstance(x, tuple) and x and x[0] == "loop" and len(x) == 3:
            out.add(x)
        elif isinstance(x, (tuple, frozenset, list)):
            for y in x:
                go(y)
        elif isinstance(x, Poly):
            for m in x.t:
                go(m)
    go(c)
    return out


def cover(parts, conds, rep):
    """do the extracted stores cover 0..n-1 exactly once?  The loop descriptors are instantiated for
    small n and thread counts; conditions on unknown quantities are taken as possible."""
    known = unknown = 0
    for n in range(0, 18):
        for t in (1, 2, 3, 4):
            env = {("n",): Fraction(n), ("threads",): Fraction(t)}
            if not holds(conds, env, True):
                continue
            seen, done = {}, set()
            try:
                for guards, fam in parts:
                    nth = {}
                    for loops, e in fam:
                        names = tuple(sym1(l[0]) for l in loops)
                        k = nth[names] = nth.get(names, 0) + 1
                        for en in iterate(loops, env):
                            key = (names, k, tuple(en[x] for x in names))
                            if key in done or not holds([g for g in guards if all(x in en for x in deep(g[0]))], en, False):
                                continue
                            done.add(key)
                            x = ev_r(e, en)
                            seen[x] = seen.get(x, 0) + 1
            except Unknown:
                unknown += 1
                continue
            known += 1
            rep.count("instances")
            for j in range(n):
                if seen.get(j, 0) != 1:
                    return "stores element %d of %d %s (threads=%d)" % (j, n, "more than once" if j in seen else "never", t)
            for x in seen:
                if not (x.denominator == 1 and 0 <= x < n):
                    return "stores outside 0, ..., n-1 (element %s for n=%d, threads=%d)" % (x, n, t)
    if unknown > known:
        raise Undecided("loop bounds")
    return None


def holds(conds, env, lenient):
    for c, b in conds:
        try:
            if ev_cond(c, env) != b:
                return False
        except Unknown:
            if not lenient:
                raise
    return True


def sym1(v):
    return [s for m in v.n.t for s, e in m][0]


def iterate(loops, env):
    if not loops:
        yield env
        return
    (v, lo, hi, step), rest = loops[0], loops[1:]
    a, b, d = ev_r(lo, env), ev_r(hi, env), ev_r(step, env)
    if d == 0:
        raise Unknown
    sym = sym1(v)
    k = 0
    while (a < b if d > 0 else a > b) and k < 1000:
        yield from iterate(rest, {**env, sym: a})
        a += d
        k += 1
