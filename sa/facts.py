"""Branch facts of one abstract path: interval and parity knowledge about
canonical polynomials, null/boolean knowledge about opaque values.  A fact set
only has to notice contradictions between branch conditions that were written
in different places; what it cannot relate it leaves open."""
from .poly import P, Poly

INF = float("inf")
# named quantities the constructors guarantee to be positive
POSITIVE = {"L", "M", "C", "S", "m", "p", "q", "n", "A", "B", "threads", "D", "nx", "ny", "nz",
            "Lx", "Ly", "Lz", "T", "size", "maxthreads", "rows", "cols"}


# block sizes: products of the above
POSMETHOD = {"outputSize", "inputSize", "blocksize", "noutputs", "residueBlocks", "Dr", "inputLength", "nloops", "ninputs"}


class Facts:
    __slots__ = ("eq", "rng", "ne", "b", "ineq")

    def __init__(self):
        self.eq = {}      # atom -> int
        self.rng = {}     # key poly (no constant) -> (lo,hi)
        self.ne = {}      # key poly -> frozenset of excluded values
        self.b = {}       # opaque key -> bool

    def copy(self):
        f = Facts.__new__(Facts)
        f.eq, f.rng, f.ne, f.b = dict(self.eq), dict(self.rng), dict(self.ne), dict(self.b)
        return f

    # -- normal form -----------------------------------------------------
    def sub(self, p):
        if not self.eq:
            return p
        mp = {}
        for x in p.syms():
            y = self.subatom(x)
            if y is not None:
                mp[x] = y
        return p.subst(mp) if mp else p

    def subatom(self, x):
        """constant or rewritten atom, None when unchanged"""
        if x in self.eq:
            return P(self.eq[x])
        if isinstance(x, tuple) and x[0] in ("div", "cdiv") and len(x) == 3:
            a, b = self.sub(x[1]), self.sub(x[2])
            if a.isconst() and b.isconst() and b.cval() > 0:
                return P(a.cval() // b.cval() if x[0] == "div" else -(-a.cval() // b.cval()))
            if b.isconst() and b.cval() == 1:
                return a
            if a != x[1] or b != x[2]:
                y = (x[0], a, b)
                return P(self.eq[y]) if y in self.eq else Poly.sym(y)
        return None

    def sub1(self, p):
        s = p.syms()
        mp = {x: P(self.eq[x]) for x in s if x in self.eq}
        return p.subst(mp) if mp else p

    def norm(self, p):
        """p -> (key, const, sign) with p = sign*g*key + const handled by caller"""
        p = self.sub(p)
        c = p.cval()
        k = p - c
        return k, c

    def drange(self, k):
        """range known without facts"""
        lo, hi = -INF, INF
        t = k.t
        if all(c > 0 for c in t.values()):
            # nonnegative atoms
            ok = all(nonneg(s) for m in t for s, _ in m)
            if ok:
                lo = 0
                for m, c in t.items():
                    x = c
                    for s, e in m:
                        x *= (lowof(self, s)) ** e
                    lo += x
        elif len(t) <= 6 and any(c > 0 for c in t.values()):
            # shift every atom by its least value
            ss = {s for m in t for s, _ in m}
            if all(nonneg(s) for s in ss):
                lows = {s: lowof(self, s) for s in ss}
                if any(lows.values()):
                    sh = k.subst({s: Poly.sym(s) + P(v) for s, v in lows.items() if v})
                    if all(c > 0 for m, c in sh.t.items() if m):
                        lo = sh.cval()
        if len(t) == 2:
            # a - b*div(a,b): residue
            for m, c in t.items():
                if c < -1 and len(m) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "div" and m[0][1] == 1:
                    d = m[0][0]
                    if d[2].isconst() and d[2].cval() == -c and (k + P(-c) * Poly.sym(d)) == self.sub(d[1]) - self.sub(d[1]).cval() and self.sub(d[1]).cval() == 0:
                        lo, hi = 0, -c - 1
        if len(t) == 1:
            (m, c), = t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                s = m[0][0]
                if isinstance(s, tuple) and s[0] == "div" and s[2].isconst() and s[2].cval() > 0:
                    l, h = self.bounds(s[1])
                    dv = s[2].cval()
                    rk = self.sub1(s[1]) - P(dv) * Poly.sym(s)
                    r0 = rk.cval()
                    rr = self.rng.get(rk - r0)
                    if l > -INF and rr is not None and rr[1] < INF:
                        lo = max(lo, -((rr[1] + r0 - l) // dv))
                    if l > -INF:
                        lo = max(lo, l // s[2].cval())
                    if h < INF:
                        hi = min(hi, h // s[2].cval())
        return lo, hi

    def bounds(self, p):
        p = self.sub(p)
        if p.isconst():
            return p.cval(), p.cval()
        c = p.cval()
        k = p - c
        lo, hi = self.kbounds(k)
        return lo + c, hi + c

    def kbounds(self, k):
        lo, hi = self.drange(k)
        if k in self.rng:
            a, b = self.rng[k]
            lo, hi = max(lo, a), min(hi, b)
        n = -k
        if n in self.rng:
            a, b = self.rng[n]
            lo, hi = max(lo, -b), min(hi, -a)
        # single terms with coefficient
        if len(k.t) == 1:
            (m, c), = k.t.items()
            if c not in (1,) and m:
                l, h = self.kbounds(Poly({m: 1}))
                if c > 0:
                    lo, hi = max(lo, c * l if l > -INF else -INF), min(hi, c * h if h < INF else INF)
                else:
                    lo, hi = max(lo, c * h if h < INF else -INF), min(hi, c * l if l > -INF else INF)
        return lo, hi

    # -- queries and updates ----------------------------------------------
    def query(self, p, op):
        """is (p op 0) certain: True/False/None"""
        p = self.sub(p)
        if p.isconst():
            return cmpc(p.cval(), op)
        t = self.assume(p, op) is not None
        f = self.assume(p, NEG[op]) is not None
        if t and f:
            return None
        if t:
            return True
        return False

    def assume(self, p, op):
        """facts strengthened by (p op 0), or None when contradictory"""
        p = self.sub(p)
        if p.isconst():
            return self if cmpc(p.cval(), op) else None
        g = p.content()
        # sign-normalise: leading (first) monomial positive
        ks = sorted((m for m in p.t if m), key=repr)
        if p.t[ks[0]] < 0:
            p = -p
            op = FLIP[op]
        c = p.cval()
        k = p - c
        g = k.content()
        if g > 1:
            k = Poly({m: v // g for m, v in k.t.items()})
            # g*k + c op 0
            if op in ("==", "!="):
                if c % g:
                    return None if op == "==" else self
                v = -c // g
                return self.point(k, v, op)
            if op == "<":
                op, c = "<=", c + 1
            if op == ">":
                op, c = ">=", c - 1
            if op == "<=":      # k <= floor(-c/g)
                return self.interval(k, -INF, (-c) // g)
            return self.interval(k, -((c) // g) if c % g == 0 else -(c // g), INF)
        v = -c
        if op in ("==", "!="):
            return self.point(k, v, op)
        if op == "<":
            return self.interval(k, -INF, v - 1)
        if op == "<=":
            return self.interval(k, -INF, v)
        if op == ">":
            return self.interval(k, v + 1, INF)
        return self.interval(k, v, INF)

    def point(self, k, v, op):
        lo, hi = self.kbounds(k)
        if op == "==":
            if v < lo or v > hi or v in self.ne.get(k, ()):
                return None
            return self.interval(k, v, v)
        if lo == hi == v:
            return None
        f = self.copy()
        f.ne[k] = self.ne.get(k, frozenset()) | {v}
        return f.tighten(k)

    def interval(self, k, a, b):
        lo, hi = self.kbounds(k)
        lo2, hi2 = max(lo, a), min(hi, b)
        if lo2 > hi2:
            return None
        f = self.copy()
        f.rng[k] = (lo2, hi2)
        return f.tighten(k)

    def tighten(self, k):
        lo, hi = self.kbounds(k)
        ne = self.ne.get(k, ())
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return None
        self.rng[k] = (lo, hi)
        if lo == hi and len(k.t) == 1:
            (m, c), = k.t.items()
            if c == 1:
                if len(m) == 1 and m[0][1] == 1:
                    return self.seteq(m[0][0], lo)
                if lo == 1 and all(nonneg(s) for s, _ in m):
                    f = self
                    for s, _ in m:
                        f = f.seteq(s, 1)
                        if f is None:
                            return None
                    return f
        f = self.residues(k)
        return f.diffs(k) if f is not None else None

    def residues(self, k):
        """combine a small range of x with what is known about x mod c"""
        ks = set(k.syms())
        for d in [s for r in self.rng for s in r.syms() if isinstance(s, tuple) and s[0] == "div" and s[2].isconst()]:
            if d in ks or ks & set(d[1].syms()):
                x, c = d[1], d[2].cval()
                if c < 2 or c > 8:
                    continue
                lo, hi = self.bounds(x)
                if hi - lo > 8 or lo < 0 or lo == hi:
                    continue
                rl, rh = self.bounds(x - P(c) * Poly.sym(d))
                ok = [v for v in range(lo, hi + 1) if rl <= v % c <= rh]
                if not ok:
                    return None
                if ok[0] > lo or ok[-1] < hi:
                    y = self.sub(x)
                    c0 = y.cval()
                    y = y - c0
                    f = self.copy()
                    f.rng[y] = (ok[0] - c0, ok[-1] - c0)
                    return f.tighten(y)
        return self

    def seteq(self, s, v):
        l, h = self.kbounds(Poly.sym(s))
        if v < l or v > h or v in self.ne.get(Poly.sym(s), ()):
            return None
        self.eq[s] = v
        # a quotient fixes a range of its operand
        if isinstance(s, tuple) and s[0] == "div" and s[2].isconst():
            d = s[2].cval()
            f = self.assume(s[1] - v * d, ">=")
            f = f and f.assume(s[1] - (v * d + d - 1), "<=")
            if f is None:
                return None
            self = f
        # re-examine everything that mentions s
        for tab in (list(self.rng.items()),):
            for k, (a, b) in tab:
                k2 = self.sub(k)
                if k2 != k:
                    if k2.isconst():
                        if not (a <= k2.cval() <= b):
                            return None
                    elif k2 != k:
                        f = self
                        if a > -INF:
                            f = f.assume(k2 - a, ">=")
                        if f is not None and b < INF:
                            f = f.assume(k2 - b, "<=")
                        if f is None:
                            return None
                        self = f
        for k, vs in list(self.ne.items()):
            k2 = self.sub(k)
            if k2 == k:
                continue
            if k2.isconst():
                if k2.cval() in vs:
                    return None
                continue
            f = self
            for v in vs:
                f = f.assume(k2 - v, "!=")
                if f is None:
                    return None
            self = f
        return self

    def diffs(self, k):
        """difference-bound closure over two-atom facts (Bellman-Ford)"""
        if not any(len(x.t) == 2 for x in self.rng):
            return self
        edges, nodes = [], set()
        for x, (lo, hi) in self.rng.items():
            x = self.sub(x)
            c0 = x.cval()
            x = x - c0
            lo, hi = lo - c0, hi - c0
            t = list(x.t.items())
            if len(t) == 1 and abs(t[0][1]) == 1:
                a, b = (t[0][0], "0") if t[0][1] == 1 else ("0", t[0][0])
            elif len(t) == 2 and {t[0][1], t[1][1]} == {1, -1}:
                a = t[0][0] if t[0][1] == 1 else t[1][0]
                b = t[0][0] if t[0][1] == -1 else t[1][0]
            else:
                continue
            nodes |= {a, b}
            if hi < INF:
                edges.append((b, a, hi))     # a <= b + hi
            if lo > -INF:
                edges.append((a, b, -lo))    # b <= a - lo
        for n in nodes:
            if n != "0":
                lo, hi = self.kbounds(Poly({n: 1}))
                if lo > -INF:
                    edges.append((n, "0", -lo))
                if hi < INF:
                    edges.append(("0", n, hi))
        nodes.add("0")
        d = {n: 0 for n in nodes}
        for i in range(len(nodes) + 1):
            ch = False
            for u, v, w in edges:
                if d[u] + w < d[v]:
                    d[v] = d[u] + w
                    ch = True
            if not ch:
                return self
        return None

    def key(self):
        return (frozenset(self.eq.items()), frozenset(self.rng.items()),
                frozenset(self.ne.items()), frozenset(self.b.items()))

    def meet(self, o):
        """facts holding on both paths (join of the abstract states)"""
        f = Facts()
        f.eq = {k: v for k, v in self.eq.items() if o.eq.get(k) == v}
        for k, (a, b) in list(self.rng.items()):
            l, h = o.bounds(k)
            lo, hi = min(a, l), max(b, h)
            if lo > -INF or hi < INF:
                f.rng[k] = (lo, hi)
        for k, (a, b) in list(o.rng.items()):
            if k in f.rng:
                continue
            l, h = self.bounds(k)
            lo, hi = min(a, l), max(b, h)
            if lo > -INF or hi < INF:
                f.rng[k] = (lo, hi)
        for x, y in ((self, o), (o, self)):
            for k, v in x.eq.items():
                if k in f.eq:
                    continue
                pk = Poly.sym(k)
                if pk in f.rng:
                    continue
                l, h = y.bounds(pk)
                lo, hi = min(v, l), max(v, h)
                if lo > -INF and lo > lowof(None, k) or hi < INF:
                    f.rng[pk] = (lo, hi)
        for k, v in self.ne.items():
            w = v & o.ne.get(k, frozenset())
            if w:
                f.ne[k] = w
        f.b = {k: v for k, v in self.b.items() if o.b.get(k) == v}
        return f


def nonneg(s):
    return not (isinstance(s, tuple) and s[0] in ("s",))


def lowof(F, s):
    """least value of an atom known without facts"""
    if F is not None:
        r = F.rng.get(Poly.sym(s))
        if r is not None and r[0] > 0:
            return r[0]
        if s in F.eq:
            return F.eq[s]
    if isinstance(s, tuple):
        if s[0] == "q" and isinstance(s[1], tuple) and s[1][0] in ("max", "min") and F is not None:
            x, y = F.bounds(s[1][1])[0], F.bounds(s[1][2])[0]
            return max(0, max(x, y) if s[1][0] == "max" else min(x, y))
        if s[0] == "q" and isinstance(s[1], tuple) and s[1][0] in ("u", "call") and isinstance(s[1][1], str) and \
                s[1][1].split("(")[0].split("::")[-1] in POSMETHOD:
            return 1
        if s[0] == "f" and s[2] in POSITIVE:
            return 1
        if s[0] == "a" and s[1] in POSITIVE:
            return 1
        if s[0] == "cdiv":
            return 1
    return 0


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
FLIP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def cmpc(c, op):
    return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
