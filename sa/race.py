"""C01: independence of the iterations of every parallel loop.

For each region collected by access.Analyzer and each pair (write, access) the
two iterations are renamed apart (n' = n+1+k, and distinct thread numbers) and
the byte intervals are shown disjoint by the sign of the polynomial distance.
An unproved pair is reported only with a concrete small assignment of the
loop bounds and sizes, satisfying every recorded fact, under which the two
iterations touch the same byte."""
import random
from .poly import Poly, P, prove_ge, Facts
from .access import SIGNED, rname


def symset(root):
    out = set()
    if isinstance(root, tuple):
        for x in root:
            if isinstance(x, Poly):
                for s in x.syms():
                    out.add(s)
                    out |= symset(s)
            elif isinstance(x, tuple):
                out |= symset(x)
    return out


def polysyms(p):
    out = set()
    for s in p.syms():
        out.add(s)
        out |= symset(s)
    return out


class Renamer:
    def __init__(self, A, R, mp):
        self.A, self.R, self.mp = A, R, mp
        self.c = {}

    def sym(self, s):
        """renamed symbol as Poly"""
        if s in self.c:
            return self.c[s]
        if s in self.mp:
            r = self.mp[s]
        else:
            u = self.A.symuid.get(s, 0)
            if u > self.R.uid0 and (self.R.uid1 is None or u <= self.R.uid1):
                r = Poly.sym((s[0], ("'", s), s[2]))
                self.c[s] = r
                b = self.A.bounds.get(s)
                if b is not None:
                    nn = (s[0], ("'", s), s[2])
                    self.A.bounds[nn] = ([self.poly(x) for x in b[0]], [self.poly(x) for x in b[1]])
            elif isinstance(s[1], tuple):
                t = self.tup(s[1])
                r = Poly.sym(s if t == s[1] else (s[0], t, s[2]))
                if t != s[1] and s in self.A.bounds:
                    b = self.A.bounds[s]
                    self.A.bounds.setdefault((s[0], t, s[2]), ([self.poly(x) for x in b[0]], [self.poly(x) for x in b[1]]))
            else:
                r = Poly.sym(s)
        self.c[s] = r
        return r

    def poly(self, p):
        mp = {}
        for s in p.syms():
            q = self.sym(s)
            if q != Poly.sym(s):
                mp[s] = q
        return p.subst(mp) if mp else p

    def tup(self, t):
        return tuple(self.poly(x) if isinstance(x, Poly) else (self.tup(x) if isinstance(x, tuple) and not issym(x) else
                     (x if not issym(x) else x)) for x in t)

    def root(self, r):
        return self.tup(r)


def issym(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] in ("v", "s") and isinstance(x[2], int)


def rbase(r):
    while r[0] in ("sub", "ld"):
        r = r[1]
    return r


def private(A, R, root):
    """storage created inside the iteration"""
    r = rbase(root)
    if r[0] in ("local", "new", "unk") and isinstance(r[2], int) and r[2] > R.uid0 and (R.uid1 is None or r[2] <= R.uid1):
        return True
    if r[0] == "tmp" and r[1] > R.uid0:
        return True
    if r[0] == "local" and r[1] in R.privates:
        return True
    if r[0] == "var" and r[1] in R.privates:
        return True
    return False


class Pair:
    def __init__(self, A, R, w, a, verdict, why=None):
        self.A, self.R, self.w, self.a, self.verdict, self.why = A, R, w, a, verdict, why


class RaceCheck:
    def __init__(self, A, axioms=()):
        self.A = A
        self.axioms = axioms
        self.rng = random.Random(12345)
        self.npairs = 0
        self.filter = None

    def facts(self, R, ge):
        F = Facts()
        F.signed = SIGNED
        F.lo = {s: b[0] for s, b in self.A.bounds.items() if b[0]}
        F.hi = {s: b[1] for s, b in self.A.bounds.items() if b[1]}
        F.ge = [g for g in ge]
        return F

    def relroots(self, r1, r2, F):
        """'same' | 'diff' | 'maybe'"""
        if r1 == r2:
            return "same"
        if r1[0] != r2[0]:
            # different kinds of storage: parameters, fields, fresh blocks
            return "diff"
        if r1[0] == "ld":
            x = self.relroots(r1[1], r2[1], F)
            if x == "diff":
                return "diff"
            d = r2[2] - r1[2]
            if d.isconst():
                return x if d.cval() == 0 else "diff"
            if prove_ge(d - 1, F) or prove_ge(-d - 1, F):
                return "diff"
            return "maybe"
        if r1[0] == "sub":
            if r1[3] != r2[3]:
                return "diff"
            x = self.relroots(r1[1], r2[1], F)
            if x == "diff":
                return "diff"
            d = r2[2] - r1[2]
            if d.isconst():
                return x if d.cval() == 0 else "diff"
            if prove_ge(d - 1, F) or prove_ge(-d - 1, F):
                return "diff"
            return "maybe"
        if r1[0] == "unk":
            return "maybe" if r1[:2] == r2[:2] else "diff"
        return "diff"

    def region(self, R):
        acc = list(R.acc.values())
        acc = [a for a in acc if not private(self.A, R, a.root)]
        # collapse accesses that differ only in path facts already implied
        W = [a for a in acc if a.kind == "W"]
        out = []
        seen = set()
        for i, w in enumerate(W):
            for a in acc:
                if a.kind == "W" and (id(a), id(w)) in seen:
                    continue
                seen.add((id(w), id(a)))
                if w.prot and a.prot:
                    continue
                if quickdiff(w.root, a.root):
                    continue
                self.npairs += 1
                v, why = self.pair(R, w, a)
                if v != "ok":
                    out.append(Pair(self.A, R, w, a, v, why))
        return out

    def pair(self, R, w, a):
        A = self.A
        usestid = R.tid is not None and any(R.tid in polysyms(x.off) or R.tid in symset(x.root) for x in (w, a))
        counters = [c for c in R.counters if c is not None]
        cases = []
        ctr = counters[0] if counters else None
        k = ("v", "k+", 0)
        kt = ("v", "kt+", 0)
        orders = (1, -1)
        verdict = "ok"
        why = None
        for o in orders:
            for ot in ((1, -1) if usestid else (0,)):
                if ctr is None and o < 0 and not usestid:
                    continue
                mp2 = {}      # substitution for a's (primed) iteration
                mp1 = {}      # substitution for w's iteration
                if ctr is not None:
                    if o > 0:
                        mp2[ctr] = Poly.sym(ctr) + 1 + Poly.sym(k)
                    else:
                        c2 = (ctr[0], ("'", ctr), ctr[2])
                        mp2[ctr] = Poly.sym(c2)
                        mp1[ctr] = Poly.sym(c2) + 1 + Poly.sym(k)
                if ot > 0:
                    mp2[R.tid] = Poly.sym(R.tid) + 1 + Poly.sym(kt)
                elif ot < 0:
                    t2 = (R.tid[0], ("'", R.tid), R.tid[2])
                    mp2[R.tid] = Poly.sym(t2)
                    mp1[R.tid] = Poly.sym(t2) + 1 + Poly.sym(kt)
                v, y = self.case(R, w, a, mp1, mp2, ctr, k)
                if v == "race":
                    return v, y
                if v == "unknown":
                    verdict, why = v, y
        return verdict, why

    def case(self, R, w, a, mp1, mp2, ctr, k):
        A = self.A
        ren = Renamer(A, R, mp2)
        aroot = ren.root(a.root)
        aoff = ren.poly(a.off)
        ge = [x.subst(mp1) for x in w.facts] + [ren.poly(x) for x in a.facts]
        # bound of the later counter
        if ctr is not None:
            b = A.bounds.get(ctr)
            for h in (b[1] if b else ()):
                ge.append(h - (mp1[ctr] if ctr in mp1 else mp2[ctr]))
        def r1(root):
            return tuple(x.subst(mp1) if isinstance(x, Poly) else (r1(x) if isinstance(x, tuple) and not issym(x) else x) for x in root)
        wroot = r1(w.root) if mp1 else w.root
        woff = w.off.subst(mp1) if mp1 else w.off
        ge += self.axioms_for(R, [woff, aoff] + ge, wroot, aroot)
        pos = self.positive([woff, aoff])
        F = self.facts(R, ge)
        for s in pos:
            F.lo[s] = F.lo.get(s, []) + [P(1)]
        rel = self.relroots(wroot, aroot, F)
        if rel == "diff":
            return "ok", None
        D = aoff - woff
        ws, as_ = w.size, a.size
        if ws is None or as_ is None:
            return self.extent(R, w, a, D, F, rel, ctr)
        if D.isconst():
            if D.cval() >= ws or -D.cval() >= as_:
                return "ok", None
            if rel == "same":
                return "race", {"D": repr(D), "always": True}
        if self.disjoint(D, ws, as_, F):
            return "ok", None
        if rel == "maybe":
            return "unknown", {"D": repr(D), "root": rname(w.root)}
        wit = self.witness(D, ws, as_, F, ge, pos)
        if wit is not None:
            return "race", {"D": repr(D), "witness": wit}
        return "unknown", {"D": repr(D)}

    def disjoint(self, D, ws, as_, F):
        g = D.t
        if prove_ge(D - ws, F) or prove_ge(-D - as_, F):
            return True
        # case split on an integer coefficient: D = s*N + rest
        for s in D.syms():
            if D.degree(s) != 1:
                continue
            N = D.coeff(s)
            if N.isconst():
                continue
            c = 0
            for x in N.t.values():
                c = gcd(c, abs(x))
            if c == 0:
                continue
            N = Poly({m: x // c for m, x in N.t.items()})
            if len(N.t) < 2:
                continue
            rest = D.coeff(s, 0)
            z = ("s", ("split", N), 0)
            Z = Poly.sym(z)
            D2 = rest + Z * Poly.sym(s) * c
            F1 = F_with(F, [])
            F1.lo[z] = [P(0)]
            F2 = F_with(F, [])
            F2.hi[z] = [P(-1)]
            a = prove_ge(D2 - ws, nonneg(F1, z)) or prove_ge(-D2 - as_, nonneg(F1, z))
            if not a:
                continue
            # z <= -1 : z = -1 - y
            y = ("v", ("splity", N), 0)
            D3 = D2.subst({z: P(-1) - Poly.sym(y)})
            if prove_ge(D3 - ws, F) or prove_ge(-D3 - as_, F):
                return True
        return False

    def extent(self, R, w, a, D, F, rel, ctr):
        """one side has an unknown extent (effect of a call)"""
        if rel == "maybe":
            return "unknown", {"extent": True, "root": rname(w.root)}
        if not D.isconst():
            if prove_ge(D - 1, F) or prove_ge(-D - 1, F):
                return "ok", None
            return "unknown", {"extent": True, "D": repr(D)}
        # same base address in both iterations: disjointness has to come from
        # an integer argument that changes with the iteration
        for x in (w, a):
            if x.varying is not None:
                for v in x.varying:
                    if ctr is not None and ctr in polysyms(v):
                        return "ok", None
                    if R.tid is not None and R.tid in polysyms(v):
                        return "ok", None
        return "race", {"always": True, "extent": True}

    def axioms_for(self, R, polys, *roots):
        out = []
        syms = set()
        for p in polys:
            syms |= polysyms(p)
        for r in roots:
            syms |= symset(r)
        for s in list(syms):
            if s in self.A.divs:
                out += self.A.divs[s]
        for ax in self.axioms:
            out += ax(R, syms)
        return out

    def positive(self, polys):
        """extents and strides: free unsigned symbols multiplying something"""
        out = set()
        for p in polys:
            for m in p.t:
                if len(m) < 2 and not (m and m[0][1] > 1):
                    continue
                for s, _ in m:
                    if s[0] == "v" and s in self.A.free and not self.A.bounds.get(s, ((), ()))[1]:
                        out.add(s)
        return out

    def witness(self, D, ws, as_, F, ge, pos=()):
        A = self.A
        syms = set(D.syms())
        todo = list(syms)
        rel = [g for g in ge]
        for g in rel:
            syms |= g.syms()
        # free symbols only
        closure = set()

        def add(s):
            if s in closure:
                return True
            if isinstance(s[1], tuple):
                op = s[1][0]
                if op in ("%", "/", "min", "max"):
                    closure.add(s)
                    return all(add(x) for p in s[1][1:] for x in p.syms())
                if op in ("fld",):
                    closure.add(s)
                    return True
                if op == "'":
                    b = s[1][1]
                    if isinstance(b[1], str) and b[1].startswith("n:"):
                        closure.add(s)
                        return all(add(x) for p in bl(s) for x in p.syms())
                    if isinstance(b[1], str) and b[1].startswith("tid"):
                        closure.add(s)
                        return True
                    return False
                return False
            if s in A.free or s[1] in ("k+", "kt+") or s[1] == "tid":
                closure.add(s)
                return True
            if isinstance(s[1], str) and s[1].startswith("n:"):
                closure.add(s)
                return all(add(x) for p in bl(s) for x in p.syms())
            return False

        def bl(s):
            b = A.bounds.get(s, ([], []))
            return b[0] + b[1]
        if not all(add(s) for s in D.syms()):
            return None
        use = []
        for g in rel:
            if all(add(s) for s in g.syms()):
                use.append(g)
            else:
                return None
        for _ in range(4):
            for s in list(closure):
                for p in bl(s):
                    for x in p.syms():
                        if not add(x):
                            return None
        order = sorted(closure, key=repr)
        plain = [s for s in order if not (isinstance(s[1], tuple) and s[1][0] in ("%", "/", "min", "max"))]
        ops = [s for s in order if isinstance(s[1], tuple) and s[1][0] in ("%", "/", "min", "max")]
        for t in range(6000):
            hi = 3 if t < 2000 else 7
            env = {}
            for s in plain:
                if s[0] == "s" and s in A.free:
                    env[s] = self.rng.randint(-hi, hi)
                else:
                    env[s] = self.rng.randint(1 if s in pos else 0, hi)
            ok = True
            pend = list(ops)
            for _ in range(len(ops) + 1):
                n = []
                for s in pend:
                    try:
                        v = [p.eval(env) for p in s[1][1:]]
                    except KeyError:
                        n.append(s)
                        continue
                    op = s[1][0]
                    if op in ("/", "%"):
                        if v[1] <= 0 or v[0] < 0:
                            ok = False
                            env[s] = 0
                        else:
                            env[s] = v[0] // v[1] if op == "/" else v[0] % v[1]
                    else:
                        env[s] = min(v) if op == "min" else max(v)
                pend = n
                if not pend:
                    break
            if not ok or pend:
                continue
            for s in closure:
                b = A.bounds.get(s, ([], []))
                if any(env[s] < p.eval(env) for p in b[0]) or any(env[s] > p.eval(env) for p in b[1]):
                    ok = False
                    break
            if not ok:
                continue
            if any(g.eval(env) < 0 for g in use):
                continue
            d = D.eval(env)
            if -as_ < d < ws:
                if self.filter is not None:
                    names = {str(spretty(s)): env[s] for s in plain}
                    if not self.filter(None, names):
                        continue
                return {str(spretty(s)): env[s] for s in plain if s in D.syms() or s in A.free}
        return None


def spretty(s):
    x = s[1]
    if isinstance(x, tuple):
        if x[0] == "fld":
            return rname(x[1])
        if x[0] == "'":
            return str(spretty(x[1])) + "'"
    return str(x)


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def F_with(F, ge):
    G = Facts()
    G.lo = dict(F.lo)
    G.hi = dict(F.hi)
    G.ge = list(F.ge) + list(ge)
    G.signed = F.signed
    return G


def nonneg(F, z):
    class S:
        def __contains__(self, s):
            return s != z and s in SIGNED
    F.signed = S()
    return F


def quickdiff(r1, r2):
    """syntactically different storage (no polynomial reasoning needed)"""
    while True:
        if r1[0] != r2[0]:
            return True
        if r1[0] == "sub":
            if r1[3] != r2[3]:
                return True
            r1, r2 = r1[1], r2[1]
            continue
        if r1[0] == "ld":
            r1, r2 = r1[1], r2[1]
            continue
        if r1[0] in ("param", "global", "var", "this"):
            return r1 != r2
        return r1[:2] != r2[:2]
