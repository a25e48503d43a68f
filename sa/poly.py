"""Integer polynomials over named symbols, with a sign prover.

Symbols are hashable values.  The prover is a small decision procedure for
p >= 0 by eliminating bounded symbols (lo <= s <= hi, affine occurrence) and
then checking that every remaining coefficient is nonnegative after the
substitution s -> lower bound + slack.  It is incomplete and sound."""
from fractions import Fraction

_ORD = {}


def _ord(x):
    """total order on symbols: order of first appearance"""
    o = _ORD.get(x[0])
    if o is None:
        o = _ORD[x[0]] = len(_ORD)
    return o


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c != 0}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def sym(s):
        return Poly({((s, 1),): 1})

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def isconst(self):
        return all(m == () for m in self.t)

    def cval(self):
        return self.t.get((), 0)

    def syms(self):
        return {s for m in self.t for s, _ in m}

    def degree(self, s):
        return max([e for m in self.t for x, e in m if x == s], default=0)

    def coeff(self, s, e=1):
        """coefficient poly of s^e"""
        t = {}
        for m, c in self.t.items():
            d = dict(m)
            if d.get(s, 0) == e:
                d.pop(s, None)
                k = tuple(sorted(d.items(), key=_ord)) if len(d) > 1 else tuple(d.items())
                t[k] = t.get(k, 0) + c
        return Poly(t)

    def subst(self, mp):
        if not (self.syms() & set(mp)):
            return self
        r = Poly()
        for m, c in self.t.items():
            x = Poly.const(c)
            for s, e in m:
                y = mp.get(s)
                y = Poly.sym(s) if y is None else y
                for _ in range(e):
                    x = x * y
            r = r + x
        return r

    def rename(self, fn):
        return self.subst({s: Poly.sym(fn(s)) for s in self.syms()})

    def divexact(self, o):
        """exact quotient by a monomial or an identical multiple, or None"""
        if o.t and len(o.t) == 1:
            (m, c), = o.t.items()
            t = {}
            for n, d in self.t.items():
                q = mdiv(n, m)
                if q is None or d % c:
                    return None
                t[q] = t.get(q, 0) + (d // c if isinstance(d, int) else d / c)
            return Poly(t)
        if not self.t:
            return Poly()
        return None

    def content(self):
        c = 0
        for x in self.t.values():
            a, b = c, abs(x)
            while b:
                a, b = b, a % b
            c = a
        return c

    def divpoly(self, o):
        """exact quotient by a polynomial (leading-term division) or None"""
        if not o.t:
            return None

        def key(m):
            return sorted(((_ORD.setdefault(s, len(_ORD)), e) for s, e in m), reverse=True)
        lm = max(o.t, key=key)
        lc = o.t[lm]
        r, q = self, Poly()
        for _ in range(40):
            if not r.t:
                return q
            m = max(r.t, key=key)
            d = mdiv(m, lm)
            if d is None or r.t[m] % lc:
                return None
            k = Poly({d: r.t[m] // lc})
            q = q + k
            r = r - k * o
        return None

    def eval(self, env):
        r = 0
        for m, c in self.t.items():
            x = c
            for s, e in m:
                x *= env[s] ** e
            r += x
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=repr):
            f = "*".join(sname(s) + ("^%d" % e if e > 1 else "") for s, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        return "+".join(out).replace("+-", "-")


def sname(s):
    if isinstance(s, str):
        return s
    if isinstance(s, tuple):
        if s and s[0] == "v":
            return str(s[1])
        return "<" + ",".join(sname(x) if not isinstance(x, Poly) else repr(x) for x in s) + ">"
    return str(s)


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly({(): x})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items(), key=_ord)) if len(d) > 1 else tuple(d.items())


def mdiv(a, b):
    d = dict(a)
    for s, e in b:
        if d.get(s, 0) < e:
            return None
        d[s] -= e
        if d[s] == 0:
            del d[s]
    return tuple(sorted(d.items(), key=_ord)) if len(d) > 1 else tuple(d.items())


class Facts:
    """lower: sym -> list of Poly lower bounds; upper likewise.  Order given by
    elimination: a bound of s may only mention symbols of smaller rank."""

    def __init__(self):
        self.lo = {}
        self.hi = {}
        self.ge = []      # list of Poly known >= 0
        self.signed = set()

    def copy(self):
        f = Facts()
        f.lo = {k: list(v) for k, v in self.lo.items()}
        f.hi = {k: list(v) for k, v in self.hi.items()}
        f.ge = list(self.ge)
        f.signed = set(self.signed)
        return f

    def add_lo(self, s, p):
        l = self.lo.setdefault(s, [])
        if p not in l:
            l.append(p)

    def add_hi(self, s, p):
        l = self.hi.setdefault(s, [])
        if p not in l:
            l.append(p)

    def add_ge(self, p):
        if p not in self.ge:
            self.ge.append(p)

    def lower0(self, s):
        """numeric lower bound"""
        best = None if s in self.signed else 0
        for p in self.lo.get(s, ()):
            if p.isconst():
                c = p.cval()
                if best is None or c > best:
                    best = c
        return best


def prove_ge(p, facts, depth=8, budget=None, memo=None):
    """True if p >= 0 is derivable.

    Goal-directed: some negative monomial of p (after shifting every symbol by
    its numeric lower bound) has to be cancelled, either by replacing a symbol
    of it by a bound or by subtracting a multiple of a fact g >= 0."""
    if budget is None:
        budget = [150]
        memo = {}
    if memo.get(p, -1) >= depth:
        return False
    if budget[0] <= 0:
        return False
    budget[0] -= 1
    q = shifted(p, facts)
    if q is not None and all(c >= 0 for c in q.t.values()):
        return True
    memo[p] = depth
    if depth == 0:
        return False
    neg = None
    if q is None:
        # a symbol without numeric lower bound occurs
        for m, c in p.t.items():
            if any(facts.lower0(s) is None for s, _ in m):
                neg = m
                break
    else:
        for m, c in q.t.items():
            if c < 0 and (neg is None or len(m) > len(neg)):
                neg = m
        if p.t.get(neg, 0) >= 0 and neg != ():
            best = None
            for m, c in p.t.items():
                if c < 0 and mdiv(m, neg) is not None and (best is None or len(m) > len(best)):
                    best = m
            neg = best if best is not None else neg
    cand = []
    seen = set()
    for s, _ in neg:
        los, his = facts.lo.get(s), facts.hi.get(s)
        if not los and not his:
            continue
        if p.degree(s) != 1:
            continue
        c = p.coeff(s)
        sg = None
        if his and (closed_ge(-c, facts) or (depth > 2 and not c.isconst() and prove_ge(-c, facts, 2, budget, {}))):
            sg = -1
        elif los and (closed_ge(c, facts) or (depth > 2 and not c.isconst() and prove_ge(c, facts, 2, budget, {}))):
            sg = 1
        if sg is None:
            continue
        rest = p.coeff(s, 0)
        for b in (los if sg == 1 else his):
            if sg == -1 or not b.isconst() or facts.lower0(s) is None:
                r = rest + c * b
                if r not in seen:
                    seen.add(r)
                    cand.append(r)
    pc = p.t.get(neg, 0)
    if neg == () and q is not None:
        pc = q.t.get((), 0)
    if pc < 0 or q is None:
        gs = facts.ge
        extra = []
        for s in p.syms():
            for b in facts.lo.get(s, ()):
                if not b.isconst():
                    extra.append(Poly.sym(s) - b)
        for g in list(gs) + extra:
            for n, d in g.t.items():
                if pc < 0 and d >= 0 or pc > 0 and d <= 0 or pc == 0:
                    continue
                if n == () and neg != ():
                    continue
                k = mdiv(neg, n)
                if k is None:
                    continue
                if k and any(facts.lower0(s) is None or facts.lower0(s) < 0 for s, _ in k):
                    continue
                fr = Fraction(pc, d)
                if fr.denominator != 1:
                    fr = Fraction(-((-pc) // d) if False else (abs(pc) + abs(d) - 1) // abs(d))
                r = p - g * Poly({k: int(fr)})
                if len(r.t) <= len(p.t) + 2 and r not in seen:
                    seen.add(r)
                    cand.append(r)
    cand.sort(key=lambda r: (len(r.t), sum(1 for c in r.t.values() if c < 0)))
    for r in cand:
        if r != p and prove_ge(r, facts, depth - 1, budget, memo):
            return True
    return False


def shifted(p, facts):
    mp = {}
    for s in p.syms():
        l = facts.lower0(s)
        if l is None:
            return None
        if l != 0:
            mp[s] = Poly.sym(s) + l
    return p.subst(mp) if mp else p


def closed_ge(p, facts):
    """p >= 0 after s -> lower(s) + slack, all coefficients nonnegative"""
    if p.isconst():
        return p.cval() >= 0
    mp = {}
    for s in p.syms():
        l = facts.lower0(s)
        if l is None:
            return False
        if l != 0:
            mp[s] = Poly.sym(s) + l
    q = p.subst(mp) if mp else p
    return all(c >= 0 for c in q.t.values())
