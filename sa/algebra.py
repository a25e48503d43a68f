"""Value numbering of numerical code over the field of rational functions.

Doubles are elements of Q(symbols); Complex and SIMD vectors are pairs of
doubles in a memory of double cells (base, offset).  Uninterpreted real
functions (cos, exp, ...) are symbols keyed by their argument; sqrt symbols
are reduced by s*s = argument.  Branches fork; a loop body is evaluated once
for a generic value of its index."""
from .poly import Poly, P
from .repo import strip, walk


class Undecided(Exception):
    pass


class R:
    """rational function n/d; sqrt symbols reduced"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = reduce(P(n))
        self.d = reduce(P(d)) if d is not None else Poly.const(1)

    def __add__(self, o):
        o = toR(o)
        if self.d == o.d:
            return R(self.n + o.n, self.d)
        return R(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return R(-self.n, self.d)

    def __sub__(self, o):
        return self + (-toR(o))

    def __mul__(self, o):
        o = toR(o)
        return R(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        o = toR(o)
        return R(self.n * o.d, self.d * o.n)

    def same(self, o):
        return not reduce(self.n * o.d - o.n * self.d).t

    def iszero(self):
        return not self.n.t

    def key(self):
        """canonical text for symbols keyed by an argument"""
        if self.d.isconst():
            from fractions import Fraction
            c = self.d.cval()
            return ("r", frozenset((m, Fraction(v) / c) for m, v in self.n.t.items()))
        return ("q", self.n, self.d)

    def __repr__(self):
        return repr(self.n) if self.d == Poly.const(1) else "(%r)/(%r)" % (self.n, self.d)


SQRT = {}       # symbol -> argument R


def reduce(p):
    again = True
    while again:
        again = False
        for m in list(p.t):
            for s, e in m:
                if e >= 2 and s in SQRT and SQRT[s].d.isconst():
                    a = SQRT[s]
                    c = p.t[m]
                    rest = Poly({tuple((x, k) for x, k in m if x != s): 1})
                    if e > 2:
                        for _ in range(e - 2):
                            rest = rest * Poly.sym(s)
                    from fractions import Fraction
                    p = p - Poly({m: c}) + rest * a.n * Poly.const(Fraction(c) / a.d.cval())
                    again = True
                    break
            if again:
                break
    return p


def toR(x):
    return x if isinstance(x, R) else R(P(x))


def fn(name, *args):
    """uninterpreted function application"""
    ks = tuple(a.key() for a in args)
    if name in ("cos", "sin", "tan", "atan2") and False:
        pass
    s = ("fn", name, ks)
    if name == "sqrt":
        if args[0].iszero():
            return toR(0)
        SQRT[s] = args[0]
    if name in ("sin",) and args[0].iszero():
        return toR(0)
    if name in ("cos", "exp") and args[0].iszero():
        return toR(1)
    return R(Poly.sym(s))


class Mem:
    def __init__(self, o=None):
        self.c = dict(o.c) if o else {}
        self.env = dict(o.env) if o else {}
        self.conds = list(o.conds) if o else []
        self.stores = list(o.stores) if o else []
        self.loops = list(o.loops) if o else []

    def load(self, base, off):
        k = (base, off)
        if k not in self.c:
            self.c[k] = R(Poly.sym(("m", base, off.key() if hasattr(off, "key") else off)))
        return self.c[k]

    def store(self, base, off, v, ln=None):
        self.c[(base, off)] = v
        self.stores.append((base, off, v, tuple(self.loops), ln))


VA = "__attribute__((__vector_size__(2 * sizeof(double)))) double"


def norm(t):
    return (t or "").replace(VA, "Vec").replace("__m128d", "Vec")


def size(t):
    """doubles in an object of type t"""
    t = norm(t).replace("const", "").strip()
    if t.endswith("*"):
        return None
    t = t.rstrip("& ")
    if "vector_size" in t or t in ("Complex", "std::complex<double>", "fftwpp::Vec", "Vec", "fftwpp::uvec"):
        return 2
    if t == "double":
        return 1
    return None


def pointee(t):
    t = norm(t)
    return t.replace("const", "").replace("__restrict", "").strip().rstrip("& ")[:-1].strip() if "*" in t else t


FN = {"cos", "sin", "exp", "log", "sqrt", "atan2", "tan", "fabs", "log10"}


def commas(e):
    x = strip(e)
    if x.get("k") == "bin" and x.get("op") == ",":
        return commas(x["l"]) + commas(x["r"])
    return [e]


def firstuse(top, i):
    """index of the top-level statement that assigns i before any use, or None"""
    for j, st in enumerate(top):
        if not any(n.get("k") == "ref" and n.get("id") == i for n in walk(st)):
            continue
        a = strip(st)
        if a.get("k") == "asg" and a["op"] == "=" and strip(a["l"]).get("id") == i and \
                not any(n.get("k") == "ref" and n.get("id") == i for n in walk(a["r"])):
            return j
        return None
    return None


class Interp:
    def __init__(self, prog, inline=lambda f: True):
        self.p = prog
        self.n = 0
        self.steps = 0
        self.inline = inline

    def fresh(self, w="t"):
        self.n += 1
        return ("tmp", w, self.n)

    # ---- evaluation: returns value; forks are handled by replaying choices
    def run(self, f, args, this=None):
        """all paths: list of (return value, Mem).  args: values bound to parameters"""
        out = []
        todo = [[]]
        while todo:
            ch = todo.pop()
            self.choices, self.pos = ch, 0
            self.n = 0
            self.steps = 0
            m = Mem()
            self.m = m
            for k, v in getattr(self, "preset", {}).items():
                m.c[k] = v
            r = self.call(f, args, this)
            for i in range(len(ch), len(self.choices)):
                todo.append(self.choices[:i] + [not self.choices[i]])
            out.append((r, self.m))
            if len(out) > 64:
                raise Undecided("too many paths")
        return out

    def choose(self, c):
        if c is True or c is False:
            return c
        for k, v in self.m.conds:
            if k == c:
                return v
            if k[0] == "not" and k[1] == c or c[0] == "not" and c[1] == k:
                return not v
        if self.pos < len(self.choices):
            b = self.choices[self.pos]
        else:
            b = True
            self.choices = self.choices + [True]
        self.pos += 1
        self.m.conds.append((c, b))
        return b

    def call(self, f, args, this=None):
        if not f or not f.get("body"):
            raise Undecided("no body for %s" % (f and f["name"]))
        old = self.m.env, getattr(self, "this", None)
        self.m.env = {}
        self.this = this
        for p, a in zip(f["params"], args):
            self.m.env[p["id"]] = self.param(p["t"], a)
        try:
            if f["kind"] == "ctor":
                for i in f.get("inits") or []:
                    self.ctorinit(i, this)
            try:
                self.stmt(f["body"])
            except Ret as r:
                v = r.v
                return v
            return None
        finally:
            self.m.env, self.this = old

    def param(self, t, a):
        if t.rstrip().endswith("&"):
            return a                      # lvalue (or materialised temporary)
        if isinstance(a, tuple) and a[0] == "agg":
            n = size(t)
            if n is None:
                return a
            return self.copy(a, n)
        if isinstance(a, tuple) and a[0] in ("cell",):
            return self.box(self.val(a))
        return self.box(a)

    def box(self, v):
        """a local variable holding v"""
        if isinstance(v, tuple) and v[0] == "agg":
            return v
        if isinstance(v, R):
            b = self.fresh("v")
            self.m.c[(b, P(0))] = v
            return ("cell", b, P(0))
        return ("box", [v])

    def copy(self, a, n=2):
        b = self.fresh("o")
        for i in range(n):
            self.m.c[(b, P(i))] = self.m.load(a[1], a[2] + P(i))
        return ("agg", b, P(0))

    def pair(self, x, y):
        b = self.fresh("o")
        self.m.c[(b, P(0))], self.m.c[(b, P(1))] = x, y
        return ("agg", b, P(0))

    def get(self, a):
        a = self.val(a)
        if isinstance(a, R):
            return (a, toR(0))
        if not (isinstance(a, tuple) and a[0] == "agg"):
            raise Undecided("aggregate expected")
        return (self.m.load(a[1], a[2]), self.m.load(a[1], a[2] + P(1)))

    def val(self, a):
        """rvalue"""
        if isinstance(a, tuple) and a[0] == "cell":
            return self.m.load(a[1], a[2])
        if isinstance(a, tuple) and a[0] == "box":
            return a[1][0]
        return a

    def num(self, e):
        v = self.val(self.ev(e))
        if isinstance(v, R):
            return v
        if v is True or v is False:
            return toR(int(v))
        if isinstance(v, tuple) and v[0] in ("rel", "not", "and", "or"):
            return toR(int(self.truth(v)))
        raise Undecided("number expected, got %s" % str(v)[:60])

    def truth(self, v):
        v = self.val(v)
        if v is True or v is False:
            return v
        if isinstance(v, R):
            if v.iszero():
                return False
            if v.n.isconst():
                return True
            return self.choose(("rel", "!=", v.key()))
        if isinstance(v, tuple):
            if v[0] == "rel":
                return self.choose(v)
            if v[0] == "not":
                return not self.truth(v[1])
        raise Undecided("condition")

    def rel(self, op, l, r):
        d = l - r
        if d.n.isconst() and d.d.isconst():
            c = d.n.cval() / d.d.cval()
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        # canonical: only ==, <, <=
        if op in ("==", "!="):
            a, b = d.key(), (-d).key()
            k = ("rel", "==", a if repr(a) < repr(b) else b, d)
            k = k[:3]
            self.lastrel = d
            return k if op == "==" else ("not", k)
        if op in (">", ">="):
            return self.rel("<" if op == ">" else "<=", r, l)
        if op == "<=":
            return ("not", self.rel("<", r, l))
        return ("rel", "<", d.key())

    # ---- statements
    def stmt(self, s):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided("too long")
        k = s.get("k")
        if k == "block":
            for x in s["s"]:
                self.stmt(x)
        elif k == "decl":
            for d in s["d"]:
                self.decl(d)
        elif k == "expr":
            self.ev(s["e"])
        elif k == "return":
            v = self.ev(s["e"]) if s.get("e") else None
            if isinstance(v, tuple) and v[0] == "cell":
                v = self.val(v)
            raise Ret(v)
        elif k == "if":
            if s.get("init"):
                self.stmt(s["init"])
            if self.truth(self.ev(s["c"])):
                self.stmt(s["then"])
            elif s.get("else"):
                self.stmt(s["else"])
        elif k == "omp":
            self.stmt(s["body"])
        elif k in ("for", "while"):
            self.loop(s)
        elif k == "nop":
            pass
        else:
            raise Undecided("statement " + str(k))

    def loop(self, s):
        """the body is evaluated once, for a generic iteration: variables that advance by a constant
        are functions of the loop symbol, variables assigned before use are temporaries"""
        if s.get("init"):
            self.stmt(s["init"])
        body = s["body"]["s"] if s["body"].get("k") == "block" else [s["body"]]
        top = [x.get("e") if x.get("k") == "expr" else x for x in body]
        incs = [x for x in (commas(s["inc"]) if s.get("inc") else [])]
        mods = {}
        for part in list(top) + incs:
            for n in walk(part):
                t = None
                if n.get("k") == "un" and n.get("op") in ("++", "--"):
                    t = strip(n["e"])
                elif n.get("k") == "asg":
                    t = strip(n["l"])
                if t and t.get("k") == "ref" and t.get("id") in self.m.env:
                    mods.setdefault(t["id"], []).append((n, part))
        c = strip(s["c"])
        if not (c.get("k") == "bin" and c["op"] in ("<", "<=", "!=", ">", ">=")):
            raise Undecided("loop form")
        ind, tmp = {}, set()
        for i, us in mods.items():
            v = self.m.env[i]
            if not (isinstance(v, tuple) and v[0] in ("box", "cell")):
                if len(us) and all(x[0].get("k") == "asg" for x in us) and firstuse(top, i) is not None:
                    continue        # aggregate temporary, assigned before it is read
                raise Undecided("loop-carried variable")
            n, part = us[0]
            if len(us) == 1 and strip(part) is n and (n["k"] == "un" or n["op"] in ("+=", "-=")):
                d = toR(1) if n["k"] == "un" else self.num(n["r"])
                ind[i] = -d if n["op"] in ("--", "-=") else d
            elif firstuse(top, i) is not None:
                tmp.add(i)
            else:
                raise Undecided("loop-carried variable")
        l, r, op = c["l"], c["r"], c["op"]
        FL = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}
        refs = lambda x: {y["id"] for y in walk(x) if y.get("k") == "ref"} & (set(ind) | tmp)
        if not refs(l):
            l, r, op = r, l, FL[op]
        moved = toR(0)               # i+c < n is i < n-c
        while strip(l).get("k") == "bin" and strip(l)["op"] in ("+", "-"):
            b = strip(l)
            if not refs(b["r"]):
                x = self.num(b["r"])
                l, moved = b["l"], moved - x if b["op"] == "+" else moved + x
            elif b["op"] == "+" and not refs(b["l"]):
                l, moved = b["r"], moved - self.num(b["l"])
            else:
                break
        i = strip(l).get("id")
        if i not in ind or {x["id"] for x in walk(r) if x.get("k") == "ref"} & (set(ind) | tmp):
            raise Undecided("loop form")
        step = ind[i]
        if step.iszero():
            raise Undecided("loop form")
        v0 = self.val(self.m.env[i])
        h = self.val(self.ev(r))
        if isinstance(v0, tuple) and v0[0] == "ptr":
            if not (isinstance(h, tuple) and h[0] == "ptr" and h[1] == v0[1]):
                raise Undecided("loop form")
            w = size(pointee(l.get("t") or strip(l).get("t"))) or 1
            lo, hi = toR(0), (toR(h[2]) - toR(v0[2])) / toR(w) + moved
        else:
            lo, hi = self.asnum(v0), self.asnum(h) + moved
        up = not (step.n.isconst() and step.n.cval() < 0)
        if op == "<=":
            hi = hi + toR(1)
        elif op == ">=":
            hi = hi - toR(1)
        if op in ("<", "<=") and not up or op in (">", ">=") and up:
            raise Undecided("loop form")
        v = R(Poly.sym(("loop", strip(l).get("n"), self.fresh("l")[2])))
        start = {}
        for x, d in ind.items():
            o = self.val(self.m.env[x])
            start[x] = o
            k = v - lo if d.same(step) else (v - lo) * d / step
            self.m.env[x] = self.box(self.advance(o, k, x, ind, s))
        for x in tmp:
            self.m.env[x] = self.box(R(Poly.sym(("uninit", x, 0))))
        self.m.loops.append((v, lo, hi, step))
        for x in body:
            self.stmt(x)
        self.m.loops.pop()
        one = step.same(toR(1)) or step.same(toR(-1))
        for x, d in ind.items():
            if one:
                self.m.env[x] = self.box(self.advance(start[x], (hi - lo) * d / step, x, ind, s))
            else:
                self.m.env[x] = ("box", [None])
        for x in tmp:
            self.m.env[x] = ("box", [None])

    def asval(self, v):
        return v

    def asnum(self, v):
        if v is True or v is False:
            return toR(int(v))
        if not isinstance(v, R):
            raise Undecided("number expected")
        return v

    def advance(self, o, k, x, ind, s):
        if isinstance(o, tuple) and o[0] == "ptr":
            t = None
            for n in walk(s):
                if n.get("k") == "ref" and n.get("id") == x and n.get("t"):
                    t = n["t"]
                    break
            return self.add(o, k, t)
        return self.asnum(o) + k

    def decl(self, d):
        if d.get("k") not in (None, "var"):
            raise Undecided("declaration")
        t = d["t"]
        if d.get("static"):
            raise Undecided("static local")
        if d.get("init") is None or strip(d["init"]).get("k") == "ctor" and not strip(d["init"]).get("args"):
            n = size(t)
            if n:
                b = self.fresh(d["n"])
                for i in range(n):
                    self.m.c[(b, P(i))] = R(Poly.sym(("uninit", d["n"], i)))
                self.m.env[d["id"]] = ("agg" if n == 2 else "cell", b, P(0))
            else:
                self.m.env[d["id"]] = ("box", [None])
            return
        v = self.ev(d["init"])
        if t.rstrip().endswith("&"):
            self.m.env[d["id"]] = v
        elif isinstance(v, tuple) and v[0] == "agg" and size(t) == 2:
            self.m.env[d["id"]] = self.copy(v)
        elif size(t) == 2:
            x, y = self.get(v)
            self.m.env[d["id"]] = self.pair(x, y)
        else:
            self.m.env[d["id"]] = self.box(self.val(v))

    # ---- expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided("too long")
        k = e.get("k")
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided("expression " + str(k))
        return m(e)

    def e_rv(self, e):
        v = self.ev(e["e"])
        if isinstance(v, tuple) and v[0] in ("cell", "box"):
            return self.val(v)
        if isinstance(v, tuple) and v[0] == "agg":
            return self.copy(v)
        return v

    def e_icast(self, e):
        v = self.ev(e["e"])
        if e.get("ck") in ("ArrayToPointerDecay", "NoOp", "IntegralCast", "IntegralToFloating", "UserDefinedConversion",
                           "ConstructorConversion", "BitCast", "IntegralToBoolean", "FloatingToBoolean", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay", "VectorSplat", None) or True:
            return v

    def e_cast(self, e):
        v = self.ev(e["e"])
        t = e["t"]
        if isinstance(v, tuple) and v[0] == "ptr":
            return v
        if size(t) == 2 and isinstance(self.val(v), R):
            x, y = self.get(v)
            return self.pair(x, y)
        return v

    e_defarg = lambda self, e: self.ev(e["e"])
    e_paren = e_defarg

    def e_int(self, e):
        return toR(int(e["v"]))

    def e_float(self, e):
        from fractions import Fraction
        try:
            return toR(Poly.const(Fraction(str(e["v"]))))
        except ValueError:
            raise Undecided("literal")

    def e_bool(self, e):
        return bool(e["v"])

    def e_null(self, e):
        return ("ptr", "null", P(0))

    def e_this(self, e):
        return ("ptr", self.this[1], self.this[2])

    def e_ref(self, e):
        v = self.m.env.get(e["id"])
        if v is not None:
            return v
        if e.get("vk") in ("global", "slocal"):
            g = self.p.globals.get(e["id"])
            if g and g.get("const") and g.get("init") and size(g["t"]) is None or g and g["t"].replace("const ", "") == "double" and g.get("const"):
                return self.ev(g["init"])
            if "*" in norm(e.get("t", "")):
                return ("ptr", ("glob", e["id"]), P(0))
            if size(e.get("t", "")) == 2:
                return ("agg", ("glob", e["id"]), P(0))
            return ("cell", ("glob", e["id"]), P(0))
        raise Undecided("variable %s" % e.get("n"))

    def e_mem(self, e):
        b = self.ev(e["b"])
        f = e["f"]
        if e.get("arrow"):
            if not (isinstance(b, tuple) and b[0] == "ptr"):
                b = self.val(b)
            if not (isinstance(b, tuple) and b[0] == "ptr"):
                raise Undecided("pointer expected")
            b = ("agg", b[1], b[2])
        if isinstance(b, tuple) and b[0] == "agg":
            if e.get("c") in ("Complex", "fftwpp::Vec"):
                i = {"re": 0, "x": 0, "im": 1, "y": 1}.get(f)
                if i is None:
                    raise Undecided("member " + f)
                return ("cell", b[1], b[2] + P(i))
            if f == "v":
                return b
            return self.field(b, e)
        raise Undecided("member " + f)

    def field(self, b, e):
        t = e.get("t", "")
        base = ("fld", b[1], e["f"])
        if "*" in norm(t):
            k = (base, "ptr")
            return ("ptr", base, P(0)) if k not in self.m.env else self.m.env[k]
        return ("cell", base, P(0))

    def e_idx(self, e):
        b = self.val(self.ev(e["b"]))
        i = self.num(e["i"])
        return self.deref(self.add(b, i, e["b"].get("t") or "", e.get("t")), e["t"])

    def add(self, b, i, t, et=None):
        if not (isinstance(b, tuple) and b[0] == "ptr"):
            raise Undecided("pointer expected")
        if not i.d.isconst():
            raise Undecided("offset")
        from fractions import Fraction
        n = i.n * Poly.const(Fraction(1, i.d.cval())) if i.d.cval() != 1 else i.n
        w = size(et) if et else size(pointee(t))
        if w is None and "*" not in norm(et or pointee(t)):
            raise Undecided("element type %s" % (et or t))
        return ("ptr", b[1], b[2] + n * P(w or 1))

    def deref(self, p, t):
        if "*" in norm(t):
            return ("ptr", ("at", p[1], p[2]), P(0))
        n = size(t)
        if n == 2:
            return ("agg", p[1], p[2])
        return ("cell", p[1], p[2])

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            v = self.ev(e["e"])
            if isinstance(v, tuple) and v[0] in ("cell", "agg"):
                return ("ptr", v[1], v[2])
            raise Undecided("address")
        if op == "*":
            p = self.val(self.ev(e["e"]))
            if isinstance(p, tuple) and p[0] == "ptr":
                return self.deref(p, e["t"])
            raise Undecided("deref")
        if op == "!":
            return ("not", self.val(self.ev(e["e"]))) if not isinstance(self.val(self.ev(e["e"])), bool) else not self.val(self.ev(e["e"]))
        if op in ("-", "+"):
            v = self.val(self.ev(e["e"]))
            if isinstance(v, tuple) and v[0] == "agg":
                x, y = self.get(v)
                return self.pair(-x, -y) if op == "-" else v
            v = toR(v) if isinstance(v, R) else self.num(e["e"])
            return -v if op == "-" else v
        if op in ("++", "--"):
            l = self.ev(e["e"])
            o = self.val(l)
            if isinstance(o, R):
                n = o + toR(1 if op == "++" else -1)
                self.set(l, n)
                return o if e.get("post") else n
        raise Undecided("unary " + op)

    def set(self, l, v, ln=None):
        if l[0] == "cell":
            self.m.store(l[1], l[2], v, ln)
        elif l[0] == "box":
            l[1][0] = v
        elif l[0] == "agg":
            x, y = self.get(v)
            self.m.store(l[1], l[2], x, ln)
            self.m.store(l[1], l[2] + P(1), y, ln)
        else:
            raise Undecided("store to %s" % str(l)[:60])

    def e_asg(self, e):
        op = e["op"]
        r = self.val(self.ev(e["r"]))
        if isinstance(r, tuple) and r[0] == "agg":
            r = self.copy(r)
        l = self.ev(e["l"])
        if op == "=":
            if isinstance(r, tuple) and r[0] == "ptr" and l[0] == "ptr":
                raise Undecided("pointer store")
            self.set(l, r, e.get("ln"))
            return l
        o = self.val(l)
        if isinstance(o, tuple) and o[0] == "ptr" and op in ("+=", "-="):
            r = self.num(e["r"])
            self.set(l, self.add(o, r if op == "+=" else -r, e["l"]["t"]), e.get("ln"))
            return l
        self.set(l, self.arith(op[0], o, r), e.get("ln"))
        return l

    def arith(self, op, a, b):
        if isinstance(a, tuple) and a[0] == "agg" or isinstance(b, tuple) and b[0] == "agg":
            x, y = self.get(a)
            u, v = self.get(b)
            return self.pair(self.arith(op, x, u), self.arith(op, y, v))
        if a is True or a is False:
            a = toR(int(a))
        if b is True or b is False:
            b = toR(int(b))
        if not (isinstance(a, R) and isinstance(b, R)):
            raise Undecided("operands")
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a / b
        raise Undecided("operator " + op)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            l = self.truth(self.ev(e["l"]))
            if op == "&&":
                return l and self.truth(self.ev(e["r"]))
            return l or self.truth(self.ev(e["r"]))
        if op == ",":
            self.ev(e["l"])
            return self.ev(e["r"])
        a, b = self.val(self.ev(e["l"])), self.val(self.ev(e["r"]))
        isp = lambda v: isinstance(v, tuple) and v[0] == "ptr"
        if isp(a) and isp(b) and op in ("==", "!="):
            if a[1] == b[1]:
                r = a[2] == b[2]
            else:
                r = self.choose(("peq",) + tuple(sorted((repr(a[1:]), repr(b[1:])))))
            return r if op == "==" else not r
        if isp(a) and op in ("+", "-"):
            return self.add(a, self.num(e["r"]) if op == "+" else -self.num(e["r"]), e["l"].get("t") or e["t"])
        a, b = self.asval(a), self.asval(b)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if a is True or a is False:
                a = toR(int(a))
            if b is True or b is False:
                b = toR(int(b))
            if isinstance(a, R) and isinstance(b, R):
                r = self.rel(op, a, b)
                return r if r is True or r is False else self.truth(r)
            raise Undecided("comparison")
        if op in ("/", "%", ">>", "<<", "&", "|", "^") and e.get("t") not in ("double",) and not (isinstance(a, tuple) or isinstance(b, tuple)):
            if op == "/" and isinstance(a, R) and isinstance(b, R) and a.n.isconst() and b.n.isconst():
                return toR(int(a.n.cval()) // int(b.n.cval()))
            if isinstance(a, R) and isinstance(b, R):
                return fn("int" + op, a, b)
            raise Undecided("integer operation")
        return self.arith(op, a, b)

    def e_cond(self, e):
        return self.ev(e["l"] if self.truth(self.ev(e["c"])) else e["r"])

    def e_ctor(self, e):
        n = size(e.get("t") or e.get("cls") or "")
        if n != 2:
            raise Undecided("constructor of " + str(e.get("t")))
        a = e.get("args") or []
        if len(a) == 1 and (e.get("copy") or e.get("elide")):
            return self.e_rv({"e": a[0]})
        f = self.p.funcs.get(e.get("fn"))
        b = self.fresh("o")
        for i in range(2):
            self.m.c[(b, P(i))] = R(Poly.sym(("uninit", "o", i)))
        o = ("agg", b, P(0))
        if f and f.get("body"):
            self.call(f, [self.ev(x) for x in a], o)
            return o
        if not a:
            return o
        if len(a) == 1:
            x, y = self.get(self.ev(a[0]))
            return self.pair(x, y)
        raise Undecided("constructor")

    def ctorinit(self, i, this):
        f = i.get("f") or i.get("field") or i.get("n")
        ix = {"re": 0, "x": 0, "im": 1, "y": 1}.get(f)
        if ix is None:
            raise Undecided("initialiser of %s" % f)
        self.m.c[(this[1], this[2] + P(ix))] = self.num(i.get("e") or i.get("init"))

    def e_initlist(self, e):
        a = e.get("args") or []
        if size(e.get("t", "")) == 2 and len(a) == 2:
            return self.pair(self.num(a[0]), self.num(a[1]))
        raise Undecided("initialiser list")

    def e_call(self, e):
        n = e.get("name", "").split("::")[-1]
        f = self.p.funcs.get(e.get("fn"))
        if f is not None and f.get("body") and not e.get("ext"):
            if e.get("virt"):
                raise Undecided("virtual call")
            args = [self.ev(a) for a in e["args"]]
            this = None
            if e.get("obj") is not None:
                o = self.ev(e["obj"])
                if isinstance(o, tuple) and o[0] == "ptr":
                    o = ("agg", o[1], o[2])
                this = o
            return self.call(f, args, this)
        if n == "operator=" and e.get("obj") is not None and size(e.get("t", "")) == 2:
            r = self.copy(self.val(self.ev(e["args"][0])))
            l = self.ev(e["obj"])
            self.set(l, r, e.get("ln"))
            return l
        return self.builtin(n, e)

    def builtin(self, n, e):
        A = e["args"]
        g = lambda i: self.get(self.ev(A[i]))
        if n in ("_mm_add_pd", "_mm_sub_pd", "_mm_mul_pd", "_mm_div_pd"):
            (a, b), (c, d) = g(0), g(1)
            op = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[n[4:7]]
            return self.pair(self.arith(op, a, c), self.arith(op, b, d))
        if n == "_mm_unpacklo_pd":
            return self.pair(g(0)[0], g(1)[0])
        if n == "_mm_unpackhi_pd":
            return self.pair(g(0)[1], g(1)[1])
        if n in ("__builtin_ia32_shufpd", "_mm_shuffle_pd", "__builtin_shufflevector"):
            i = self.num(A[2])
            if n == "__builtin_shufflevector":
                j = [int(self.num(x).n.cval()) for x in A[2:4]]
                v = list(g(0)) + list(g(1))
                return self.pair(v[j[0]], v[j[1]])
            i = int(i.n.cval())
            return self.pair(g(0)[i & 1], g(1)[(i >> 1) & 1])
        if n in ("_mm_load1_pd", "_mm_load_pd1", "_mm_set1_pd"):
            v = self.ptrload(A[0], 0) if n != "_mm_set1_pd" else self.num(A[0])
            return self.pair(v, v)
        if n == "_mm_load_sd":
            return self.pair(self.ptrload(A[0], 0), toR(0))
        if n in ("_mm_load_pd", "_mm_loadu_pd"):
            return self.pair(self.ptrload(A[0], 0), self.ptrload(A[0], 1))
        if n == "_mm_loadr_pd":
            return self.pair(self.ptrload(A[0], 1), self.ptrload(A[0], 0))
        if n in ("_mm_set_pd",):
            return self.pair(self.num(A[1]), self.num(A[0]))
        if n in ("_mm_setr_pd",):
            return self.pair(self.num(A[0]), self.num(A[1]))
        if n == "_mm_sqrt_pd":
            a, b = g(0)
            return self.pair(fn("sqrt", a), fn("sqrt", b))
        if n == "_mm_xor_pd":
            for i in (0, 1):
                s = self.mask(A[i])
                if s:
                    a, b = g(1 - i)
                    return self.pair(-a if s[0] else a, -b if s[1] else b)
            raise Undecided("xor mask")
        if n in FN:
            return fn(n, *[self.num(a) for a in A])
        if n == "hypot":
            a, b = self.num(A[0]), self.num(A[1])
            return fn("sqrt", a * a + b * b)
        if n in ("sincos",):
            x = self.num(A[0])
            s, c = self.val(self.ev(A[1])), self.val(self.ev(A[2]))
            self.m.store(s[1], s[2], fn("sin", x))
            self.m.store(c[1], c[2], fn("cos", x))
            return None
        raise Undecided("call of " + n)

    def ptrload(self, e, i):
        p = self.val(self.ev(e))
        if not (isinstance(p, tuple) and p[0] == "ptr"):
            raise Undecided("pointer expected")
        return self.m.load(p[1], p[2] + P(i))

    def mask(self, e):
        """sign mask of a constant: (flip low, flip high)"""
        e = strip(e)
        if e.get("k") == "mem" and e.get("f") == "v":
            r = strip(e["b"])
            g = self.p.globals.get(r.get("id"))
            if g and g.get("init") and g.get("const"):
                def ints(x):
                    x = strip(x)
                    if x.get("k") == "initlist":
                        return [v for a in x["args"] for v in ints(a)]
                    if x.get("k") == "int":
                        return [int(x["v"])]
                    return [None]
                v = ints(g["init"])
                v += [0] * (4 - len(v))
                if None in v[:4] or v[0] or v[2] or any(x not in (0, 0x80000000) for x in (v[1], v[3])):
                    return None
                return (bool(v[1]), bool(v[3]))
        if e.get("k") == "call" and e["name"].split("::")[-1] in ("_mm_set_pd", "_mm_setr_pd"):
            return None
        return None


class Ret(Exception):
    def __init__(self, v):
        self.v = v
