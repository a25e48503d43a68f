"""C20: the arithmetic of Complex is that of the complex numbers."""
from ..common import load
from ..algebra import Interp, R, Undecided, fn, toR, SQRT, P, Poly

EXPLANATION = """Value numbering over the field of rational functions: each operator and function of Complex.h
is evaluated on symbolic real and imaginary parts (branches fork, sqrt symbols satisfy s*s = argument)
and the result compared, as a formal identity, with the definition over the complex numbers; compound
assignments are evaluated a second time with both operands the same object."""
RULE = """violation: on some path the value returned (or stored) differs, as a rational function, from the
mathematical definition; a compound assignment changes its right operand, does not return its left
one, or gives another result when both operands are the same object."""
ASSUMPTIONS = ["real arithmetic: rounding, overflow and signed zeros are not considered"]
TECHNIQUE = "value numbering (abstract interpretation over rational functions) of the operator bodies"
NOTE = "Formal identities hold for all operand values outside the zeros of denominators."


def C(a, b):
    return (a, b)


def cmul(x, y):
    return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])


def cinv(y):
    d = y[0] * y[0] + y[1] * y[1]
    return (y[0] / d, -y[1] / d)


def r(x):
    return (x, toR(0))


BIN = {"+": lambda x, y: (x[0] + y[0], x[1] + y[1]), "-": lambda x, y: (x[0] - y[0], x[1] - y[1]),
       "*": cmul, "/": lambda x, y: cmul(x, cinv(y))}
A2 = lambda x: x[0] * x[0] + x[1] * x[1]
MOD = lambda x: fn("sqrt", A2(x))
# name, parameter kinds -> expected value
SPEC = {
    ("operator-", "C"): lambda x: (-x[0], -x[1]),
    ("operator+", "C"): lambda x: x,
    ("conj", "C"): lambda x: (x[0], -x[1]),
    ("multconj", "CC"): lambda x, y: cmul(x, (y[0], -y[1])),
    ("real", "C"): lambda x: x[0],
    ("imag", "C"): lambda x: x[1],
    ("abs2", "C"): A2,
    ("abs", "C"): MOD,
    ("realProduct", "CC"): lambda x, y: x[0] * y[0] + x[1] * y[1],
    ("realProduct", "DD"): lambda x, y: x * y,
    ("polar", "DD"): lambda a, t: (a * fn("cos", t), a * fn("sin", t)),
    ("expi", "D"): lambda t: (fn("cos", t), fn("sin", t)),
    ("exp", "C"): lambda z: (fn("exp", z[0]) * fn("cos", z[1]), fn("exp", z[0]) * fn("sin", z[1])),
}
for _op, _f in BIN.items():
    SPEC[("operator" + _op, "CC")] = _f
    SPEC[("operator" + _op, "CD")] = lambda x, y, f=_f: f(x, r(y))
    SPEC[("operator" + _op, "DC")] = lambda x, y, f=_f: f(r(x), y)


def kinds(f):
    s = ""
    for p in f["params"]:
        t = p["t"].replace("const", "").replace("&", "").strip()
        s += "C" if t == "Complex" else "D" if t == "double" else "?"
    return s


def arg(I, kind, name):
    if kind == "C":
        I.preset[(("arg", name), P(0))] = R(Poly.sym((name, "re")))
        I.preset[(("arg", name), P(1))] = R(Poly.sym((name, "im")))
        return ("agg", ("arg", name), P(0)), (R(Poly.sym((name, "re"))), R(Poly.sym((name, "im"))))
    v = R(Poly.sym((name, "d")))
    return v, v


def same(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and a[0].same(b[0]) and a[1].same(b[1])
    return not isinstance(b, tuple) and a.same(b)


def show(v):
    return "(%s, %s)" % (text(v[0]), text(v[1])) if isinstance(v, tuple) else text(v)


def text(v):
    def sym(s):
        if s[0] == "fn":
            return s[1] + "(..)"
        return ".".join(str(x) for x in s if isinstance(x, str))
    def po(p):
        o = []
        for m, c in p.t.items():
            o.append((str(c) + "*" if c != 1 or not m else "") + "*".join(sym(s) + ("^%d" % e if e > 1 else "") for s, e in m) if m else str(c))
        return " + ".join(o) or "0"
    return po(v.n) if v.d == Poly.const(1) else "(%s)/(%s)" % (po(v.n), po(v.d))


def value(I, v):
    if isinstance(v, tuple) and v[0] == "agg":
        return I.get(v)
    if v is True or v is False:
        return toR(int(v))
    return I.val(v)


def zero(conds, sym):
    """path facts: sym known to be zero"""
    for c, b in conds:
        pass
    return False


def run(rep, tier):
    p = load(["convolve"])
    fs = [f for f in p.defs() if f["file"].endswith("Complex.h") and f.get("body") is not None]
    for f in sorted(fs, key=lambda f: f["ln"]):
        ks = kinds(f)
        if f["kind"] == "ctor" or f.get("cls"):
            member(p, rep, f, ks)
            continue
        spec = SPEC.get((f["base"], ks))
        if f["base"] in ("operator==", "operator!=") and "?" not in ks:
            equality(p, rep, f, ks)
            continue
        if f["base"] in ("arg", "sqrt", "pow") and "?" not in ks:
            branches(p, rep, f, ks)
            continue
        if spec is None:
            rep.undecided.append("%s: no specification" % f["id"])
            continue
        rep.count("functions")
        try:
            one(p, rep, f, ks, spec)
        except (Undecided, ZeroDivisionError) as e:
            rep.undecided.append("%s: %s" % (f["id"], e))
    rep.coverage["decided_functions"] = rep.coverage.get("functions", 0) - len([u for u in rep.undecided if "no spec" not in u])
    rep.need("functions", 20)
    rep.need("compound_assignments", 6)


def one(p, rep, f, ks, spec):
    I = Interp(p)
    I.preset = {}
    args, ex = [], []
    for i, k in enumerate(ks):
        a, e = arg(I, k, "xyzw"[i])
        args.append(a)
        ex.append(e)
    want = spec(*ex)
    outs = []
    todo = I.run(f, args)
    for v, m in todo:
        I.m = m
        rep.count("paths")
        got = value(I, v)
        if isinstance(want, tuple) and isinstance(got, R):
            got = (got, toR(0))
        if not same(want, got):
            rep.bad("value:%s:%s" % (f["base"], ks), f["file"], f["ln"],
                    "%s(%s) computes %s, not %s" % (f["base"], ", ".join("complex" if k == "C" else "real" for k in ks), show(got), show(want)))
        args_unchanged(I, m, rep, f, ks, ex, skip=())


def args_unchanged(I, m, rep, f, ks, ex, skip):
    for i, k in enumerate(ks):
        if k != "C" or i in skip:
            continue
        for j in (0, 1):
            if not m.c.get((("arg", "xyzw"[i]), P(j)), ex[i][j]).same(ex[i][j]):
                rep.bad("changes-argument:%s:%s" % (f["base"], ks), f["file"], f["ln"], "%s changes its argument %d" % (f["name"], i + 1))


def member(p, rep, f, ks):
    n = f["base"]
    if f["kind"] == "ctor":
        want = {"DD": lambda a, b: (a, b), "C": lambda x: x, "D": lambda a: (a, toR(0))}.get(ks)
        if want is None:
            return
        rep.count("constructors")
    elif n in ("real", "imag") and not ks:
        want = None
    elif n == "operator=" and ks in ("C", "D"):
        want = (lambda x, y: y) if ks == "C" else (lambda x, y: r(y))
    elif n.startswith("operator") and n.endswith("=") and n[8:9] in BIN and len(n) == 10 and ks in ("C", "D"):
        b = BIN[n[8]]
        want = b if ks == "C" else lambda x, y: b(x, r(y))
        rep.count("compound_assignments")
    else:
        return
    rep.count("functions")
    try:
        I = Interp(p)
        I.preset = {}
        t, te = arg(I, "C", "x")
        args, ex = [], []
        for i, k in enumerate(ks):
            a, e = arg(I, k, "yzw"[i])
            args.append(a)
            ex.append(e)
        for v, m in I.run(f, args, t):
            I.m = m
            rep.count("paths")
            if want is None:
                got, w = I.val(v), te[0 if n == "real" else 1]
                if not got.same(w):
                    rep.bad("value:%s" % n, f["file"], f["ln"], "Complex::%s returns %s" % (n, text(got)))
                continue
            w = want(*ex) if f["kind"] == "ctor" else want(te, *ex)
            got = I.get(t)
            if not same(w, got):
                rep.bad("value:%s:%s" % (n, ks), f["file"], f["ln"], "Complex::%s leaves %s, not %s" % (n, show(got), show(w)))
            if f["kind"] != "ctor":
                if not (isinstance(v, tuple) and v[0] == "agg" and same(I.get(v), w)):
                    rep.bad("returns:%s:%s" % (n, ks), f["file"], f["ln"], "Complex::%s does not return its left operand" % n)
            for i, k in enumerate(ks):
                if k == "C":
                    g = I.get(args[i])
                    if not same(g, ex[i]):
                        rep.bad("changes-argument:%s:%s" % (n, ks), f["file"], f["ln"], "Complex::%s changes its right operand" % n)
        if f["kind"] != "ctor" and ks == "C":
            rep.count("aliased_evaluations")
            for v, m in I.run(f, [t], t):
                I.m = m
                got = I.get(t)
                w = want(te, te)
                if not same(w, got):
                    rep.bad("alias:%s" % n, f["file"], f["ln"],
                            "x %s x leaves %s, not %s: the operand is overwritten before it is read" % (n[8:], show(got), show(w)))
    except (Undecided, ZeroDivisionError) as e:
        rep.undecided.append("%s: %s" % (f["id"], e))


def equality(p, rep, f, ks):
    """truth table over the two coordinate differences"""
    rep.count("functions")
    try:
        I = Interp(p)
        I.preset = {}
        args, ex = [], []
        for i, k in enumerate(ks):
            a, e = arg(I, k, "xyzw"[i])
            args.append(a)
            ex.append(e if k == "C" else r(e))
        d = [ex[0][j] - ex[1][j] for j in (0, 1)]
        keys = []
        for j in (0, 1):
            a, b = d[j].key(), (-d[j]).key()
            keys.append(("rel", "==", a if repr(a) < repr(b) else b))
        for v, m in I.run(f, args):
            I.m = m
            rep.count("paths")
            v = value(I, v)
            if not (isinstance(v, R) and v.n.isconst()):
                raise Undecided("result")
            got = bool(v.n.cval())
            known = {}
            for c, b in m.conds:
                if c not in keys:
                    raise Undecided("condition")
                known[keys.index(c)] = b
            eq = True if known.get(0) and known.get(1) else False if False in known.values() else None
            if eq is None:
                rep.bad("value:%s:%s" % (f["base"], ks), f["file"], f["ln"], "%s decides without comparing both parts" % f["base"])
            elif got != (eq if f["base"] == "operator==" else not eq):
                rep.bad("value:%s:%s" % (f["base"], ks), f["file"], f["ln"], "%s answers %s when the parts are %s" %
                        (f["base"], got, "equal" if eq else "different"))
    except (Undecided, ZeroDivisionError) as e:
        rep.undecided.append("%s: %s" % (f["id"], e))


def branches(p, rep, f, ks):
    rep.count("functions")
    try:
        I = Interp(p)
        I.preset = {}
        args, ex = [], []
        for i, k in enumerate(ks):
            a, e = arg(I, k, "xyzw"[i])
            args.append(a)
            ex.append(e)
        for v, m in I.run(f, args):
            I.m = m
            rep.count("paths")
            got = value(I, v)
            if f["base"] == "sqrt":
                if isinstance(got, R):
                    got = (got, toR(0))
                if any(b and c == eqkey(MOD(ex[0])) or b and c == eqkey(A2(ex[0])) for c, b in m.conds):
                    if not (got[0].iszero() and got[1].iszero()):
                        rep.bad("value:sqrt:0", f["file"], f["ln"], "sqrt(0) is not 0")
                    continue
                g = cmul(got, got)
                if not same(g, ex[0]):
                    rep.bad("value:sqrt", f["file"], f["ln"], "the square of sqrt(x) is %s on a path, not x" % show(g))
            elif f["base"] == "arg":
                want = fn("atan2", ex[0][1], ex[0][0])
                if got.same(want):
                    continue
                imzero = (eqkey(ex[0][1]), True) in m.conds
                lt = ("rel", "<", ex[0][0].key())
                neg = (lt, True) in m.conds
                notneg = (lt, False) in m.conds or (("rel", "<", (-ex[0][0]).key()), True) in m.conds
                if imzero and notneg and got.iszero():
                    continue
                if imzero and neg and got.n.isconst() and abs(float(got.n.cval()) / float(got.d.cval()) - 3.141592653589793) < 1e-12:
                    continue
                if got.n.isconst():
                    rep.bad("value:arg", f["file"], f["ln"],
                            "arg(x) is the constant %s on a path where x may be a negative real number, whose argument is pi" % text(got))
                else:
                    rep.bad("value:arg", f["file"], f["ln"], "arg(x) is not atan2(im, re) on a path")
            elif f["base"] == "pow":
                if any(b and c in (eqkey(ex[0][0]), eqkey(ex[0][1])) for c, b in m.conds) and isinstance(got, R):
                    got = (got, toR(0))
                if got[0].n.isconst() and got[1].n.isconst():
                    rep.count("pow_zero_base_paths")
                    continue
                w = r(ex[1]) if ks[1] == "D" else ex[1]
                th = [fn("atan2", ex[0][1], ex[0][0]), toR(0), None]
                logr = fn("log", A2(ex[0])) * R(Poly.const(Half))
                ok = False
                pi = [s for s in syms(got) if False]
                cands = [fn("atan2", ex[0][1], ex[0][0]), toR(0), R(PI)]
                for t in cands:
                    e = cmul((logr, t), w)
                    x = fn("exp", e[0])
                    if same(got, (x * fn("cos", e[1]), x * fn("sin", e[1]))):
                        ok = True
                if not ok:
                    rep.bad("value:pow:" + ks, f["file"], f["ln"], "pow(z,w) is not exp(w log z) on a path")
    except (Undecided, ZeroDivisionError) as e:
        rep.undecided.append("%s: %s" % (f["id"], e))


from fractions import Fraction
Half = Fraction(1, 2)
PI = Poly.const(Fraction("3.14159265358979323846"))


def syms(v):
    return []


def eqkey(d):
    a, b = d.key(), (-d).key()
    return ("rel", "==", a if repr(a) < repr(b) else b)
