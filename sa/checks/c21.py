"""C21: the SIMD primitives compute their documented complex products, in both builds."""
from ..common import load
from ..algebra import Interp, R, Undecided, fn, toR, P, Poly, norm
from .c20 import same, show, text, cmul, value

EXPLANATION = """Value numbering over rational functions of every primitive of cmult-sse2.h (ZMULT, ZCMULT,
ZMULTI, ZCMULTI, ZMULT2, CONJ, FLIP, UNPACKL/H, LOAD*, STORE, SQRT) in two builds of the headers: with
SSE2 intrinsics and sign masks (whose constants are folded) and with the portable class Vec; each is
compared with the definition over the complex numbers, so both builds are proved to agree."""
RULE = """violation: a primitive returns, on some path of either build, a pair that is not identical as a
rational function to its definition, or stores anything else than its operand where it should."""
ASSUMPTIONS = ["real arithmetic: rounding and signed zeros are not considered",
               "the preset forms of ZMULT/ZMULT2/ZMULTI are called with (re,re),(im,-im) (or (re,-re),(im,im)) as documented"]
TECHNIQUE = "value numbering (abstract interpretation over rational functions) of the SIMD primitives"
NOTE = "Formal identities: they hold for all operand values."

cj = lambda z: (z[0], -z[1])
I_ = lambda z: (-z[1], z[0])
add = lambda a, b: (a[0] + b[0], a[1] + b[1])
SPEC = {
    ("UNPACKL", "VV"): lambda z, w: (z[0], w[0]),
    ("UNPACKH", "VV"): lambda z, w: (z[1], w[1]),
    ("FLIP", "V"): lambda z: (z[1], z[0]),
    ("CONJ", "V"): cj,
    ("REFL", "V"): lambda z: (-z[0], z[1]),
    ("ZMULTI", "V"): I_,
    ("SQRT", "V"): lambda z: (fn("sqrt", z[0]), fn("sqrt", z[1])),
    ("LOAD2", "D"): lambda x: (x, x),
    ("LOAD", "D"): lambda x: (x, toR(0)),
    ("LOADFLIP", "P"): lambda z: (z[1], z[0]),
    ("LOAD", "P"): lambda z: z,
    ("LOAD", "Q"): lambda z: z,
    ("ZMULT", "VV"): cmul,
    ("ZCMULT", "VV"): lambda z, w: cmul(cj(z), w),
    ("ZMULTI", "VV"): lambda z, w: cmul(z, I_(w)),
    ("ZCMULTI", "VV"): lambda z, w: cmul(cj(z), I_(w)),
    ("ZMULT2", "VVV"): lambda z, w, v: add(cmul(z, w), cmul(cj(z), v)),
    # x=(z.re,z.re) y=(z.im,-z.im)
    ("ZMULT", "xyV"): lambda z, w: cmul(z, w),
    ("ZMULT2", "xyVV"): lambda z, w, v: add(cmul(z, w), cmul(cj(z), v)),
    # x=(z.re,-z.re) y=(z.im,z.im)
    ("ZMULTI", "uvV"): lambda z, w: cmul(z, I_(w)),
    ("operator-", "V"): lambda z: (-z[0], -z[1]),
    ("operator+", "VV"): add,
    ("operator-", "VV"): lambda a, b: (a[0] - b[0], a[1] - b[1]),
    ("operator*", "VV"): lambda a, b: (a[0] * b[0], a[1] * b[1]),
}
PRESET = {("ZMULT", "VVV"): "xyV", ("ZMULT2", "VVVV"): "xyVV", ("ZMULTI", "VVV"): "uvV"}


def kinds(f):
    s = ""
    for p in f["params"]:
        t = norm(p["t"]).replace("const", "").strip()
        b = t.rstrip("& ").strip()
        if b in ("Vec", "fftwpp::Vec"):
            s += "V"
        elif b == "double":
            s += "D"
        elif b == "Complex *":
            s += "P"
        elif b == "double *":
            s += "Q"
        elif b == "Complex":
            s += "C"
        else:
            s += "?"
    return s


def pair(n):
    return (R(Poly.sym((n, "re"))), R(Poly.sym((n, "im"))))


def run(rep, tier):
    for build in ("convolve", "convolve_nosse"):
        p = load([build])
        tag = "sse2" if build == "convolve" else "portable"
        for f in sorted(p.defs(), key=lambda f: f["ln"]):
            if not f["file"].endswith("cmult-sse2.h") or f.get("body") is None:
                continue
            ks = kinds(f)
            if f.get("cls"):
                if f["cls"].endswith("Vec"):
                    member(p, rep, f, ks, tag)
                continue
            if f["base"] == "STORE":
                store(p, rep, f, ks, tag)
                continue
            key = (f["base"], PRESET.get((f["base"], ks), ks))
            spec = SPEC.get(key)
            if spec is None:
                rep.undecided.append("%s (%s): no specification" % (f["id"], tag))
                continue
            rep.count("functions_" + tag)
            try:
                one(p, rep, f, key, spec, tag)
            except (Undecided, ZeroDivisionError) as e:
                rep.undecided.append("%s (%s): %s" % (f["id"], tag, e))
    rep.need("functions_sse2", 14)
    rep.need("functions_portable", 14)


def one(p, rep, f, key, spec, tag):
    I = Interp(p)
    I.preset = {}
    args, ex = [], []
    z = pair("z")
    def obj(n, v):
        I.preset[(("arg", n), P(0))], I.preset[(("arg", n), P(1))] = v
        return ("agg", ("arg", n), P(0))
    for i, k in enumerate(key[1]):
        n = "abcd"[i]
        if k in "xu":
            args.append(obj(n, (z[0], z[0] if k == "x" else -z[0])))
            ex.append(z)
        elif k in "yv":
            args.append(obj(n, (z[1], -z[1] if k == "y" else z[1])))
        elif k == "V":
            v = pair(n)
            args.append(obj(n, v))
            ex.append(v)
        elif k == "D":
            v = R(Poly.sym((n, "d")))
            args.append(v)
            ex.append(v)
        else:
            v = pair(n)
            o = obj(n, v)
            args.append(("ptr", o[1], o[2]))
            ex.append(v)
    want = spec(*ex)
    for v, m in I.run(f, args):
        I.m = m
        rep.count("paths")
        got = value(I, v)
        if not same(want, got):
            rep.bad("value:%s:%s:%s" % (tag, f["base"], key[1]), f["file"], f["ln"],
                    "in the %s build %s/%d computes %s, not %s" % (tag, f["base"], len(f["params"]), show(got), show(want)))


def store(p, rep, f, ks, tag):
    rep.count("functions_" + tag)
    try:
        I = Interp(p)
        v = pair("v")
        I.preset = {(("arg", "v"), P(0)): v[0], (("arg", "v"), P(1)): v[1]}
        for _, m in I.run(f, [("ptr", ("arg", "z"), P(0)), ("agg", ("arg", "v"), P(0))]):
            I.m = m
            got = (m.load(("arg", "z"), P(0)), m.load(("arg", "z"), P(1)))
            rest = [k for k in m.stores if k[0] == ("arg", "z") and k[1] not in (P(0), P(1)) or k[0] == ("arg", "v")]
            if not same(v, got) or rest:
                rep.bad("value:%s:STORE:%s" % (tag, ks), f["file"], f["ln"], "in the %s build STORE writes %s" % (tag, show(got)))
    except Undecided as e:
        rep.undecided.append("%s (%s): %s" % (f["id"], tag, e))


def member(p, rep, f, ks, tag):
    n = f["base"]
    ops = {"operator+=": "operator+", "operator-=": "operator-", "operator*=": "operator*"}
    ctor = {"DD": lambda a, b: (a, b), "V": lambda z: z, "C": lambda z: z}
    if n not in ops and not (f["kind"] == "ctor" and ks in ctor):
        return
    rep.count("functions_" + tag)
    try:
        I = Interp(p)
        a, b = pair("a"), pair("b")
        I.preset = {(("arg", "a"), P(0)): a[0], (("arg", "a"), P(1)): a[1], (("arg", "b"), P(0)): b[0], (("arg", "b"), P(1)): b[1]}
        t = ("agg", ("arg", "a"), P(0))
        o = ("agg", ("arg", "b"), P(0))
        if f["kind"] == "ctor":
            args = [b[0], b[1]] if ks == "DD" else [o]
            want = b
        else:
            args, want = [o], SPEC[(ops[n], "VV")](a, b)
        for v, m in I.run(f, args, t):
            I.m = m
            got = I.get(t)
            if not same(want, got):
                rep.bad("value:%s:Vec::%s:%s" % (tag, n, ks), f["file"], f["ln"], "in the %s build Vec::%s leaves %s, not %s" % (tag, n, show(got), show(want)))
        if n in ops:
            w = SPEC[(ops[n], "VV")](a, a)
            for v, m in I.run(f, [t], t):
                I.m = m
                if not same(w, I.get(t)):
                    rep.bad("alias:%s:Vec::%s" % (tag, n), f["file"], f["ln"], "in the %s build x %s x is wrong" % (tag, n[8:]))
    except (Undecided, ZeroDivisionError) as e:
        rep.undecided.append("%s (%s): %s" % (f["id"], tag, e))
