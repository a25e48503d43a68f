"""C07: a transform runs only in the in-place/out-of-place mode it was constructed for."""
import itertools, os
from ..common import load
from ..algebra import R, Undecided, toR, P, Poly
from ..xform import Xf, NULL, clean

EXPLANATION = """Abstract interpretation (value numbering) of the constructors and of every public transform entry point of the classes derived
from fftw (serial classes and their multiple forms) and of Transpose, once for each relation between the two array arguments (output
omitted, same as input, different) and each construction mode."""
RULE = """violation: a constructor records a mode other than "in place iff the output is omitted or is the input", or
plans with other arrays than it was given; an entry point whose arguments disagree with the recorded mode reaches an
execution or returns, instead of exiting with nonzero status; or one whose arguments agree does not execute exactly
once, on the given input and on the effective output (the input when the output is omitted)."""
ASSUMPTIONS = ["arrays are aligned (otherwise a warning is printed)", "an Array argument is a pointer to its data", "plan creation itself is FFTW's"]
TECHNIQUE = "abstract interpretation over all argument/mode relations (typestate of the mode flag)"
NOTE = "Finite case split, complete for the evaluated entry points."

ENTRY = ("fft", "fft0", "fftNormalized", "fft0Normalized")
PTR = ("Complex *", "double *")


def transforms(p):
    out = []
    for c in p.classes.values():
        if "fftwpp::fftw" in p.bases(c["name"])[1:] and "fftwblock" not in c["name"]:
            out.append(c["name"])
    return sorted(out)


def ptrs(f):
    return [i for i, q in enumerate(f["params"]) if clean(q["t"]) in PTR]


def arg(q):
    return R(Poly.sym(("arg", q["n"])))


def run(rep, tier):
    p = load(["stub_fftw"])
    cl = transforms(p)
    rep.count("classes", len(cl))
    for c in cl:
        for f in p.defs():
            if f["kind"] == "ctor" and f.get("cls") == c and ptrs(f):
                guard(rep, "constructor of " + c, mode, p, rep, c, f)
        for b in p.bases(c):
            for f in p.defs():
                if f.get("cls") == b and f["base"] in ENTRY and f["acc"] == "public" and f["kind"] == "method" and len(ptrs(f)) == 2:
                    guard(rep, "%s on %s" % (f["id"], c), entry, p, rep, c, f)
    T = "fftwpp::Transpose"
    for f in p.defs():
        if f.get("cls") == T and f["kind"] == "ctor" and len(ptrs(f)) == 2:
            guard(rep, "constructor of Transpose", mode, p, rep, T, f)
        if f.get("cls") == T and f["base"] == "transpose" and len(ptrs(f)) == 2:
            guard(rep, f["id"], entry, p, rep, T, f)
    for f in p.defs():
        c = (f.get("cls") or "").split("::")[-1]
        if c in ("mfft1d", "mrcfft1d", "mcrfft1d") and f["base"] in ENTRY and f["kind"] == "method":
            guard(rep, f["id"], delegate, p, rep, f)
    rep.need("classes", 8)
    rep.need("constructor_cases", 30)
    rep.need("entry_cases", 200)


def guard(rep, what, fn, *a):
    try:
        fn(*a)
    except (Undecided, RecursionError) as e:
        if os.environ.get("VERIF_TRACE"):
            import traceback
            traceback.print_exc()
        rep.undecided.append("%s: %s" % (what, e))


def short(f):
    return f["name"].replace("fftwpp::", "") + "(" + ",".join(q["t"].replace(" ", "") for q in f["params"]) + ")"


def mode(p, rep, c, f):
    """too many branches on the sizes: sizes are instantiated, arrays, threads and plan outcomes stay symbolic"""
    try:
        modes(p, rep, c, f, {})
    except Undecided as e:
        if "paths" not in str(e):
            raise
        for v in ({"nx": 6, "M": 3}, {"nx": 5, "M": 1}, {"nx": 4, "M": 4, "dist": 9, "idist": 9, "odist": 7}):
            modes(p, rep, c, f, v)


def modes(p, rep, c, f, inst):
    ix = ptrs(f)

    def arg(q):
        if not inst or q["n"] == "threads" or "int" == q["t"]:
            return R(Poly.sym(("arg", q["n"])))
        return toR(inst.get(q["n"], 1))
    two = len(ix) == 2
    for i, o in itertools.product((("sym", "in"), NULL), ((NULL, ("sym", "in"), ("sym", "out")) if two else (NULL,))):
        if i == NULL and o != NULL:
            continue
        args = []
        for k, q in enumerate(f["params"]):
            args.append(i if k == ix[0] else o if two and k == ix[1] else arg(q))
        want = o in (NULL, i)
        I = Xf(p, c, record=("Execute", "time", "Normalize"))
        for r, m, ex in I.runall(f, args):
            rep.count("constructor_paths")
            if ex:
                continue
            got = m.fields.get((I.obj, "inplace"))
            if got is None:
                raise Undecided("mode not set")
            m2, I.m = I.m, m
            try:
                b = I.truth(got)
            finally:
                I.m = m2
            key = short(f)
            if b != want:
                rep.bad("mode:" + key, f["file"], f["ln"], "%s records %s mode when the output is %s" % (
                    key, "in-place" if b else "out-of-place", "omitted" if o == NULL else "the input" if o == i else "another array"))
            for e in m.events:
                if e[0] == "call" and len(e[4]) >= 2 and (e[1] in ("planner", "(indirect)") or e[3] is not None and "planner" in str(e[3])):
                    rep.count("planning_calls")
                    a = e[4][-2:]
                    if i != NULL and (a[0] != i or a[1] != (i if want else o)):
                        rep.bad("plan-arrays:" + key, f["file"], e[5] or f["ln"], "%s plans with arrays other than the ones it is given" % key)
                    if i == NULL and a[0] != a[1]:
                        rep.bad("plan-arrays:" + key, f["file"], e[5] or f["ln"], "%s plans an in-place transform with two arrays" % key)
        rep.count("constructor_cases")


def entry(p, rep, c, f):
    ix = ptrs(f)
    i = ("sym", "in")
    for o, inplace in itertools.product((NULL, i, ("sym", "out")), (0, 1)):
        args = []
        for k, q in enumerate(f["params"]):
            args.append(i if k == ix[0] else o if k == ix[1] else arg(q))
        eff = i if o == NULL else o
        I = Xf(p, c, {"inplace": toR(inplace), "plan": ("sym", "plan")})
        agree = bool(inplace) == (eff == i)
        key = "%s on %s" % (short(f), c.split("::")[-1])
        for r, m, ex in I.runall(f, args):
            rep.count("entry_paths")
            x = [e for e in m.events if e[0] == "call" and (e[1] == "Execute" or e[1].startswith("fftw_execute"))]
            ln = x[0][5] if x and x[0][5] else f["ln"]
            how = "the output is %s and the transform was built %s" % (
                "omitted" if o == NULL else "the input" if o == i else "another array", "in place" if inplace else "out of place")
            if not agree:
                if x:
                    rep.bad("mismatch:" + key, f["file"], ln, "%s executes when %s" % (key, how))
                elif not ex:
                    rep.bad("mismatch:" + key, f["file"], ln, "%s returns without terminating when %s" % (key, how))
                else:
                    s = [e for e in m.events if e[0] == "exit"][-1][1]
                    if isinstance(s, R) and s.iszero():
                        rep.bad("status:" + key, f["file"], ln, "%s exits with status 0 when %s" % (key, how))
                continue
            if ex or len(x) != 1:
                rep.bad("match:" + key, f["file"], ln, "%s %s when %s" % (key, "exits" if ex else "executes %d times" % len(x), how))
                continue
            a = [v for v in x[0][4] if I.opaque(v) and (v[0] in ("sym", "off") and v != ("sym", "plan"))]
            if a[:2] != [i, eff]:
                rep.bad("arrays:" + key, f["file"], ln, "%s executes on other arrays than the given input and effective output when %s" % (key, how))
        rep.count("entry_cases")


def delegate(p, rep, f):
    c = f["cls"]
    ix = ptrs(f)
    A = [("sym", "in"), ("sym", "out")][:len(ix)]
    for single in (0, 1):
        I = Xf(p, c, {"single": toR(single), "fft1": ("sym", "fft1"), "fftm": ("sym", "fftm")})
        for r, m, ex in I.runall(f, A):
            x = [e for e in m.events if e[0] == "call"]
            key = short(f)
            if ex or len(x) != 1 or x[0][1] != f["base"] or x[0][3] != ("sym", "fft1" if single else "fftm"):
                rep.bad("delegate:" + key, f["file"], f["ln"], "%s does not call %s of its %s exactly once" % (
                    key, f["base"], "single transform" if single else "multiple transform"))
            elif [v for v in x[0][4] if v != NULL] != A or x[0][4][:len(A)] != A:
                rep.bad("delegate:" + key, f["file"], f["ln"], "%s does not pass its arrays, in order, to %s" % (key, f["base"]))
        rep.count("delegations")
