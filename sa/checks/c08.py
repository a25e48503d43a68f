"""C08: every transform object plans, executes, shifts and normalizes the transform its constructor describes."""
import itertools, os, re
from fractions import Fraction
from ..common import load
from ..algebra import R, Undecided, toR, P, Poly, fn
from ..wrapctor import Unknown, ev_r, ev_key, ev_cond
from ..xform import Xf, NULL, clean
from .c07 import transforms, ptrs, guard, short, ENTRY, PTR

EXPLANATION = """Abstract interpretation (value numbering), per transform class: the constructors (members and normalization factor as functions of
the parameters), Plan (the FFTW planner call), Execute (shift and execution, both modes), the normalized entry points and
Normalize (stores with their loop ranges), fftwblock::init and its block decomposition, the mfft1d family's choice of a
single or multiple transform, and the dimensions of Transpose."""
RULE = """violation: the planner call differs from the constructor's sizes, count, strides, distances or sign, or its kind from
the execution's; the factor is not 1/(logical size); a normalized entry point does not scale, after executing, each output
element exactly once and nothing beyond the output; a shift happens other than for fft0, on the wrong side or array; the blocks of
a multithreaded multiple transform do not tile 0..M-1; a wrapper or Transpose plans other dimensions than it was given."""
ASSUMPTIONS = ["FFTW's planner and execute functions implement their documentation", "sizes and counts are positive"]
TECHNIQUE = "abstract interpretation with value numbering; identities formal, disagreement refuted by a small instance of the extracted formula"
NOTE = "Expressions are extracted symbolically; disagreement needs a concrete small instance, so equal expressions written differently agree."

NAME = re.compile(r"^(M|m)?(rc|cr)?fft([123])d$")
SZ = ("unsigned long", "size_t", "unsigned int")


def run(rep, tier):
    p = load(["stub_fftw"])
    for c in transforms(p):
        m = NAME.match(c.split("::")[-1])
        if not m or m.group(1) == "m":
            continue
        for f in p.defs():
            if f["kind"] == "ctor" and f.get("cls") == c and ptrs(f):
                guard(rep, short(f), ctor, p, rep, c, m, f)
        guard(rep, "Execute of " + c, execute, p, rep, c, m)
        for b in p.bases(c):
            for f in p.defs():
                if f.get("cls") == b and f["base"] in ENTRY and f["acc"] == "public" and len(ptrs(f)) == 2:
                    guard(rep, "%s on %s" % (short(f), c), entry, p, rep, c, m, f)
    for f in p.defs():
        if f["kind"] == "ctor" and re.match(r"^fftwpp::m(rc|cr)?fft1d$", f.get("cls") or "") and ptrs(f):
            guard(rep, short(f), wrapper, p, rep, f)
        if f["base"] == "init" and "::fftwblock<" in f["name"]:
            guard(rep, f["id"][:80], init, p, rep, f)
        if (f.get("cls") or "") == "fftwpp::Transpose" and f["kind"] == "ctor" and len(ptrs(f)) == 2:
            guard(rep, short(f), transpose, p, rep, f)
    rep.need("plans", 10)
    rep.need("norms", 10)
    rep.need("executions", 20)
    rep.need("normalizations", 10)


def sym(n):
    return R(Poly.sym(("arg", n)))


def key(n):
    return ("arg", n)


class Spec:
    """what a constructor's parameters describe"""

    def __init__(self, m, f):
        self.kind = m.group(2) or ""
        self.many = bool(m.group(1))
        d = int(m.group(3))
        s = [q["n"] for q in f["params"] if q["t"] in SZ]
        if s and f["params"][-1]["t"] in SZ:
            s = s[:-1]                              # threads
        self.sign = [q["n"] for q in f["params"] if q["t"] == "int"]
        if len(self.sign) != (0 if self.kind else 1):
            raise Undecided("signature")
        self.names = s
        self.threads = f["params"][-1]["n"]
        if self.many:
            if len(s) == 2:
                self.many = dict(n=s[0], M=s[1], st=(None, None), di=(None, None))
            elif len(s) == 4:
                self.many = dict(n=s[0], M=s[1], st=(s[2], s[2]), di=(s[3], s[3]))
            elif len(s) == 6:
                self.many = dict(n=s[0], M=s[1], st=(s[2], s[3]), di=(s[4], s[5]))
            else:
                raise Undecided("signature")
            self.dims = [s[0]]
        else:
            if len(s) != d:
                raise Undecided("signature")
            self.dims = s

    def env(self, lo=1):
        """small instances of the parameters"""
        if self.many:
            m = self.many
            for n, M in itertools.product((1, 2, 3, 4, 5), (1, 2, 3)):
                for s in itertools.product((1, 2), (1, 3)):
                    for d in itertools.product((0, n * 3 + 1), (0, n * 3 + 2)):
                        e = {key(m["n"]): n, key(m["M"]): M}
                        for k in (0, 1):
                            if m["st"][k]:
                                e[key(m["st"][k])] = s[k]
                            if m["di"][k]:
                                e[key(m["di"][k])] = d[k]
                        yield self.fin(e)
        else:
            for v in itertools.product(*[(1, 2, 3, 4, 5), (2, 3, 4), (1, 2, 5)][:len(self.dims)]):
                yield self.fin({key(n): x for n, x in zip(self.dims, v)})

    def fin(self, e):
        e[key(self.threads)] = 2
        for s in self.sign:
            e[key(s)] = -1
        return {k: Fraction(v) for k, v in e.items()}

    def geometry(self, e):
        """n, M, (istride, ostride), (idist, odist) of a multiple transform"""
        m = self.many
        n, M = e[key(m["n"])], e[key(m["M"])]
        st = tuple(e[key(x)] if x else Fraction(1) for x in m["st"])
        di = []
        for k in (0, 1):
            x = e[key(m["di"][k])] if m["di"][k] else n
            di.append(x if x else (n if st[k] == 1 else Fraction(1)))
        return n, M, st, tuple(di)


def sat(conds, env):
    """do the instance's decided conditions hold on this path?"""
    for c, b in conds:
        try:
            if ev_cond(c, env) != b:
                return False
        except (Unknown, KeyError, IndexError, TypeError):
            continue
    return True


def number(v, env):
    if v is True or v is False:
        return Fraction(int(v))
    if not isinstance(v, R):
        raise Unknown
    return ev_r(v, env)


def construct(p, c, f, i=("sym", "in"), o=("sym", "out")):
    ix = ptrs(f)
    args = []
    for k, q in enumerate(f["params"]):
        args.append(i if k == ix[0] else o if len(ix) == 2 and k == ix[1] else sym(q["n"]))
    I = Xf(p, c, record=("Setup", "init", "Execute", "Normalize"))
    return I, I.runall(f, args)


def planner(p, c, fields, over=None):
    """planner calls of Plan(in,out) in dynamic class c: [(conds, event)]"""
    base = [f for f in p.defs() if f["base"] == "Plan" and f.get("cls") == "fftwpp::fftw"]
    if not base:
        raise Undecided("no Plan")
    g = p.override_in(base[0]["id"], c)
    I = Xf(p, c)
    I.fields0 = {k[1]: v for k, v in fields.items()}
    I.fields0.update(over or {})
    out = []
    for r, m, ex in I.runall(g, [("sym", "in"), ("sym", "out")]):
        out.append((g, r, m, [e for e in m.events if e[0] == "call" and e[1].startswith("fftw_plan")]))
    return I, out


def ctor(p, rep, c, m, f):
    sp = Spec(m, f)
    name = short(f)
    ix = ptrs(f)
    for i, o in ([(("sym", "in"), ("sym", "out")), (("sym", "in"), NULL)] if len(ix) == 2 else [(("sym", "in"), NULL)]):
        I, paths = construct(p, c, f, i, o)
        rep.count("constructor_paths", len(paths))
        done = set()
        for r, mm, ex in paths:
            F = mm.fields
            nv = F.get((I.obj, "norm"))
            envs = [e for e in sp.env() if sat(mm.conds, e)]
            if not envs:
                continue
            # normalization factor
            if nv is None:
                raise Undecided("norm not set")
            for e in envs:
                N = Fraction(1)
                for d in sp.dims:
                    N *= e[key(d)]
                try:
                    x = number(nv, e)
                except Unknown:
                    rep.undecided.append(name + ": norm")
                    break
                rep.count("norm_instances")
                if x * N != 1:
                    rep.bad("norm:" + name, f["file"], f["ln"], "%s sets the normalization factor to %s, not to 1/(logical size), for example %s" % (
                        name, x, show(e)))
                    break
            rep.count("norms")
            over = {}
            if sp.many:
                over = {"Q": R(Poly.sym(("Q",))), "R": R(Poly.sym(("R",))), "plan2": NULL}
            J, plans = planner(p, c, F, over)
            for g, res, pm, ev in plans:
                want = 1 + (any("'R'" in repr(k) and b for k, b in pm.conds) if sp.many else 0)
                if not ev:
                    rep.bad("plan:" + c, g["file"], g["ln"], "%s::Plan creates no plan" % short2(c))
                    continue
                if sp.many:
                    counts(rep, c, g, res, pm, J)
                for e in ev:
                    planargs(p, rep, sp, c, name, g, e, F, envs, mm.conds + pm.conds)
            rep.count("plans")
            # extent of a plain normalization
            key2 = (repr(F.get((I.obj, "doubles"))), repr(mm.conds))
            if key2 not in done:
                done.add(key2)
                extent(p, rep, c, m, f, sp, F, envs, mm, inplace=(o == NULL))


def counts(rep, c, g, res, pm, J):
    """Plan returns the plan of Q transforms and keeps in plan2 the plan of Q+1"""
    for v, k, what in ((res, 0, "returned plan"), (pm.fields.get((J.obj, "plan2")), 1, "second plan")):
        if isinstance(v, tuple) and v[0] == "res" and pm.events[v[1]][1].startswith("fftw_plan_many"):
            h = pm.events[v[1]][4][2]
            if isinstance(h, R) and not h.same(R(Poly.sym(("Q",))) + toR(k)):
                rep.bad("plan-count:%s:%d" % (short2(c), k), g["file"], g["ln"], "the %s of %s is for %s transforms instead of %s" % (
                    what, short2(c), h, "Q+1" if k else "Q"))


def short2(c):
    return c.split("::")[-1]


def show(e):
    return ", ".join("%s=%s" % (k[-1], v) for k, v in e.items() if k[0] == "arg" and k[-1] not in ("threads", "sign"))


def planargs(p, rep, sp, c, name, g, e, F, envs, conds):
    fnm = e[1]
    a = e[4]
    suffix = {"": "dft", "rc": "dft_r2c", "cr": "dft_c2r"}[sp.kind]
    d = len(sp.dims)
    many = fnm == "fftw_plan_many_" + suffix
    want = "fftw_plan_%s%s" % ("many_" if sp.many else "", suffix) + ("" if sp.many else "_%dd" % d)
    where = g["file"], e[5] or g["ln"]
    if fnm != want:
        if not (many or fnm.startswith("fftw_plan_dft") or fnm.startswith("fftw_plan_many")):
            raise Undecided("planner " + fnm)
        rep.bad("planner:" + name, *where, msg="%s plans with %s where %s is described" % (name, fnm, want))
        return

    def differs(v, w, what):
        for x in envs:
            x = dict(x)
            x[("Q",)] = Fraction(3)
            x[("R",)] = Fraction(1)
            if not sat(conds, x):
                continue
            try:
                if number(v, x) != w(x):
                    rep.bad("plan-%s:%s" % (what.split()[0], name), *where, msg="%s plans with %s %s, for example %s" % (name, what, v, show(x)))
                    return
            except Unknown:
                rep.undecided.append("%s: %s" % (name, what))
                return
        rep.count("plan_arguments")

    if not sp.many:
        for k, n in enumerate(sp.dims):
            differs(a[k], lambda x, n=n: x[key(n)], "size %d" % (k + 1))
        if a[d] != ("sym", "in") or a[d + 1] != ("sym", "out"):
            rep.bad("plan-arrays:" + name, *where, msg="%s does not plan for its input and output in order" % name)
        if not sp.kind:
            differs(a[d + 2], lambda x: x[key(sp.sign[0])], "sign")
        return
    if not (isinstance(a[1], tuple) and a[1][0] == "addr"):
        raise Undecided("size argument")
    differs(a[0], lambda x: 1, "rank")
    differs(a[1][1], lambda x: sp.geometry(x)[0], "size")
    if not isinstance(a[2], R) or not any(a[2].same(R(Poly.sym(("Q",))) + toR(k)) for k in (0, 1)):
        rep.bad("plan-howmany:" + name, *where, msg="%s plans for a number of transforms other than Q or Q+1" % name)
    differs(a[5], lambda x: sp.geometry(x)[2][0], "input stride")
    differs(a[6], lambda x: sp.geometry(x)[3][0], "input distance")
    differs(a[9], lambda x: sp.geometry(x)[2][1], "output stride")
    differs(a[10], lambda x: sp.geometry(x)[3][1], "output distance")
    if a[3] != ("sym", "in") or a[7] != ("sym", "out"):
        rep.bad("plan-arrays:" + name, *where, msg="%s does not plan for its input and output in order" % name)
    if a[4] != NULL or a[8] != NULL:
        raise Undecided("embedding")
    if not sp.kind:
        differs(a[11], lambda x: x[key(sp.sign[0])], "sign")


# ---------------------------------------------------------------- execution
def execute(p, rep, c, m):
    kind = m.group(2) or ""
    base = [f for f in p.defs() if f["base"] == "Execute" and f.get("cls") == "fftwpp::fftw"]
    g = p.override_in(base[0]["id"], c)
    nm = "%s::Execute" % short2(c)
    want = {"": "fftw_execute_dft", "rc": "fftw_execute_dft_r2c", "cr": "fftw_execute_dft_c2r"}[kind]
    shifts = kind and int(m.group(3)) > 1
    dims = ["nx", "ny", "nz"][:int(m.group(3))]
    for inplace, shift in itertools.product((0, 1), (False, True)):
        i = ("sym", "in")
        o = i if inplace else ("sym", "out")
        I = Xf(p, c, {"inplace": toR(inplace), "plan": ("sym", "plan"), "plan1": ("sym", "plan1"), "plan2": ("sym", "plan2")},
               record=("Shift", "Normalize"))
        for r, mm, ex in I.runall(g, [i, o, shift]):
            rep.count("executions")
            x = [(k, e) for k, e in enumerate(mm.events) if e[0] == "call" and e[1].startswith("fftw_execute")]
            s = [(k, e) for k, e in enumerate(mm.events) if e[0] == "call" and e[1] == "Shift"]
            ln = x[0][1][5] if x else g["ln"]
            blocks = any(e[6] for _, e in x)
            if blocks:
                tile(p, rep, c, m, g, mm, x, want, o[1])
                continue
            if len(x) != 1:
                if m.group(1) and any("'T'" in repr(k) for k, b in mm.conds):
                    raise Undecided("block structure")
                rep.bad("execute:" + nm, g["file"], ln, "%s executes %d plans" % (nm, len(x)))
                continue
            k, e = x[0]
            if e[1] != want:
                rep.bad("execute:" + nm, g["file"], ln, "%s executes with %s instead of %s" % (nm, e[1], want))
            elif e[4] != [("sym", "plan"), i, o]:
                rep.bad("execute:" + nm, g["file"], ln, "%s does not execute its plan on its input and output" % nm)
            if bool(s) != bool(shift and shifts) or len(s) > 1:
                rep.bad("shift:" + nm, g["file"], ln, "%s %s for a%s transform" % (
                    nm, "shifts" if s else "does not shift", " shifted" if shift else "n unshifted"))
            elif s:
                ks, es = s[0]
                f = p.funcs.get(es[2])
                t = clean(f["params"][0]["t"]) if f else ""
                data = i if kind == "rc" else o
                if (ks < k) != (kind == "rc") or es[4][0] != data:
                    rep.bad("shift:" + nm, g["file"], es[5] or ln, "%s shifts %s instead of its real data" % (nm, "before executing" if ks < k else "after executing"))
                elif t != ("Complex *" if inplace else "double *"):
                    rep.bad("shift:" + nm, g["file"], es[5] or ln, "%s uses the %s shift for an %s transform" % (
                        nm, "in-place" if t == "Complex *" else "out-of-place", "in-place" if inplace else "out-of-place"))
                elif [repr(v) for v in es[4][1:1 + len(dims)]] != [repr(R(Poly.sym(("fld", d)))) for d in dims]:
                    rep.bad("shift:" + nm, g["file"], es[5] or ln, "%s does not shift with its sizes" % nm)


def tile(p, rep, c, m, g, mm, x, want, oname):
    """the blocks executed by the threads of a multiple transform tile 0..M-1"""
    nm = "%s::Execute" % short2(c)
    e = x[0][1]
    if len(x) != 1 or len(e[6]) != 1:
        raise Undecided("block structure")
    if e[1] != want:
        rep.bad("execute:" + nm, g["file"], e[5], "%s executes with %s instead of %s" % (nm, e[1], want))
        return
    plan, i, o = e[4][0], e[4][1], e[4][2]
    if plan not in (("sym", "plan1"), ("sym", "plan2")):
        rep.bad("blocks:" + nm, g["file"], e[5], "%s executes the plan of all transforms on a block" % nm)
        return
    T = TILES.setdefault((id(p), c, repr([k for k, b in mm.conds if "loop" not in repr(k)])), [])
    T.append((mm, e))
    # evaluate when both kinds of block are known
    kinds = {q[1][4][0] for q in T}
    if len(kinds) < 2:
        return
    TILES.pop((id(p), c, repr([k for k, b in mm.conds if "loop" not in repr(k)])))
    for M in range(2, 14):
        for t in range(2, M + 1):
            q, r = M // t, M % t
            env0 = {("fld", "M"): Fraction(M), ("fld", "T"): Fraction(t), ("fld", "Q"): Fraction(q), ("fld", "R"): Fraction(r),
                    ("fld", "idist"): Fraction(101), ("fld", "odist"): Fraction(103)}
            cov = []
            try:
                v, lo, hi, st = T[0][1][6][0]
                a, b = ev_r(lo, env0), ev_r(hi, env0)
                k = a
                while k < b:
                    hit = 0
                    for mm2, e2 in T:
                        vv, l2, h2, s2 = e2[6][0]
                        env = dict(env0)
                        env[next(iter(next(iter(vv.n.t))))[0]] = k
                        if not all(ev_cond(cc, env) == bb for cc, bb in mm2.conds):
                            continue
                        hit += 1
                        n = q if e2[4][0] == ("sym", "plan1") else q + 1
                        oi, oo = offset(e2[4][1], "in", env), offset(e2[4][2], oname, env)
                        if oi / 101 != oo / 103 or (oi / 101).denominator != 1:
                            rep.bad("blocks:" + nm, g["file"], e2[5], "%s starts block %s of %d at input %s and output %s (M=%d)" % (
                                nm, k, t, oi / 101, oo / 103, M))
                            return
                        cov += [oi / 101 + z for z in range(n)]
                    if hit != 1:
                        raise Unknown
                    k += ev_r(st, env0)
            except (Unknown, KeyError, ZeroDivisionError, StopIteration):
                raise Undecided("blocks")
            rep.count("block_instances")
            if sorted(cov) != list(range(M)):
                rep.bad("blocks:" + nm, g["file"], e[5], "%s: with M=%d and %d threads the blocks cover %s" % (nm, M, t, [int(z) for z in sorted(cov)]))
                return


TILES = {}


def offset(v, base, env):
    if v == ("sym", base):
        return Fraction(0)
    if v[0] == "off" and v[1] == ("sym", base):
        return ev_r(v[2], env)
    raise Unknown


# ---------------------------------------------------------------- entry points
def entry(p, rep, c, m, f):
    ix = ptrs(f)
    i = ("sym", "in")
    for o, inplace in ((NULL, 1), (i, 1), (("sym", "out"), 0)):
        args = []
        for k, q in enumerate(f["params"]):
            args.append(i if k == ix[0] else o if k == ix[1] else sym(q["n"]))
        eff = i if o == NULL else o
        I = Xf(p, c, {"inplace": toR(inplace), "plan": ("sym", "plan")}, record=("Execute", "Normalize"))
        nm = "%s on %s" % (short(f), short2(c))
        for r, mm, ex in I.runall(f, args):
            if ex:
                continue
            rep.count("entry_paths")
            ev = [e for e in mm.events if e[0] == "call"]
            x = [k for k, e in enumerate(ev) if e[1] == "Execute"]
            n = [k for k, e in enumerate(ev) if e[1] == "Normalize"]
            if len(x) != 1:
                continue                      # C07
            e = ev[x[0]]
            s = e[4][2] if len(e[4]) > 2 else False
            s = bool(I.truth(s)) if not isinstance(s, R) else not s.iszero()
            if s != f["base"].startswith("fft0"):
                rep.bad("flag:" + nm, f["file"], e[5] or f["ln"], "%s %s the shifted transform" % (nm, "requests" if s else "does not request"))
            if len(n) != (1 if "Normalized" in f["base"] else 0) or n and n[0] < x[0]:
                rep.bad("normalize:" + nm, f["file"], e[5] or f["ln"], "%s normalizes %d times%s" % (
                    nm, len(n), " before executing" if n and n[0] < x[0] else ""))
            elif n:
                z = ev[n[0]]
                if eff not in z[4]:
                    rep.bad("normalize:" + nm, f["file"], z[5] or f["ln"], "%s normalizes something other than its output" % nm)


def resolve(p, c, fid):
    f = p.funcs.get(fid)
    if not f:
        raise Undecided("no Normalize")
    return p.override_in(fid, c) if f.get("virt") else f


def normalizers(p, c):
    """the Normalize functions the public normalized entry points of class c reach, with their arguments"""
    out = {}
    names = set()
    for b in p.bases(c):
        here = set()
        for f in p.defs():
            if f.get("cls") == b and f["base"] in ("fftNormalized", "fft0Normalized") and f["acc"] == "public" and f["base"] not in names:
                here.add(f["base"])
                if len(f["params"]) != 2:
                    continue
                for inplace in (0, 1):
                    I = Xf(p, c, {"inplace": toR(inplace), "plan": ("sym", "plan")}, record=("Execute", "Normalize"))
                    try:
                        for r, mm, ex in I.runall(f, [("sym", "in"), ("sym", "in") if inplace else ("sym", "out")]):
                            for e in mm.events:
                                if e[0] == "call" and e[1] == "Normalize":
                                    g = resolve(p, c, e[2])
                                    out[(g["id"], inplace, f["id"])] = (g, inplace, f, e[4])
                    except Undecided:
                        pass
        names |= here                         # hidden by name
    return list(out.values())


def plausible(c, m, f, inplace):
    """entry point with the array types the class documents"""
    kind = m.group(2) or ""
    t = [clean(q["t"]) for q in f["params"]]
    if kind == "":
        return t == ["Complex *", "Complex *"]
    if kind == "rc":
        return t == ["double *", "Complex *"] or t == ["Complex *", "Complex *"] and inplace and not m.group(1)
    return t == ["Complex *", "double *"] or t == ["Complex *", "Complex *"] and inplace and not m.group(1)


def extent(p, rep, c, m, f, sp, F, envs, mm, inplace):
    for g, ip, ent, a in normalizers(p, c):
        if ip != int(inplace) or not plausible(c, m, ent, inplace):
            continue
        if sp.kind == "cr" and not ip and False:
            continue
        nm = "%s of %s built by %s" % (short(ent), short2(c), short(f))
        I = Xf(p, c, record=())
        I.fields0 = {k[1]: v for k, v in F.items()}
        I.fields0.update({"norm": R(Poly.sym(("N",)))})
        T = clean(g["params"][-1]["t"])
        w = 2 if T == "Complex *" else 1
        args = [v if isinstance(v, R) else ("ptr", ("out",), P(0)) for v in a]
        # arguments read from members at the call are members of the constructed object
        args = [subst(v, I.fields0) if isinstance(v, R) else v for v in args]
        try:
            paths = I.runall(g, args)
        except Undecided as e:
            if os.environ.get("VERIF_TRACE"):
                import traceback
                traceback.print_exc()
            rep.undecided.append("%s: %s" % (nm, e))
            continue
        for r, m2, ex in paths:
            rep.count("normalizations")
            for env in envs:
                if not sat(m2.conds, env) or env.get(key(sp.many["M"]) if sp.many else None, 1) > 3:
                    continue
                try:
                    got = cells(m2, env)
                except Unknown:
                    rep.undecided.append(nm + ": extent")
                    break
                rep.count("extent_instances")
                need, allow = outputs(sp, env, inplace)
                why = None
                if any(n != 1 for n in got.values()):
                    why = "scales an element more than once"
                elif set(need) - set(got):
                    why = "leaves an output element unscaled"
                elif set(got) - set(allow):
                    why = "scales memory outside the output"
                if why:
                    rep.bad("extent:%s:%s" % (short(ent), short2(c)), g["file"], g["ln"], "%s %s, for example %s" % (nm, why, show(env)))
                    break


def subst(v, fields):
    """replace field symbols by the constructed values"""
    if v.n.isconst() or not v.d.isconst():
        return v
    r = toR(0)
    for mono, k in v.n.t.items():
        t = toR(Poly.const(Fraction(k) / v.d.cval()))
        for s, e in mono:
            x = fields.get(s[1]) if s[0] == "fld" else None
            if s[0] == "fn" and s[1].startswith("int"):
                aa = []
                for kk in s[2]:
                    aa.append(subst(R(fromkey(kk)), fields) if kk[0] == "r" else R(fromkey(kk)))
                x = fn(s[1], *aa)
            x = x if isinstance(x, R) else R(Poly.sym(s))
            for _ in range(e):
                t = t * x
        r = r + t
    return r


def fromkey(k):
    if k[0] != "r":
        raise Undecided("quotient")
    q = Poly.const(Fraction(0))
    for m, c in k[1]:
        t = Poly.const(Fraction(c))
        for s, e in m:
            for _ in range(e):
                t = t * Poly.sym(s)
        q = q + t
    return q


def cells(m, env):
    """multiset of doubles scaled by the extracted stores"""
    out = {}
    for base, off, val, loops, ln in m.stores:
        if base != ("out",):
            if isinstance(base, tuple) and base and base[0] == "tmp":
                continue
            raise Unknown
        old = R(Poly.sym(("m", base, off)))
        if not (isinstance(val, R) and val.same(old * R(Poly.sym(("N",))))):
            raise Unknown

        def go(k, e):
            if k == len(loops):
                o = ev_r(R(off), e)
                out[o] = out.get(o, 0) + 1
                return
            v, lo, hi, st = loops[k]
            s = next(iter(next(iter(v.n.t))))[0]
            x, h, d = ev_r(lo, e), ev_r(hi, e), ev_r(st, e)
            n = 0
            while x < h:
                n += 1
                if n > 5000 or d <= 0:
                    raise Unknown
                e2 = dict(e)
                e2[s] = x
                go(k + 1, e2)
                x += d
        go(0, env)
    return out


def outputs(sp, env, inplace):
    """(doubles of the output elements, doubles of the output array)"""
    if sp.many:
        n, M, st, di = sp.geometry(env)
        if sp.kind == "cr":
            e = {int(i * st[1] + k * di[1]) for i in range(int(n)) for k in range(int(M))}
            return e, e
        h = n // 2 + 1 if sp.kind else n
        e = {int(2 * (i * st[1] + k * di[1]) + b) for i in range(int(h)) for k in range(int(M)) for b in (0, 1)}
        return e, e
    d = [int(env[key(x)]) for x in sp.dims]
    lead = 1
    for x in d[:-1]:
        lead *= x
    n = d[-1]
    if sp.kind == "":
        e = set(range(2 * lead * n))
        return e, e
    if sp.kind == "rc":
        e = set(range(2 * lead * (n // 2 + 1)))
        return e, e
    row = 2 * (n // 2 + 1) if inplace else n
    return {i * row + j for i in range(lead) for j in range(n)}, set(range(lead * row))


# ---------------------------------------------------------------- multiple-transform wrappers
def wrapper(p, rep, f):
    c = f["cls"]
    sz = [q["n"] for q in f["params"] if q["t"] in SZ][:-1]
    M, strides = sz[1], sz[2:len(sz) - (len(sz) - 2) // 2] if len(sz) > 2 else []
    args = [("sym", q["n"]) if "*" in q["t"] else sym(q["n"]) for q in f["params"]]
    nm = short(f)
    I = Xf(p, c, record=())
    for r, m, ex in I.runall(f, args):
        if ex:
            continue
        rep.count("wrapper_paths")
        if len(m.news) != 1:
            raise Undecided("objects")
        t, cid, a, ln = m.news[0]
        t = t.split("::")[-1]
        single = t == short2(c)[1:]
        many = t == "M" + short2(c)[1:]
        sv = m.fields.get((I.obj, "single"))
        fld = [k[1] for k, v in m.fields.items() if v == ("obj", 0)]
        if sv is None or not fld:
            raise Undecided("members")
        I.m = m
        if not (single or many):
            rep.bad("wrapper:" + nm, f["file"], ln or f["ln"], "%s creates a %s" % (nm, t))
            continue
        if bool(I.truth(sv)) != single or fld != ["fft1" if single else "fftm"]:
            rep.bad("wrapper:" + nm, f["file"], ln or f["ln"], "%s creates a %s but will use its %s" % (nm, t, "single transform" if I.truth(sv) else "multiple transform"))
            continue
        if single:
            keep = [x for q, x in zip(f["params"], args) if q["n"] not in sz[1:]]
            for mm in itertools.product((1, 2, 3), *[(1, 2)] * len(strides)):
                env = {key(M): Fraction(mm[0])}
                env.update({key(s): Fraction(v) for s, v in zip(strides, mm[1:])})
                if any(v != 1 for v in mm):
                    try:
                        if all(ev_cond(k, env) == b for k, b in m.conds):
                            rep.bad("wrapper:" + nm, f["file"], ln or f["ln"], "%s uses a single contiguous transform for %s" % (nm, show(env)))
                            break
                    except (Unknown, KeyError):
                        pass
        else:
            keep = args
        if [repr(x) for x in a] != [repr(x) for x in keep]:
            rep.bad("wrapper:" + nm, f["file"], ln or f["ln"], "%s does not pass its parameters, in order, to %s" % (nm, t))


# ---------------------------------------------------------------- plan selection of fftwblock
class Init(Xf):
    def e_call(self, e):
        n = e.get("name", "").split("::")[-1]
        if n == "Setup":
            v = self.super_call(e)
            F = self.m.fields
            k = self.m.nplan = getattr(self.m, "nplan", 0) + 1
            Q, Rr = F.get((self.obj, "Q")), F.get((self.obj, "R"))
            F[(self.obj, "plan")] = ("sym", "plan#%d" % k)
            self.m.planned = dict(getattr(self.m, "planned", {}), **{"plan#%d" % k: (Q, 0)})
            if self.truth(self.rel("<", toR(0), Rr)):
                F[(self.obj, "plan2")] = ("sym", "plan2#%d" % k)
                self.m.planned["plan2#%d" % k] = (Q, 1)
            return v
        return super().e_call(e)

    def super_call(self, e):
        return super().e_call(e)


def init(p, rep, f):
    c = [x["name"] for x in p.classes.values() if f["cls"] in x["bases"]]
    if not c:
        raise Undecided("no class")
    nm = "fftwblock::init (%s)" % short2(c[0])
    M = R(Poly.sym(("fld", "M")))
    for inplace in (0, 1):
        I = Init(p, c[0], {"plan": NULL, "plan1": NULL, "plan2": NULL, "inplace": toR(inplace)}, record=("Setup", "time", "Lookup", "Store"))
        args = [("sym", "in"), ("sym", "in" if inplace else "out"), sym("Threads"), ("sym", "table")][:len(f["params"])]
        for r, m, ex in I.runall(f, args):
            if ex:
                continue
            rep.count("init_paths")
            F = m.fields
            T, Q, Rr = (F.get((I.obj, k)) for k in ("T", "Q", "R"))
            gone = [e[4][0] for e in m.events if e[0] == "call" and e[1] == "fftw_destroy_plan"]
            pl, p1, p2 = (F.get((I.obj, k)) for k in ("plan", "plan1", "plan2"))
            pd = getattr(m, "planned", {})
            for mv, tv in itertools.product(range(1, 7), range(1, 7)):
                env = {("fld", "M"): Fraction(mv), key("Threads"): Fraction(tv)}
                # the number of threads may be reduced by Setup: other quantities stay free
                try:
                    t = number(T, env)
                except (Unknown, KeyError):
                    free = {s for mo in T.n.t for s, _ in mo} - set(env)
                    if len(free) != 1:
                        rep.undecided.append(nm + ": T")
                        break
                    env[free.pop()] = Fraction(tv)
                    t = number(T, env)
                if not sat(m.conds, env):
                    continue
                rep.count("init_instances")
                why = None

                def many(x):
                    if x is None or x == NULL or x in gone or x[1] not in pd:
                        return None
                    return number(pd[x[1]][0], env) + pd[x[1]][1]
                try:
                    if t == 1:
                        if many(pl) != mv:
                            why = "with one block the plan covers %s of %d transforms" % (many(pl), mv)
                    else:
                        q, rr = number(Q, env), number(Rr, env)
                        if q * t + rr != mv or not 0 <= rr < t:
                            why = "%d transforms are split into %s blocks of %s with %s left over" % (mv, t, q, rr)
                        elif many(p1) != q or rr > 0 and many(p2) != q + 1:
                            why = "the block plans cover %s and %s transforms instead of %s and %s" % (many(p1), many(p2), q, q + 1)
                except (Unknown, KeyError, IndexError):
                    rep.undecided.append(nm + ": counts")
                    break
                if why:
                    rep.bad("init:" + nm, f["file"], f["ln"], "%s: %s (M=%d, %d threads, %s)" % (nm, why, mv, tv, "in place" if inplace else "out of place"))
                    break


# ---------------------------------------------------------------- transposition
def transpose(p, rep, f):
    ix = ptrs(f)
    n = [q["n"] for q in f["params"] if q["t"] in SZ]
    rows, cols, length = n[:3]
    args = [("sym", "in") if k == ix[0] else ("sym", "out") if k == ix[1] else sym(q["n"]) for k, q in enumerate(f["params"])]
    el = {"Complex *": 2, "double *": 1}[clean(f["params"][ix[0]]["t"])]
    I = Xf(p, f["cls"])
    for r, m, ex in I.runall(f, args):
        ev = [e for e in m.events if e[0] == "call" and e[1].startswith("fftw_plan_guru")]
        for e in ev:
            rep.count("transpose_plans")
            a = e[4]
            dims = {}
            for (o, k), v in m.fields.items():
                if isinstance(o, tuple) and o[0] == "objf" and isinstance(o[2], tuple) and o[2][0] == "idx":
                    dims.setdefault(o[2][1], {})[k] = v
            for v in itertools.product((1, 2, 3), (2, 5), (1, 3)):
                env = {key(rows): Fraction(v[0]), key(cols): Fraction(v[1]), key(length): Fraction(v[2])}
                if not sat(m.conds, env):
                    continue
                try:
                    got = sorted(tuple(number(dims[k][x], env) for x in ("n", "is", "os")) for k in range(int(number(a[2], env))))
                    rank = number(a[0], env)
                except (Unknown, KeyError):
                    raise Undecided("dimensions")
                L = v[2] * el
                want = sorted([(v[0], v[1] * L, L), (v[1], L, v[0] * L), (L, 1, 1)])
                big = lambda z: [x for x in z if x[0] != 1]
                if rank != 0 or big(got) != big(want):
                    rep.bad("transpose", f["file"], e[5] or f["ln"], "Transpose of %d x %d blocks of %d plans the loops %s" % (
                        v[0], v[1], v[2], [tuple(int(y) for y in x) for x in got]))
                    break
            if a[4:6] != [("sym", "in"), ("sym", "out")]:
                rep.bad("transpose-arrays", f["file"], e[5] or f["ln"], "Transpose does not plan from its input to its output")
