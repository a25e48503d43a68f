"""C09: parameters and requests that cannot be honoured end the program before anything is computed."""
import itertools, os
from fractions import Fraction
from ..common import load
from ..repo import walk, strip
from ..algebra import R, Undecided, toR, P, Poly
from ..wrapctor import Unknown, ev_r, ev_cond
from ..xform import Xf, NULL, clean
from .c07 import guard, short

EXPLANATION = """Abstract interpretation (value numbering) of the constructors of the padding classes (with their validity predicates),
fftBase::common, Convolution3's stride check and its use, every function that receives a new FFTW plan, Transpose for an
element type it does not support, and newAlign; a scan of every exit call of the library."""
RULE = """violation: a padding constructor accepts, or rejects, a combination of L, M, C, S, m, D contrary to the documented
constraints; a path keeps a plan without having found it non-null; a path of newAlign returns after the allocation failed;
Convolution3 computes with strides its check would refuse; an exit reports status 0."""
ASSUMPTIONS = ["L, M, C, m and D are positive", "exit's status is its argument modulo 256"]
TECHNIQUE = "path-condition extraction by abstract interpretation; conditions compared with the documented constraints"
NOTE = "Path conditions are extracted symbolically and compared on a grid that separates the constraints."

PAD = ("fftPad", "fftPadCentered", "fftPadHermitian", "fftPadReal")


class Ctor(Xf):
    limit = 4096

    def e_call(self, e):
        n = (e.get("name") or "").split("::")[-1]
        f = self.p.funcs.get(e.get("fn"))
        if n == "parameters" and f and f.get("body"):
            return self.call(f, [self.ev(a) for a in e["args"]], None)
        if n == "valid" and f:
            if e.get("virt") and e.get("obj") is not None:
                t = clean(strip(e["obj"]).get("t"))
                for c in self.p.classes:
                    if c == t or c.endswith("::" + t):
                        f = self.p.override_in(f["id"], c) or f
            if not f.get("body"):
                raise Undecided("validity predicate")
            return self.call(f, [self.ev(a) for a in e["args"]], None)
        return super().e_call(e)

    def e_ctor(self, e):
        t = clean(e.get("t") or e.get("cls") or "")
        if t.split("::")[-1] == "Opt":
            if e.get("args") and (e.get("copy") or e.get("elide") or len(e["args"]) == 1):
                return self.e_ctor(strip(e["args"][0])) if strip(e["args"][0]).get("k") == "ctor" else self.ev(e["args"][0])
            if e.get("args"):
                self.m.events.append(("call", "Opt", None, None, [self.rval(a) for a in e["args"]], e.get("ln"), ()))
            return ("sym", "opt")
        return super().e_ctor(e)

    def decl(self, d):
        if clean(d.get("t", "")).split("::")[-1] == "Opt" and not d.get("init"):
            self.m.env[d["id"]] = ("box", [("sym", "opt")])
            return
        super().decl(d)


def run(rep, tier):
    p = load()
    for f in p.defs():
        c = (f.get("cls") or "").split("::")[-1]
        if f["kind"] == "ctor" and c in PAD:
            n = [q["n"] for q in f["params"]]
            if f["params"] and clean(f["params"][-1]["t"]) == "centeredConstructor":
                continue
            guard(rep, short(f), padding, p, rep, f, c, n)
        elif c == "fftBase" and f["base"] == "common":
            guard(rep, short(f), common, p, rep, f)
        elif c == "Convolution3" and f["base"] == "checkStrides":
            guard(rep, short(f), strides, p, rep, f)
        elif c == "Convolution3" and f["base"] == "init":
            guard(rep, short(f), usestrides, p, rep, f)
    q = load(["stub_fftw", "stub_array", "fftw"])
    for f in q.defs():
        if f["base"] == "newAlign" and f.get("body"):
            guard(rep, short(f), allocation, q, rep, f)
    pl = planners(q)
    for f in q.defs():
        if any(n.get("k") == "call" and creates(q, n, pl) for n in walk(f.get("body") or {})):
            guard(rep, short(f), plans, q, rep, f, pl)
    guard(rep, "Transpose", transpose, q, rep)
    everything = load(["stub_fftw", "stub_array", "convolve", "fftw", "parallel", "mpifftw", "mpiconvolve", "mpitranspose"])
    seen = set()
    for f in everything.defs():
        for n in walk(f.get("body") or {}):
            if n.get("k") == "call" and (n.get("name") or "").split("::")[-1] in ("exit", "_exit", "_Exit", "quick_exit") and n["args"]:
                k = (f["file"], n.get("ln"))
                if k in seen or "usage" in f["base"] or f["file"].startswith("utils"):
                    continue
                seen.add(k)
                rep.count("exits")
                v = const(n["args"][0])
                if v is not None and v % 256 == 0:
                    rep.bad("status:" + short(f), f["file"], n.get("ln"), "%s exits with status 0 after an error" % short(f))
    rep.need("constructors", 4)
    rep.need("combinations", 500)
    rep.need("plan_results", 3)
    rep.need("exits", 5)


def const(e):
    e = strip(e)
    if e.get("k") == "int":
        return int(e["v"])
    if e.get("k") == "un" and e.get("op") == "-" and strip(e["e"]).get("k") == "int":
        return -int(strip(e["e"])["v"])
    return None


# ---------------------------------------------------------------- padding classes
def ceil(a, b):
    return -(-a // b)


def params(L, M, m, centered):
    p = ceil(L, m)
    P_ = p // 2 if centered and p % 2 == 0 or p == 2 else p
    n = ceil(M, P_ * m)
    return p, n, P_ * n


def valid(c, m, p, q, n, D, S, C):
    many = D == 1 or S == 1 and (D < n and D % 2 == 0 or D == n)
    if c == "fftPad":
        return many
    if c == "fftPadCentered":
        return p % 2 == 0 and many
    if c == "fftPadHermitian":
        return D == 2 and p % 2 == 0 and (p == 2 or C == 1)
    h = (n - 1) // 2
    return (n % 2 == 1 or p % 2 == 0 or p <= 2) and (q % 2 == 1 or m % 2 == 0) and \
        (D == 1 or S == 1 and (D < h and D % 2 == 0 or D == h))


def padding(p, rep, f, c, names):
    explicit = "m" in names
    args = []
    for q in f["params"]:
        t = clean(q["t"])
        args.append(("sym", q["n"]) if "Application" in t else R(Poly.sym(("arg", q["n"]))))
    I = Ctor(p, f["cls"], record=("Execute", "Normalize", "init", "scan"))
    paths = I.runall(f, args, ctor=True)
    rep.count("constructors")
    rep.count("paths", len(paths))
    key = short(f)
    done = set()
    for L, M, C, S, m, D in itertools.product((1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 4, 5, 6, 7, 8, 9, 12), (1, 2), (0, 1, 3), (1, 2, 3, 4), (1, 2, 3, 4, 5)):
        if not explicit and (m, D) != (1, 1) or "S" not in names and S:
            continue
        s = S or C
        pp, n, q = params(L, M, m, c in ("fftPadCentered", "fftPadHermitian"))
        k = (L > M, L == M, s < C, C, S, q == 1, q % 2, min(pp, 4), n, D, m % 2) if explicit else (L > M, L == M, C, S)
        if k in done:
            continue
        done.add(k)
        rep.count("combinations")
        env = {("arg", a): Fraction(b) for a, b in zip("LMCSmD", (L, M, C, S, m, D))}
        base = L > M or s < C
        want = base or explicit and q > 1 and not valid(c, m, pp, q, n, D, s, C)
        res = []
        for r, mem, ex in paths:
            try:
                if all(ev_cond(x, env) == b for x, b in mem.conds):
                    res.append((mem, ex))
            except ZeroDivisionError:
                continue
            except (Unknown, KeyError):
                if ev_partial(mem.conds, env):
                    res.append((mem, ex))
        if not res:
            continue
        how = ", ".join("%s=%s" % z for z in zip("LMCSmD" if explicit else "LMCS", (L, M, C, S, m, D)) if z[0] in names)
        for mem, ex in res:
            inits = [e for e in mem.events if e[0] == "call" and e[1] in ("init", "Opt", "scan")]
            if want and not ex:
                rep.bad("accepts:" + key, f["file"], f["ln"], "%s accepts invalid parameters, for example %s (p=%d, q=%d, n=%d)" % (key, how, pp, q, n))
                return
            if ex and not want:
                rep.bad("rejects:" + key, f["file"], f["ln"], "%s rejects valid parameters, for example %s (p=%d, q=%d, n=%d)" % (key, how, pp, q, n))
                return
            if ex and inits and base:
                rep.bad("late:" + key, f["file"], f["ln"], "%s rejects invalid parameters only after using them, for example %s" % (key, how))
                return
            if ex and any(status0(e) for e in mem.events if e[0] == "exit"):
                rep.bad("status:" + key, f["file"], f["ln"], "%s exits with status 0 for %s" % (key, how))
                return


def status0(e):
    return isinstance(e[1], R) and e[1].n.isconst() and e[1].d.isconst() and int(e[1].n.cval() / e[1].d.cval()) % 256 == 0


def ev_partial(conds, env):
    for c, b in conds:
        try:
            if ev_cond(c, env) != b:
                return False
        except (Unknown, KeyError, ZeroDivisionError):
            continue
    return True


def common(p, rep, f):
    """padding to less than the requested size is refused"""
    I = Xf(p, f["cls"], record=("parameters",))
    seen = False
    for r, m, ex in I.runall(f, []):
        for q, mm, M in itertools.product((1, 2, 3), (1, 2, 3), (1, 4, 5, 6, 10)):
            env = {("fld", "q"): Fraction(q), ("fld", "m"): Fraction(mm), ("fld", "M"): Fraction(M)}
            if not ev_partial(m.conds, env):
                continue
            rep.count("size_cases")
            if ex != (q * mm < M):
                rep.bad("padded-size", f["file"], f["ln"], "fftBase::common %s q=%d, m=%d, M=%d" % ("rejects" if ex else "accepts", q, mm, M))
                return


def strides(p, rep, f):
    I = Ctor(p, f["cls"], record=())
    paths = I.runall(f, [])
    grid = 0
    for Sx, Ly, Sy, Lz, C, w in itertools.product((1, 2, 3, 4, 6, 7), (1, 2, 3), (1, 2, 3), (1, 2), (1, 2, 3, 4, 6), (1, 2)):
        cont = Sy == Lz or w != 2
        want = Sx < Ly * Sy or C != (Ly * Sy if cont else Lz)
        env = {("fld", k): Fraction(v) for k, v in zip(("Sx", "Ly", "Sy", "Lz", "fftx.C"), (Sx, Ly, Sy, Lz, C))}
        hit = []
        for r, m, ex in paths:
            ok = True
            for c, b in m.conds:
                try:
                    v = ev_cond(c, {**env, **wordsize(m, w)})
                except (Unknown, KeyError):
                    raise Undecided("stride condition")
                if v != b:
                    ok = False
                    break
            if ok:
                hit.append((m, ex))
        rep.count("stride_cases")
        for m, ex in hit:
            if ex != want:
                rep.bad("strides", f["file"], f["ln"], "Convolution3::checkStrides %s Sx=%d, Ly=%d, Sy=%d, Lz=%d, fftx->C=%d" % (
                    "rejects" if ex else "accepts", Sx, Ly, Sy, Lz, C))
                return
            if ex and any(status0(e) for e in m.events if e[0] == "exit"):
                rep.bad("strides-status", f["file"], f["ln"], "Convolution3::checkStrides exits with status 0")
                return


def wordsize(m, w):
    out = {}
    for k, e in enumerate(m.events):
        if e[0] == "call" and e[1] == "wordSize":
            out[("val", repr(("res", k)))] = Fraction(w)
    return out


def usestrides(p, rep, f):
    args = [("sym", q["n"]) if "*" in q["t"] else R(Poly.sym(("arg", q["n"]))) for q in f["params"]]
    if "mpi" not in [q["n"] for q in f["params"]]:
        raise Undecided("parameters")
    I = Ctor(p, f["cls"], record=("checkStrides", "normalization"))
    for r, m, ex in I.runall(f, args):
        mpi = [b == (c[1] == "!=") for c, b in m.conds if c[0] == "rel" and "'arg', 'mpi'" in repr(c)] or \
            [b for c, b in m.conds if "'arg', 'mpi'" in repr(c)]
        if ex or mpi and mpi[0]:
            continue
        rep.count("stride_uses")
        if not any(e[0] == "call" and e[1] == "checkStrides" for e in m.events):
            rep.bad("strides-unchecked", f["file"], f["ln"], "Convolution3::init does not check the strides of a serial convolution")
            return


# ---------------------------------------------------------------- plans
def planners(p):
    """functions that return a new plan"""
    out = set()
    ch = True
    while ch:
        ch = False
        for f in p.defs():
            if f["id"] in out or "fftw_plan" not in (f.get("ret") or "") and not f["base"] in ("Plan", "Planner"):
                continue
            if any(n.get("k") == "call" and creates(p, n, out) for n in walk(f.get("body") or {})):
                out.add(f["id"])
                ch = True
    return out


def creates(p, n, pl):
    nm = (n.get("name") or "").split("::")[-1]
    if nm.startswith("fftw_plan_") and nm not in ("fftw_plan_with_nthreads", "fftw_plan_with_nthreads_"):
        return True
    if n.get("fn") in pl or nm in ("Plan",):
        return True
    return not n.get("name") and any(x.get("n") == "planner" or x.get("f") == "planner" for x in walk(n.get("callee") or n.get("f") or n) if isinstance(x, dict))


class Planning(Xf):
    def e_call(self, e):
        if creates(self.p, e, self.pl):
            args = [self.rval(a) for a in e["args"]]
            self.m.events.append(("plan", (e.get("name") or "planner").split("::")[-1], e.get("ln")))
            return ("res", len(self.m.events) - 1)
        return super().e_call(e)

    def decl(self, d):
        if d.get("static"):
            self.m.env[d["id"]] = ("box", [R(Poly.sym(("static", d["n"])))])
            return
        super().decl(d)

    def e_asg(self, e):
        l = strip(e["l"])
        if l.get("k") == "ref" and l.get("vk") in ("global", "slocal") and clean(l.get("t")) in ("size_t", "unsigned long", "unsigned int", "bool"):
            return toR(0)              # planner flags
        return super().e_asg(e)


def plans(p, rep, f, pl):
    args = []
    for q in f["params"]:
        t = clean(q["t"])
        args.append(("sym", q["n"]) if "*" in t or "::" in t or "Table" in t else R(Poly.sym(("arg", q["n"]))))
    if f["base"] == "init" and f["cls"]:
        return
    I = Planning(p, f.get("cls") or "none", record=("Setup", "init", "time", "Threshold", "planThreads", "CheckAlign"))
    I.pl = pl
    for r, m, ex in I.runall(f, args):
        if ex:
            for e in m.events:
                if e[0] == "exit" and status0(e):
                    rep.bad("status:" + short(f), f["file"], e[2] or f["ln"], "%s exits with status 0" % short(f))
            continue
        r = I.asptr(r) if r is not None else None
        nn = {c[1]: b for c, b in m.conds if c[0] == "nn"}
        made = [("res", k) for k, e in enumerate(m.events) if e[0] == "plan"]
        if not made:
            continue
        rep.count("plan_results", len(made))
        held = [(k, v) for k, v in m.fields.items() if v in made]
        for k, v in held:
            if nn.get(repr(v)) is True or v == r or r == NULL:
                continue
            e = m.events[v[1]]
            rep.bad("plan:" + short(f), f["file"], e[2] or f["ln"],
                    "%s keeps the result of %s in %s without making sure that a plan was created" % (short(f), e[1], k[-1]))
            return


def transpose(p, rep):
    for f in p.defs():
        if f["kind"] != "ctor" or (f.get("cls") or "").split("::")[-1] != "Transpose" or "float" not in f["params"][3]["t"]:
            continue
        args = [("sym", q["n"]) if "*" in q["t"] else R(Poly.sym(("arg", q["n"]))) for q in f["params"]]
        I = Xf(p, f["cls"], record=())
        for r, m, ex in I.runall(f, args):
            rep.count("element_type_paths")
            if not ex or any(status0(e) for e in m.events if e[0] == "exit"):
                rep.bad("element-type", f["file"], f["ln"], "Transpose accepts elements that are not made of doubles")
                return


def allocation(p, rep, f):
    args = [("box", [NULL]), R(Poly.sym(("arg", "len"))), R(Poly.sym(("arg", "align")))]
    I = Xf(p, f.get("cls") or "none", record=())
    for r, m, ex in I.runall(f, args):
        al = [("res", k) for k, e in enumerate(m.events) if e[0] == "call" and "memalign" in e[1]]
        if not al:
            raise Undecided("allocation call")
        rep.count("allocation_paths")
        for code, name in ((22, "EINVAL"), (12, "ENOMEM")):
            env = {("val", repr(a)): Fraction(code) for a in al}
            ruled = any(c[0] == "nn" and b == (c[1] not in map(repr, al)) for c, b in m.conds)
            if not ex and ev_partial(m.conds, env) and not ruled:
                rep.bad("allocation:" + f["base"], f["file"], f["ln"], "newAlign returns after the allocation failed (%s)" % name)
                return
