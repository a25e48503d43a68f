"""C15: the C, Fortran and Python bindings agree with the library they bind."""
import ast, os, re
from fractions import Fraction
from ..common import load
from ..repo import REPO, AnalysisBroken
from ..algebra import R, Undecided, toR, P, Poly, fn
from ..wrapctor import Glue, Unknown, ev_r, ev_cond

EXPLANATION = """The C entry points (wrappers/cfftw++.cc, HybridConvolution.h) are evaluated symbolically on their
parameters; the declarations of wrappers/cfftw++.h, the bind(c) interfaces of wrappers/fftwpp.f90 and the ctypes
prototypes and calls of wrappers/fftwpp.py are parsed and compared with them."""
RULE = """violation: a function a binding names is not defined with C linkage, or the binding disagrees with it in
the number or the class (pointer, size_t, smaller integer) of parameters or of the result; a C entry point does not
forward its parameters, unchanged and in order, to the routine it stands for; a wrapper class builds its padding
objects with another length, stride count, order or too small a padded length; a create/convolve/delete triple
mixes classes; the Python convolve does not check both shapes before native code runs, passes its arguments
otherwise, or declares arrays without dtype complex128 and C_CONTIGUOUS."""
ASSUMPTIONS = ["the C library is built from wrappers/cfftw++.cc and the core sources"]
TECHNIQUE = "cross-language signature checking + value numbering of the glue code"
NOTE = "Covers every name the bindings use; arithmetic identities are decided formally or refuted by an instance."


def run(rep, tier):
    p = load(["cfftw", "convolve"])
    defs = {f["base"]: f for f in p.defs() if f.get("externc") and f["file"].startswith("wrappers/")}
    rep.count("c_functions", len(defs))
    header(p, rep, defs)
    for n, f in sorted(defs.items()):
        try:
            glue(p, rep, n, f)
        except Undecided as e:
            rep.undecided.append("%s: %s" % (n, e))
    classes(p, rep)
    fortran(rep, defs)
    Py(rep, defs).run()
    rep.need("c_functions", 15)
    rep.need("declared", 15)
    rep.need("fortran_bindings", 10)
    rep.need("python_natives", 10)


# ---------------------------------------------------------------- C header
def header(p, rep, defs):
    for f in p.funcs.values():
        if f.get("externc") and f["file"].startswith("wrappers/"):
            rep.count("declared")
            if f["base"] not in defs:
                rep.bad("undefined:h:" + f["base"], f["file"], f["ln"],
                        "%s is declared for C but defined nowhere with C linkage" % f["base"])
    src = read("wrappers/cfftw++.h")
    src = re.sub(r"/\*.*?\*/|//[^\n]*", "", src, flags=re.S)
    names = set(re.findall(r"(\w+)\s*\([^;{}]*\)\s*;", src))
    for n in sorted(names - set(defs)):
        rep.bad("undefined:h:" + n, "wrappers/cfftw++.h", line(src, n), "%s is declared for C but defined nowhere with C linkage" % n)
    for n in sorted(set(defs) - names):
        rep.bad("undeclared:h:" + n, defs[n]["file"], defs[n]["ln"], "%s is defined for C but not declared in cfftw++.h" % n)


def read(f):
    try:
        with open(os.path.join(REPO, f)) as h:
            return h.read()
    except OSError as e:
        raise AnalysisBroken(str(e))


def line(src, n):
    i = src.find(n)
    return src[:i].count("\n") + 1 if i >= 0 else 0


def cls(t):
    """class of a C type"""
    t = t.replace("const", "").strip()
    if t == "void":
        return "void"
    if "*" in t or "[" in t:
        return "pointer"
    if t in ("size_t", "unsigned long", "long", "ptrdiff_t", "std::size_t"):
        return "size"
    return "int" if t in ("int", "unsigned int", "short", "char", "bool") else t


# ---------------------------------------------------------------- C entry points
CONV = re.compile(r"^fftwpp_(create_(h?)conv([123])d|(h?)conv([123])d_(convolve|delete))$")


def klass(h, d):
    return "HybridConvolution" + ("Hermitian" if h else "") + ("" if d == 1 else str(d))


def evaluate(p, f, args=None, this=None):
    I = Glue(p, inline=lambda g: g["file"].startswith("wrappers/") or g["base"] in ("ceilquotient", "min", "max") or g.get("static"))
    I.preset = {}
    if args is None:
        args = []
        for q in f["params"]:
            c = cls(q["t"])
            args.append(R(Poly.sym(("arg", q["n"]))) if c in ("size", "int") else ("sym", q["n"]))
    out = I.run(f, args, this)
    for v, m in out:
        for a in ("news", "events", "fields"):
            if not hasattr(m, a):
                setattr(m, a, {} if a == "fields" else [])
    return args, out


def isarg(v, a):
    if isinstance(a, R):
        return isinstance(v, R) and v.same(a)
    return v == a


def glue(p, rep, n, f):
    m = CONV.match(n)
    args, out = evaluate(p, f)
    rep.count("entry_points")

    def bad(why):
        rep.bad("glue:" + n, f["file"], f["ln"], "%s %s" % (n, why))
    for v, mm in out:
        calls = [e for e in mm.events if e[0] == "call"]
        if m and m.group(1).startswith("create"):
            k = klass(m.group(2), int(m.group(3)))
            if not (isinstance(v, tuple) and v[0] == "obj"):
                raise Undecided("returns no new object")
            t, ctor, a, ln = mm.news[v[1]]
            if t.split("::")[-1] != k:
                bad("creates a %s, not a %s" % (t, k))
            elif len(a) < len(args) or not all(isarg(x, y) for x, y in zip(a, args)):
                bad("does not pass its parameters, unchanged and in order, to the constructor of %s" % k)
        elif m and m.group(6) == "delete":
            d = [e for e in mm.events if e[0] == "delete"]
            if len(d) != 1 or d[0][1] != args[0]:
                bad("does not delete its argument exactly once")
            elif d[0][2].split("::")[-1] != klass(m.group(4), int(m.group(5))):
                bad("deletes a %s, not a %s" % (d[0][2], klass(m.group(4), int(m.group(5)))))
        elif m:
            c = [e for e in calls if e[1].split("::")[-1] == "convolve"]
            fld = "convolve" + ("" if m.group(5) == "1" else m.group(5))
            t = cls_of(f["params"][0]["t"])
            if t != klass(m.group(4), int(m.group(5))):
                bad("takes a %s, not a %s" % (t, klass(m.group(4), int(m.group(5)))))
            if len(c) != 1:
                bad("does not run the convolution exactly once")
            elif not (isinstance(c[0][3], tuple) and c[0][3][0] == "objf" and c[0][3][1] == args[0]):
                raise Undecided("receiver")
            elif not (c[0][4] and isinstance(c[0][4][0], tuple) and c[0][4][0][0] == "arr"):
                raise Undecided("argument array")
            elif list(c[0][4][0][1]) != list(args[1:]):
                bad("does not pass its two arrays, in order, to the convolution")
        elif n.endswith("maxthreads"):
            if n.startswith("get"):
                s = repr(v.n) if isinstance(v, R) else repr(v)
                if "maxthreads" not in s:
                    bad("does not return fftw::maxthreads")
            else:
                st = [e for e in mm.events if e[0] == "store" and "maxthreads" in str(e[1])]
                if len(st) != 1 or not isarg(st[0][2], args[0]):
                    bad("does not store its argument in fftw::maxthreads")
        else:
            want = {"create_doubleAlign": "doubleAlign", "create_complexAlign": "ComplexAlign",
                    "delete_doubleAlign": "deleteAlign", "delete_complexAlign": "deleteAlign"}.get(n, n.replace("fftwpp_", ""))
            c = [e for e in calls if e[1].split("::")[-1].split("<")[0] == want]
            if len(c) != 1 or len(calls) != 1:
                bad("does not call %s exactly once" % want)
            elif len(c[0][4]) < len(args) or not all(isarg(x, y) for x, y in zip(c[0][4], args)):
                bad("does not pass its parameters, unchanged and in order, to %s" % want)
            elif cls(f["ret"]) != "void" and v != ("res", mm.events.index(c[0])):
                bad("does not return the result of %s" % want)


def cls_of(t):
    return t.replace("*", "").replace("struct", "").replace("const", "").strip().split("::")[-1]


# ---------------------------------------------------------------- wrapper classes
def classes(p, rep):
    for h in (False, True):
        for d in (1, 2, 3):
            k = klass(h, d)
            cs = [f for f in p.defs() if f["kind"] == "ctor" and f.get("cls", "").split("::")[-1] == k and not f.get("copyctor")]
            if not cs:
                rep.undecided.append("%s: no constructor" % k)
                continue
            for f in cs:
                rep.count("wrapper_constructors")
                try:
                    wrapper(p, rep, f, k, h, d)
                except Undecided as e:
                    rep.undecided.append("%s: %s" % (k, e))


def wrapper(p, rep, f, k, h, d):
    def bad(w, why):
        rep.bad("class:%s:%s" % (k, w), f["file"], f["ln"], "%s %s" % (k, why))
    I = Glue(p, inline=lambda g: True)
    args = []
    L = []
    for q in f["params"]:
        if q.get("def") is not None and len(L) >= d:
            I.m = type("M", (), {"env": {}, "c": {}, "load": lambda s, b, o: R(Poly.sym(("m", b, "v")))})()
            I.steps = 0
            v = I.ev(q["def"])
            args.append(I.val(v))
        else:
            L.append(R(Poly.sym(("L", len(L)))))
            args.append(L[-1])
    if len(L) != d:
        raise Undecided("parameters")
    a, out = evaluate(p, f, args, ("this",))
    H = L[:-1] + [fn("int/", L[-1] + toR(1), toR(2))] if h else L
    for v, m in out:
        rep.count("constructor_paths")
        kinds = [(i, t.split("::")[-1], fn_, ar) for i, (t, fn_, ar, ln) in enumerate(m.news)]
        pads = [x for x in kinds if x[1].startswith("fftPad")]
        cv = [x for x in kinds if x[1].startswith("Convolution")]
        want = ["fftPadCentered"] * (d - 1) + ["fftPadHermitian"] if h else ["fftPad"] * d
        if len(cv) != 1 or cv[0][1] != "Convolution" + ("" if d == 1 else str(d)):
            bad("convolver", "does not build exactly one Convolution%s" % ("" if d == 1 else d))
            continue
        used = [v[1] for v in cv[0][3] if isinstance(v, tuple) and v[0] == "obj"]
        if len(used) != d or any(m.news[i][0].split("::")[-1] != w for i, w in zip(used, want)):
            bad("pads", "does not hand %s to the convolution, in this order" % ", ".join(want))
            continue
        fld = [x for (b, x), v in m.fields.items() if v == ("obj", cv[0][0])]
        if fld != ["convolve" + ("" if d == 1 else str(d))]:
            bad("field", "does not publish the convolution as convolve%s" % ("" if d == 1 else d))
        prev = None
        for i, u in enumerate(used):
            t, ctor, ar, ln = m.news[u]
            A = named(p, ctor, ar)
            num(rep, bad, "L%d" % i, "pads dimension %d with input length" % (i + 1), A.get("L"), L[i], "==", m.conds)
            need = toR(2) * L[i] - toR(1) if not h else toR(3) * fn("int/", L[i] + toR(1), toR(2)) - toR(2) * fn("int%", L[i], toR(2))
            num(rep, bad, "M%d" % i, "pads dimension %d to length" % (i + 1), A.get("M"), need, ">=", m.conds)
            c = toR(1)
            for x in H[i + 1:]:
                c = c * x
            num(rep, bad, "C%d" % i, "transforms dimension %d with count" % (i + 1), A.get("C", toR(1)), c, "==", m.conds)
            if "S" in A and not (isinstance(A["S"], R) and A["S"].iszero()):
                num(rep, bad, "S%d" % i, "transforms dimension %d with stride" % (i + 1), A["S"], c, "==", m.conds)
            ap = A.get("app")
            if isinstance(ap, tuple) and ap[0] == "obj":
                B = named(p, m.news[ap[1]][1], m.news[ap[1]][2])
                mu = B.get("mult")
                if isinstance(mu, tuple) and mu[0] == "func":
                    nm = p.funcs[mu[1]]["base"] if mu[1] in p.funcs else mu[1]
                    w = ("realMultBinary" if h else "multBinary") if i == d - 1 else "multNone"
                    if nm != w:
                        bad("mult%d" % i, "multiplies in dimension %d with %s, not %s" % (i + 1, nm, w))
                for x, w in (("A", 2), ("B", 1)):
                    num(rep, bad, "%s%d" % (x, i), "declares in dimension %d a number %s of arrays" % (i + 1, x), B.get(x), toR(w), "==", m.conds)
            prev = ap


def named(p, ctor, ar):
    f = p.funcs.get(ctor)
    if not f:
        raise Undecided("constructor " + str(ctor))
    return {q["n"]: v for q, v in zip(f["params"], ar)}


def num(rep, bad, key, what, got, want, op, conds):
    if not isinstance(got, R):
        rep.undecided.append(key + ": not a number")
        return
    rep.count("identities")
    if got.same(want):
        return
    import itertools
    for l in itertools.product(range(1, 8), repeat=3):
        env = {("L", i): Fraction(x) for i, x in enumerate(l)}
        try:
            if any(ev_cond(c, env) != b for c, b in conds):
                continue
        except Unknown:
            pass
        try:
            g, w = ev_r(got, env), ev_r(want, env)
        except Unknown:
            rep.undecided.append(key + ": not evaluable")
            return
        if g != w and not (op == ">=" and g >= w):
            bad(key, "%s %s where %s %s is required (lengths %s)" % (what, g, "at least" if op == ">=" else "exactly", w, l))
            return


# ---------------------------------------------------------------- Fortran
def fortran(rep, defs):
    fl = "wrappers/fftwpp.f90"
    raw = read(fl)
    src = re.sub(r"!.*", "", raw)
    src = re.sub(r"&[ \t]*\n[ \t]*&?", " ", src)
    blocks = re.findall(r"^[ \t]*([^\n]*?\b(?:subroutine|function)\s+(\w+)\s*\(([^)]*)\)[^\n]*)\n(.*?)end\s+(?:subroutine|function)",
                        src, re.S | re.I | re.M)
    for head, name, params, body in blocks:
        b = re.search(r"bind\s*\(\s*c\s*(?:,\s*name\s*=\s*['\"](\w+)['\"])?", head, re.I)
        if not b:
            continue
        sym = b.group(1) or name.lower()
        rep.count("fortran_bindings")
        ln = line(raw, name)
        if sym not in defs:
            rep.bad("undefined:f90:" + sym, fl, ln, "%s is bound to %s, which is defined nowhere with C linkage" % (name, sym))
            continue
        f = defs[sym]
        mm, cm = re.search(r"(c|h)conv([123])d", name, re.I), CONV.match(sym)
        if mm and cm:
            k = (mm.group(1).lower() == "h", mm.group(2))
            c = (bool(cm.group(2) or cm.group(4)), cm.group(3) or cm.group(5))
            op = "create" if "create" in name.lower() else "delete" if "delete" in name.lower() else "convolve"
            if k != c or op != (cm.group(6) or "create"):
                rep.bad("binding:f90:" + name.lower(), fl, ln, "%s is bound to %s" % (name, sym))
        ps = [x.strip().lower() for x in params.split(",") if x.strip()]
        if len(ps) != len(f["params"]):
            rep.bad("arity:f90:" + sym, fl, ln, "%s passes %d arguments to %s, which takes %d" % (name, len(ps), sym, len(f["params"])))
            continue
        types, byval = {}, set()
        for d in re.findall(r"^\s*(integer|type|real|complex)\s*\(([^)]*)\)\s*(.*?)::\s*(.*)$", body, re.I | re.M):
            for v in re.split(r"[,\s]+", d[3].strip()):
                types[v.lower()] = d[1].strip().lower()
                if "value" in d[2].lower():
                    byval.add(v.lower())
        for i, (a, q) in enumerate(zip(ps, f["params"])):
            c, t = cls(q["t"]), types.get(a)
            ok = {"pointer": ("c_ptr",), "size": ("c_size_t", "c_long", "c_int64_t", "c_intptr_t")}.get(c)
            if t is None or ok is None:
                rep.undecided.append("%s argument %s" % (name, a))
            elif a not in byval:
                if c != "pointer":
                    rep.bad("byref:f90:%s:%d" % (sym, i), fl, ln, "%s passes argument %s of %s by reference" % (name, a, sym))
            elif c == "size" and t in ("c_int", "c_int32_t", "c_short"):
                rep.bad("width:f90:" + sym, fl, ln, "%s passes the size_t parameters of %s as %s" % (name, sym, t))
            elif t not in ok:
                rep.bad("type:f90:%s:%d" % (sym, i), fl, ln, "%s passes argument %s of %s as %s, not a %s" % (name, a, sym, t, c))
        r = re.match(r"\s*(?:(type|integer)\s*\(([^)]*)\))?\s*(?:(?:recursive|pure)\s+)*(function|subroutine)", head, re.I)
        c = cls(f["ret"])
        if r and r.group(3).lower() == "subroutine":
            if c != "void":
                rep.bad("result:f90:" + sym, fl, ln, "%s drops the result of %s" % (name, sym))
        elif r and r.group(2):
            t = r.group(2).strip().lower()
            if c == "void" or c == "pointer" and t != "c_ptr" or c == "size" and t == "c_ptr":
                rep.bad("result:f90:" + sym, fl, ln, "%s takes the result of %s as %s" % (name, sym, t))
            elif c == "size" and t in ("c_int", "c_int32_t"):
                rep.bad("width:f90:" + sym, fl, ln, "%s takes the size_t result of %s as %s" % (name, sym, t))


# ---------------------------------------------------------------- Python
class Py:
    FILE = "wrappers/fftwpp.py"

    def __init__(self, rep, defs):
        self.rep, self.defs = rep, defs
        try:
            self.tree = ast.parse(read(self.FILE))
        except SyntaxError as e:
            raise AnalysisBroken("fftwpp.py: %s" % e)

    def bad(self, key, node, msg):
        self.rep.bad(key + ":py", self.FILE, getattr(node, "lineno", 0), msg)

    def native(self, e):
        """name of a library function clib.NAME"""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.lib:
            return e.attr
        return None

    def run(self):
        self.lib = "clib"
        self.mod = {}
        for s in self.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.mod[s.targets[0].id] = s.value
                if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("CDLL", "PyDLL"):
                    self.lib = s.targets[0].id
        dyn = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and n.args
                  and isinstance(n.args[0], ast.Name) and n.args[0].id == self.lib for n in ast.walk(self.tree)) or \
            any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == self.lib for n in ast.walk(self.tree))
        names, at, rt = {}, {}, {}
        for n in ast.walk(self.tree):
            x = self.native(n)
            if x:
                names.setdefault(x, n)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and self.native(t.value):
                        (at if t.attr == "argtypes" else rt if t.attr == "restype" else {})[self.native(t.value)] = n.value
        for x, n in sorted(names.items()):
            self.rep.count("python_natives")
            f = self.defs.get(x)
            if not f:
                self.bad("undefined:" + x, n, "%s is called from Python but defined nowhere with C linkage" % x)
                continue
            if x not in at:
                if not dyn:
                    self.bad("argtypes:" + x, n, "%s is called from Python without argument types" % x)
            else:
                self.args(x, f, at[x])
            c = cls(f["ret"])
            r = self.tname(rt.get(x)) if x in rt else None
            if c == "pointer" and not (r in ("c_void_p",) or r and r.startswith("POINTER")) and not (dyn and x not in rt):
                self.bad("restype:" + x, n, "the pointer returned by %s is declared as %s" % (x, r or "int"))
            if c == "size" and r not in ("c_size_t", "c_ulong", "c_uint64") and not (dyn and x not in rt):
                self.bad("restype:" + x, n, "the size_t returned by %s is declared as %s" % (x, r or "int"))
        for c in self.tree.body:
            if isinstance(c, ast.ClassDef):
                self.klass(c)

    def res(self, e):
        while isinstance(e, ast.Name) and e.id in self.mod:
            e = self.mod[e.id]
        return e

    def tname(self, e):
        e = self.res(e)
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            return e.attr
        if isinstance(e, ast.Call):
            return (self.tname(e.func) or "") + "()"
        if isinstance(e, ast.Constant) and e.value is None:
            return "None"
        return None

    def args(self, x, f, e):
        e = self.res(e)
        el = self.elems(e)
        if el is None:
            self.rep.undecided.append("%s.argtypes" % x)
            return
        if len(el) != len(f["params"]):
            self.bad("arity:" + x, e, "Python declares %d arguments for %s, which takes %d" % (len(el), x, len(f["params"])))
            return
        for i, (a, q) in enumerate(zip(el, f["params"])):
            c, t = cls(q["t"]), self.tname(a)
            if t is None:
                self.rep.undecided.append("%s argument %d" % (x, i))
            elif c == "size" and t not in ("c_size_t", "c_ulong", "c_uint64"):
                self.bad("type:%s:%d" % (x, i), e, "Python passes argument %d of %s as %s, not size_t" % (i, x, t))
            elif c == "pointer" and "complex" in q["t"].lower():
                if t == "ndpointer()":
                    self.ndp(x, i, self.res(a))
                elif t in ("c_size_t", "c_int", "c_double", "c_long"):
                    self.bad("type:%s:%d" % (x, i), e, "Python passes argument %d of %s as %s, not an array" % (i, x, t))
            elif c == "pointer" and t != "c_void_p" and not t.startswith("POINTER"):
                self.bad("type:%s:%d" % (x, i), e, "Python passes argument %d of %s as %s, not a pointer" % (i, x, t))

    def elems(self, e):
        if isinstance(e, (ast.List, ast.Tuple)):
            return [self.res(a) if not isinstance(a, ast.Name) or a.id in self.mod else a for a in e.elts]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            l, r = self.elems(self.res(e.left)), self.elems(self.res(e.right))
            return l + r if l is not None and r is not None else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                l = self.elems(self.res(a))
                if l is not None and isinstance(b, ast.Constant) and isinstance(b.value, int):
                    return l * b.value
        return None

    def ndp(self, x, i, c):
        kw = {k.arg: k.value for k in c.keywords}
        pos = ["dtype", "ndim", "shape", "flags"]
        for n, a in zip(pos, c.args):
            kw[n] = a
        d = ast.unparse(kw["dtype"]) if "dtype" in kw else ""
        if "complex128" not in d and "complex" != d and "c16" not in d and "cdouble" not in d and d not in self.mod:
            self.bad("dtype:%s:%d" % (x, i), c, "array argument %d of %s is not restricted to complex128" % (i, x))
        fl = ast.unparse(self.res(kw["flags"])) if "flags" in kw else ""
        if not re.search(r"C_CONTIGUOUS|CONTIGUOUS|C_CONTIG|CARRAY|'C'", fl) or "F_CONTIG" in fl and "C_CONTIG" not in fl:
            self.bad("contiguous:%s:%d" % (x, i), c, "array argument %d of %s may be strided" % (i, x))

    # ---- classes
    def klass(self, c):
        meth = {m.name: m for m in c.body if isinstance(m, ast.FunctionDef)}
        init, conv, dele = meth.get("__init__"), meth.get("convolve"), meth.get("__del__")
        if not init or not conv or not any(self.native(n) for n in ast.walk(init)):
            return
        self.rep.count("python_classes")
        herm = c.name.startswith("H")
        # triples chosen per dimension
        for d, body in self.branches(init):
            slots = {}
            for s in body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        t = n.targets[0]
                        ts, vs = ([t], [n.value]) if not (isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple)) else (t.elts, n.value.elts)
                        for t, v in zip(ts, vs):
                            if isinstance(t, ast.Attribute):
                                f = v.func if isinstance(v, ast.Call) else v
                                if self.native(f):
                                    slots[t.attr] = (self.native(f), v)
            if not slots:
                continue
            self.rep.count("python_triples")
            k = "%sconv%dd" % ("h" if herm else "", d)
            want = {"fftwpp_create_" + k, "fftwpp_%s_convolve" % k, "fftwpp_%s_delete" % k}
            for a, (x, v) in slots.items():
                if x not in want:
                    self.bad("triple:%s:%d:%s" % (c.name, d, a), v, "a %d-dimensional %s uses %s" % (d, c.name, x))
                if x.startswith("fftwpp_create") and isinstance(v, ast.Call):
                    got = self.vals(v.args, init, d, None)
                    w = lambda s: [2 * y - 1 if herm and j == d - 1 else y for j, y in enumerate(s)]
                    if got is None:
                        self.rep.undecided.append("%s: arguments of %s" % (c.name, x))
                    else:
                        for s, g in got:
                            if g != w(s):
                                self.bad("create:%s:%d" % (c.name, d), v, "for shape %s %s is called with %s, not %s" % (s, x, g, w(s)))
                                break
        # convolve
        par = [a.arg for a in conv.args.args]
        if len(par) < 3:
            self.rep.undecided.append("%s.convolve: parameters" % c.name)
            return
        me, f, g = par[:3]
        first = [None]
        guarded = set()
        self.scan(conv.body, me, (f, g), guarded, meth, c)
        runs = [n for n in ast.walk(conv) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                and n.func.value.id == me and n.func.attr == "_convolve"]
        for n in runs:
            a = [ast.unparse(x) for x in n.args]
            if a != [me + ".cptr", f, g]:
                if all(isinstance(x, (ast.Name, ast.Attribute)) for x in n.args):
                    self.bad("call:" + c.name, n, "%s.convolve passes (%s) to the native convolution" % (c.name, ", ".join(a)))
                else:
                    self.rep.undecided.append("%s.convolve: arguments" % c.name)
        if len(runs) > 1:
            self.rep.undecided.append("%s.convolve: several native convolutions" % c.name)
        if not runs:
            self.rep.undecided.append("%s.convolve: native call not found" % c.name)
        if herm:
            self.symm(conv, f, g, c)

    def branches(self, init):
        """(dimension, statements) of the if-chain on the dimension"""
        out = []

        def go(s):
            if not isinstance(s, ast.If):
                return
            t = s.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
                k = [x for x in (t.left, t.comparators[0]) if isinstance(x, ast.Constant) and isinstance(x.value, int)]
                if k and "dim" in ast.unparse(t) or k and "len" in ast.unparse(t):
                    out.append((k[0].value, s.body))
            for x in s.orelse:
                go(x)
        for s in init.body:
            go(s)
        return out

    def vals(self, args, fnode, d, only):
        """concrete argument lists for sample shapes"""
        import itertools
        env0 = {}
        out = []
        for s in itertools.product((1, 2, 3, 4, 5, 8), repeat=d):
            env = {"shape": s}
            try:
                g = []
                for a in args:
                    if isinstance(a, ast.Starred):
                        g += list(self.ev(a.value, env))
                    else:
                        g.append(self.ev(a, env))
                out.append((s, g))
            except (KeyError, TypeError, IndexError, Undecided):
                return None
        return out

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return env[e.id]
        if isinstance(e, ast.Attribute):
            if e.attr == "shape":
                return env["shape"]
            if e.attr == "dim":
                return len(env["shape"])
            raise Undecided("attribute")
        if isinstance(e, ast.Subscript):
            return self.ev(e.value, env)[self.ev(e.slice, env)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -self.ev(e.operand, env)
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left, env), self.ev(e.right, env)
            op = type(e.op).__name__
            F = {"Add": lambda: l + r, "Sub": lambda: l - r, "Mult": lambda: l * r, "FloorDiv": lambda: l // r, "Mod": lambda: l % r,
                 "RShift": lambda: l >> r, "LShift": lambda: l << r}
            if op in F:
                return F[op]()
            raise Undecided("operator")
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("c_size_t", "int", "tuple") and len(e.args) == 1:
            return self.ev(e.args[0], env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            return len(self.ev(e.args[0], env))
        raise Undecided("expression")

    def scan(self, body, me, names, ok, meth, c, depth=0):
        """statements in order; native code may run only when both shapes have been compared"""
        for s in body:
            run = [n for n in ast.walk(s) if isinstance(n, ast.Call) and (self.native(n.func) or isinstance(n.func, ast.Attribute)
                   and isinstance(n.func.value, ast.Name) and n.func.value.id == me and n.func.attr == "_convolve")]
            if run and not set(names) <= ok:
                missing = [x for x in names if x not in ok]
                self.bad("shape:" + c.name, run[0], "%s.convolve runs native code without having compared the shape of %s with the object's" %
                         (c.name, " and ".join(missing)))
                ok |= set(names)
            cmp = []
            if isinstance(s, ast.Assert):
                cmp = self.conj(s.test, True)
            elif isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                cmp = self.conj(s.test, False)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                    and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == me and s.value.func.attr in meth and depth < 3:
                m = meth[s.value.func.attr]
                ps = [a.arg for a in m.args.args]
                mp = {q: ast.unparse(a) for q, a in zip(ps[1:], s.value.args)}
                inner = set()
                self.scan(m.body, ps[0], (), inner, meth, c, depth + 1)
                for q in inner:
                    if mp.get(q) in names or depth:
                        ok.add(mp.get(q))
            elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Tuple, ast.List)):
                inner = set()
                self.scan(s.body, me, (), inner, meth, c, depth + 1)
                if s.target.id in inner:
                    ok |= {ast.unparse(x) for x in s.iter.elts}
            for l, r in cmp:
                for a, b in ((l, r), (r, l)):
                    x = re.fullmatch(r"(?:np\.shape\()?(\w+)(?:\.shape|\))", ast.unparse(a))
                    if x and ast.unparse(b) in (me + ".shape", "tuple(%s.shape)" % me):
                        ok.add(x.group(1))

    def conj(self, t, pos):
        """comparisons known to hold after the test"""
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if pos else ast.Or):
            return [x for v in t.values for x in self.conj(v, pos)]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.conj(t.operand, not pos)
        if isinstance(t, ast.Compare):
            ops = t.ops
            w = ast.Eq if pos else ast.NotEq
            if all(isinstance(o, w) for o in ops) and (pos or len(ops) == 1):
                xs = [t.left] + t.comparators
                if pos and len(xs) > 2:
                    return [(a, b) for a in xs for b in xs if a is not b]
                return list(zip(xs, xs[1:]))
        return []

    def symm(self, conv, f, g, c):
        W = {"fftwpp_HermitianSymmetrizeX": (2, lambda s: [(s[0] + 1) // 2, s[1], s[0] // 2]),
             "fftwpp_HermitianSymmetrizeXY": (3, lambda s: [(s[0] + 1) // 2, (s[1] + 1) // 2, s[2], s[0] // 2, s[1] // 2]),
             "fftwpp_HermitianSymmetrize": (1, lambda s: [])}
        seen = {}

        def go(body, asg):
            for s in body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    t = s.targets[0]
                    if isinstance(t, ast.Name):
                        asg = asg + [(t.id, s.value)]
                    elif isinstance(t, ast.Tuple):
                        asg = asg + [(tuple(getattr(x, "id", "?") for x in t.elts), s.value)]
                for n in ast.walk(s) if not isinstance(s, (ast.If, ast.For)) else ():
                    if isinstance(n, ast.Call) and self.native(n.func) in W:
                        self.sym1(c, n, asg, W, seen)
                if isinstance(s, ast.If):
                    go(s.body, list(asg))
                    go(s.orelse, list(asg))
                elif isinstance(s, ast.For):
                    if isinstance(s.iter, (ast.Tuple, ast.List)) and isinstance(s.target, ast.Name):
                        for x in s.iter.elts:
                            self.alias = {s.target.id: ast.unparse(x)}
                            go(s.body, list(asg))
                        self.alias = {}
        self.alias = {}
        go(conv.body, [])
        for x, arrs in seen.items():
            if "?" in arrs:
                continue
            for a in (f, g):
                if a not in arrs:
                    self.bad("symmetrize:%s:%s" % (c.name, x), conv, "%s.convolve does not symmetrize %s with %s" % (c.name, a, x))

    def sym1(self, c, n, asg, W, seen):
        x = self.native(n.func)
        d, w = W[x]
        arr = ast.unparse(n.args[-1]) if n.args else "?"
        seen.setdefault(x, set()).add(self.alias.get(arr, arr))
        import itertools
        for s in itertools.product((1, 2, 3, 4, 5, 8), repeat=d):
            env = {"shape": s}
            try:
                for t, v in asg:
                    try:
                        val = self.ev(v, env)
                    except (KeyError, TypeError, IndexError, Undecided):
                        continue
                    if isinstance(t, tuple):
                        env.update(zip(t, val))
                    else:
                        env[t] = val
                got = [self.ev(a, env) for a in n.args[:-1]]
            except (KeyError, TypeError, IndexError, Undecided):
                self.rep.undecided.append("%s: arguments of %s" % (c.name, x))
                return
            if got != w(s):
                self.bad("symmetrize:%s:%s:args" % (c.name, x), n, "for shape %s %s is called with %s, not %s" % (s, x, got, w(s)))
                return
        self.rep.count("python_symmetrizations")
