"""Symbolic evaluation of the transform classes: constructors, plan creation, execution, normalisation.

Objects are ("this", class); pointers are ("sym", name), ("off", base, offset, element type) or null; integers are
rational functions of the constructor's parameters.  Virtual calls are resolved in the dynamic class."""
from fractions import Fraction
from .algebra import R, Undecided, toR, P, Poly, fn, Ret, norm as tnorm
from .repo import strip, walk
from .wrapctor import Glue, ev_r, ev_key, ev_cond, Unknown

NULL = ("sym", "null")
INT = ("size_t", "unsigned long", "long", "uintptr_t", "unsigned int", "int")


class Exit(Exception):
    pass


def clean(t):
    return (t or "").replace("const", "").replace("fftwpp::", "").strip()


class Xf(Glue):
    limit = 1024
    record = ("Execute", "Normalize")     # calls recorded rather than followed

    def __init__(self, p, cls, fields=None, record=None, libs=()):
        super().__init__(p, inline=lambda f: True)
        self.cls = cls
        self.obj = ("this", cls)
        self.fields0 = dict(fields or {})
        self.preset = {}
        if record is not None:
            self.record = record

    def runall(self, f, args, ctor=False):
        """paths: (result, memory, exited)"""
        out, todo = [], [[]]
        while todo:
            ch = todo.pop()
            self.choices, self.pos = ch, 0
            self.n = self.steps = 0
            from .algebra import Mem
            self.m = m = Mem()
            m.news, m.events, m.fields = [], [], {(self.obj, k): v for k, v in self.fields0.items()}
            r, ex = None, False
            try:
                r = self.call(f, args, self.obj)
            except Exit:
                ex = True
            for i in range(len(ch), len(self.choices)):
                todo.append(self.choices[:i] + [not self.choices[i]])
            out.append((r, m, ex))
            if len(out) > self.limit:
                raise Undecided("too many paths")
        return out

    # ---- values
    def opaque(self, v):
        return isinstance(v, tuple) and v and v[0] in ("obj", "sym", "objf", "func", "res", "this", "off", "addr")

    def e_this(self, e):
        return self.this

    def e_null(self, e):
        return NULL

    e_nullptr = e_null

    def num(self, e):
        v = self.val(self.ev(e))
        if isinstance(v, R):
            return v
        return super().num(e)

    def asptr(self, v):
        """an integer 0 used as a pointer"""
        if isinstance(v, R) and v.iszero():
            return NULL
        return v

    def isp(self, v):
        return self.opaque(v)

    def truth(self, v):
        v = self.val(v)
        if self.isp(v):
            if v == NULL:
                return False
            if v[0] in ("sym", "off", "obj", "this", "addr"):
                return True
            return self.choose(("nn", repr(v)))
        if isinstance(v, tuple) and v and v[0] == "not" and self.isp(v[1]):
            return not self.truth(v[1])
        return super().truth(v)

    def cast(self, t, v):
        if self.isp(v):
            if clean(t) in INT:
                return R(Poly.sym(("ptrint", repr(v))))
            if v[0] == "off":
                return v if v[3] == pointee(t) or "*" not in t else ("off", v[1], v[2], v[3])
            return v
        if "*" in clean(t) and isinstance(v, R) and v.iszero():
            return NULL
        return v

    def e_icast(self, e):
        v = self.ev(e["e"])
        if e.get("ck") == "NullToPointer":
            return NULL
        return self.cast(e.get("t", ""), v)

    def e_cast(self, e):
        v = self.ev(e["e"])
        w = self.val(v)
        if self.opaque(w):
            return self.cast(e.get("t", ""), w)
        if "*" in e.get("t", "") and isinstance(w, R) and w.iszero():
            return NULL
        return v

    def e_bin(self, e):
        op = e["op"]
        if op in ("==", "!=", "+", "-", "^", "&&", "||", ",", "/", "%"):
            if op in ("&&", "||", ","):
                return super().e_bin(e)
            a, b = self.val(self.ev(e["l"])), self.val(self.ev(e["r"]))
            if op in ("==", "!=") and (self.isp(a) or self.isp(b)):
                if isinstance(a, R) and b[0] == "res" or isinstance(b, R) and a[0] == "res":
                    return self.plain(e, op, self.asval(a), self.asval(b))
                a, b = self.asptr(a), self.asptr(b)
                if not (self.isp(a) and self.isp(b)):
                    return self.plain(e, op, self.asval(a), self.asval(b))
                r = a == b if a[0] == b[0] == "sym" or a == b or NULL in (a, b) and a[0] in ("sym", "off") and b[0] in ("sym", "off") \
                    else self.choose(("peq",) + tuple(sorted((repr(a), repr(b)))))
                return r if op == "==" else not r
            if isinstance(a, tuple) and a[0] == "ptr":
                return super().e_bin(e)
            if op in ("+", "-") and self.isp(a):
                i = self.asnum(b)
                t = pointee(clean(e.get("t") or ""))
                i = -i if op == "-" else i
                if a[0] == "off":
                    if a[3] != t:
                        raise Undecided("offsets in different element types")
                    return ("off", a[1], a[2] + i, t)
                return ("off", a, i, t)
            if op == "^":
                x, y = self.bool(a), self.bool(b)
                return toR(int(x != y))
            if op in ("==", "!="):
                if self.bl(a) and self.bl(b):
                    r = self.bool(a) == self.bool(b)
                    return r if op == "==" else not r
            if op == "/" and isinstance(a, R) and isinstance(b, R) and e.get("t") != "double" and tnorm(e.get("t")) != "double":
                q = exact(a, b)
                if q is not None:
                    return q
            return self.plain(e, op, a, b)
        return super().e_bin(e)

    def asval(self, v):
        """an opaque result used as a number"""
        return R(Poly.sym(("val", repr(v)))) if self.opaque(v) and v[0] in ("res", "objf") else v

    def arith(self, op, a, b):
        return super().arith(op, self.asval(a), self.asval(b))

    def bl(self, v):
        return v is True or v is False

    def plain(self, e, op, a, b):
        if a is True or a is False:
            a = toR(int(a))
        if b is True or b is False:
            b = toR(int(b))
        a, b = self.asval(a), self.asval(b)
        if isinstance(a, R) and isinstance(b, R):
            if op in ("==", "!="):
                r = self.rel(op, a, b)
                return r if r is True or r is False else self.truth(r)
            if op in ("/", "%") and "double" not in e.get("t", ""):
                if a.n.isconst() and b.n.isconst() and a.d.isconst() and b.d.isconst() and not b.iszero():
                    x, y = int(a.n.cval() / a.d.cval()), int(b.n.cval() / b.d.cval())
                    return toR(x // y if op == "/" else x % y)
                if op == "%" and len(a.n.t) == 1 and any(s[0] == "ptrint" for mm in a.n.t for s, _ in mm):
                    return toR(0)          # arrays are suitably aligned
                return fn("int" + op, a, b)
            return self.arith(op, a, b)
        raise Undecided("operands " + str((op, a, b))[:150])

    def bool(self, v):
        return self.truth(v)

    def e_un(self, e):
        op = e["op"]
        if op in ("*", "&"):
            l = self.ev(e["e"])
            if op == "&":
                v = self.val(l)
                if isinstance(l, tuple) and l[0] == "fld" or isinstance(v, R):
                    return ("addr", v)
            else:
                v = self.val(l)
                if self.opaque(v):
                    return v
        if op == "!":
            return not self.truth(self.val(self.ev(e["e"])))
        return super().e_un(e)

    def e_cond(self, e):
        return self.ev(e["l"] if self.truth(self.ev(e["c"])) else e["r"])

    def e_mem(self, e):
        b = self.val(self.ev(e["b"]))
        if self.opaque(b):
            if b[0] in ("this", "obj", "sym"):
                k = (b, (e.get("c", "").split("::")[-1], e["f"]) if e["f"] == "threads" else e["f"])
                if k not in self.m.fields and clean(e.get("t")) in INT + ("bool", "double"):
                    self.m.fields[k] = R(Poly.sym(("fld", e["f"] if b[0] == "this" else "%s.%s" % (b[1], e["f"]))))
                return ("fld", b, (e.get("c", "").split("::")[-1], e["f"]) if e["f"] == "threads" else e["f"])
            if b[0] == "objf" and clean(e.get("t")) in INT + ("bool",) and (b, e["f"]) not in self.m.fields and "'local'" not in repr(b):
                return R(Poly.sym(("fld", path(b) + "." + e["f"])))
            return ("fld", b, e["f"])
        if isinstance(b, tuple) and b[0] == "rec":
            return b[1].get(e["f"], ("objf", "rec", e["f"]))
        return super().e_mem(e)

    def val(self, a):
        if isinstance(a, tuple) and a and a[0] == "fld":
            k = a[1:]
            if k in self.m.fields:
                return self.m.fields[k]
            return ("objf",) + k
        return super(Glue, self).val(a)

    def e_ref(self, e):
        if e.get("vk") in ("global", "slocal"):
            t = clean(e.get("t"))
            if t in ("size_t", "unsigned int", "int", "bool", "unsigned long"):
                g = self.p.globals.get(e["id"])
                if not (g and g.get("const") and g.get("init")):
                    return R(Poly.sym(("g", e["n"])))
            if "*" in t or "string" in t or "stream" in t:
                return ("objf", "glob", e["n"])
            if e["id"] not in self.m.env and not (t in ("double",)):
                return ("objf", "glob", e["n"])
        return super().e_ref(e)

    def e_fnptr(self, e):
        return ("sym", "&%s" % (e.get("n") or e.get("name") or e.get("fn") or "function"))

    def e_mpcall(self, e):
        args = [self.rval(a) for a in e.get("args") or []]
        self.m.events.append(("call", "(member)", None, None, args, e.get("ln"), tuple(self.m.loops)))
        return ("res", len(self.m.events) - 1)

    def e_str(self, e):
        return ("objf", "lit", e.get("v"))

    e_string = e_str

    def e_typeid(self, e):
        return ("sym", "typeid " + e.get("of", "?"))

    def e_idx(self, e):
        b = self.val(self.ev(e["b"]))
        if self.opaque(b):
            i = self.num(e["i"])
            if b[0] == "objf" and i.n.isconst() and i.d.isconst():
                return ("fld", b, ("idx", int(i.n.cval() / i.d.cval())))
            t = pointee(clean(strip(e["b"]).get("t") or "")) if "*" in (strip(e["b"]).get("t") or "") else clean(e["t"])
            p = ("off", b, i, t) if b[0] != "off" else ("off", b[1], b[2] + i, b[3])
            return ("elt", p)
        return super().e_idx(e)

    def e_sizeof(self, e):
        return self.szof(e)

    def szof(self, e):
        if e.get("v") is None:
            raise Undecided("sizeof")
        return toR(int(e["v"]))

    def set(self, l, v, ln=None):
        if l[0] == "fld":
            self.m.fields[l[1:]] = v
            self.m.events.append(("set", l[2], v, ln))
            return
        if l[0] in ("res", "elt", "objf"):
            self.m.events.append(("setx", l, v, ln))
            return
        super().set(l, v, ln)

    def e_asg(self, e):
        if e["op"] == "=":
            r = self.val(self.ev(e["r"]))
            if self.opaque(r) or isinstance(r, R) or r is True or r is False:
                l = self.ev(e["l"])
                if not isinstance(l, tuple):
                    raise Undecided("assignment target")
                if l[0] in ("cell", "box") and self.opaque(r) or l[0] == "fld":
                    if l[0] == "cell":
                        raise Undecided("store of a pointer")
                    self.set(l, r, e.get("ln"))
                    return l
        return super().e_asg(e)

    def param(self, t, a):
        a = a if t.rstrip().endswith("&") else self.val(a)
        if "*" in t:
            a = self.asptr(a)
        return super().param(t, a)

    def decl(self, d):
        if d.get("init") is not None and not d.get("static") and not (strip(d["init"]).get("k") == "ctor" and "[" in d.get("t", "")):
            v = self.val(self.ev(d["init"]))
            if "*" in d["t"]:
                v = self.asptr(v)
            if self.opaque(v) or v is True or v is False:
                self.m.env[d["id"]] = ("box", [v])
                return
            if isinstance(v, R):
                self.m.env[d["id"]] = self.box(v)
                return
        elif d.get("init") is None and "[" in d.get("t", "") or strip(d.get("init") or {}).get("k") == "ctor" and "[" in d.get("t", ""):
            self.m.env[d["id"]] = ("objf", "local", d["n"])
            return
        super().decl(d)

    # ---- calls
    def call(self, f, args, this=None):
        old = getattr(self, "ctorcls", None)
        self.ctorcls = (f.get("cls") or "").split("::")[-1] if f else None
        try:
            return super().call(f, args, this)
        finally:
            self.ctorcls = old

    def e_call(self, e):
        f = self.p.funcs.get(e.get("fn"))
        n = (e.get("name") or "(indirect)").split("::")[-1]
        if n in ("exit", "abort", "_exit"):
            a = [self.rval(x) for x in e["args"]]
            self.m.events.append(("exit", a[0] if a else toR(1), e.get("ln")))
            raise Exit()
        if n in ("max", "min") and len(e["args"]) == 2:
            a, b = (self.asnum(self.val(self.ev(x))) for x in e["args"])
            if a.same(b):
                return a
            return fn("int" + n, a, b)
        o = self.val(self.ev(e["obj"])) if e.get("obj") is not None else None
        if n == "operator==" and o is not None and len(e["args"]) == 1 and o[0] == "sym" and str(o[1]).startswith("typeid"):
            return o == self.val(self.ev(e["args"][0]))
        if n in ("operator*=", "operator/=") and len(e["args"]) == 1 and isinstance(o, tuple) and o[0] == "agg":
            s = self.val(self.ev(e["args"][0]))
            if isinstance(s, R):
                l = self.ev(e["obj"])
                a, b = self.get(l)
                self.set(l, self.pair(*((a * s, b * s) if n[-2] == "*" else (a / s, b / s))), e.get("ln"))
                return l
            raise Undecided("scaling")
        if isinstance(o, tuple) and o[0] == "agg" and n == "operator=" and len(e["args"]) == 1:
            v = self.val(self.ev(e["args"][0]))
            if isinstance(v, R) or isinstance(v, tuple) and v[0] == "agg":
                l = self.ev(e["obj"])
                a, b = self.get(v)
                self.set(l, self.pair(a, b), e.get("ln"))
                return l
            raise Undecided("assigned value")
        if n in ("operator-", "operator+", "operator*", "operator/", "conj", "Complex") and not o and e["args"]:
            v = [self.val(self.ev(x)) for x in e["args"]]
            if any(isinstance(x, tuple) and x[0] == "agg" for x in v) and all(isinstance(x, (R, tuple)) for x in v):
                return self.complexop(n, [self.get(x) if not self.opaque(x) else (x, x) for x in v])
        if n in ("real", "imag") and isinstance(o, tuple) and o[0] == "agg":
            if e["args"]:
                raise Undecided("component store")
            return self.get(o)[n == "imag"]
        if isinstance(o, tuple) and o[0] == "agg" and n.startswith("operator"):
            raise Undecided("complex " + n)
        if n.startswith("operator") and n not in ("operator=", "operator()"):
            self.m.events.append(("op", n, None, e.get("ln")))
            return ("res", len(self.m.events) - 1)
        if f is not None and (o is None and f["kind"] != "method" or o == self.obj):
            g = f
            if o == self.obj and e.get("virt"):
                g = self.p.override_in(f["id"], self.cls) or f
            if g.get("body") and g["base"] not in self.record and (o == self.obj or self.follow(g)):
                args = [self.ev(a) for a in e["args"]]
                return self.call(g, args, o if o is not None else None)
            if g is not f:
                f = g
        args = [self.rval(a) for a in e["args"]]
        self.m.events.append(("call", n, f["id"] if f else e.get("fn"), o, args, e.get("ln"), tuple(self.m.loops)))
        return ("res", len(self.m.events) - 1)

    def complexop(self, n, v):
        (a, b) = v[0]
        if n == "conj":
            return self.pair(a, -b)
        if len(v) == 1 and n in ("operator-", "operator+"):
            return self.pair(-a, -b) if n == "operator-" else self.pair(a, b)
        if len(v) == 2:
            c, d = v[1]
            if n in ("operator-", "operator+"):
                return self.pair(a + c, b + d) if n == "operator+" else self.pair(a - c, b - d)
            if n == "operator*":
                return self.pair(a * c - b * d, a * d + b * c)
            if n == "operator/" and d.iszero():
                return self.pair(a / c, b / c)
        raise Undecided("complex " + n)

    def follow(self, f):
        return f["base"] in ("Inplace", "realsize", "ceilquotient", "Dist") or f.get("cls") in self.p.bases(self.cls)

    def e_new(self, e):
        i = strip(e["init"]) if e.get("init") else {}
        args = [self.rval(a) for a in i["args"]] if i.get("k") == "ctor" else []
        self.m.news.append((e["t"], i.get("fn"), args, e.get("ln")))
        return ("obj", len(self.m.news) - 1)

    def ctorinit(self, i, this):
        if isinstance(this, tuple) and this[0] == "agg":
            return super(Glue, self).ctorinit(i, this)
        if i.get("field"):
            k = i["field"]
            if k == "threads":
                k = (self.ctorcls, "threads")
            if i.get("e") is None:
                return
            v = self.val(self.ev(i["e"]))
            if this == self.obj:
                self.m.fields[(this, k)] = v
            return
        e = strip(i["e"]) if i.get("e") else {}
        if e.get("k") == "ctor":
            f = self.p.funcs.get(e.get("fn"))
            if f and f.get("body"):
                self.call(f, [self.ev(a) for a in e["args"]], this)

    def e_ctor(self, e):
        t = clean(e.get("t") or e.get("cls") or "")
        a = e.get("args") or []
        f = self.p.funcs.get(e.get("fn"))
        if len(a) == 1:
            v = self.ev(a[0])
            if self.opaque(self.val(v)) or isinstance(self.val(v), R):
                return v
        if f and f.get("body") and t in ("Doubles",):
            old = self.m.fields
            tmp = ("this", t)
            saved = self.obj
            try:
                self.obj = tmp
                self.call(f, [self.ev(x) for x in a], tmp)
            finally:
                self.obj = saved
            return tmp
        if t not in ("Complex",):
            a = [self.rval(y) for y in a]
            self.m.events.append(("ctor", t, None, None, a, e.get("ln")))
            return ("res", len(self.m.events) - 1)
        return super().e_ctor(e)


def path(b):
    """dotted name of a subobject"""
    if b[0] == "objf":
        p = path(b[1]) if isinstance(b[1], tuple) else ""
        return (p + "." if p else "") + str(b[2])
    return "" if b[0] == "this" else str(b[1])


def pointee(t):
    t = clean(t)
    return t[:-1].strip() if t.endswith("*") else t


def exact(a, b):
    """a/b when every coefficient divides"""
    if not (b.n.isconst() and b.d.isconst() and a.d.isconst()):
        return None
    q = b.n.cval() / b.d.cval()
    if q == 0:
        return None
    r = a / b
    c = Fraction(1) / r.d.cval() if r.d.isconst() else None
    if c is None:
        return None
    for m, k in r.n.t.items():
        if (Fraction(k) * c).denominator != 1:
            return None
        if any(s[0] == "fn" for s, _ in m) and False:
            return None
    return r


def instances(params, conds, lo=1, hi=4, extra=None):
    """small positive values of the parameters that satisfy the path conditions"""
    import itertools
    names = list(params)
    n = 0
    for vs in itertools.product(*[range(*(params[k])) for k in names]):
        env = {k: Fraction(v) for k, v in zip(names, vs)}
        ok = True
        for c, b in conds:
            try:
                if ev_cond(c, env) != b:
                    ok = False
                    break
            except Unknown:
                continue
        if ok:
            yield env
