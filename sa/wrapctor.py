"""Symbolic evaluation of small glue functions: objects, calls and new-expressions are recorded, integers are
rational functions of the parameters (integer division and remainder stay uninterpreted)."""
from .algebra import Interp, R, Undecided, toR, P, Poly
from .repo import strip


class Glue(Interp):
    """values: numbers (R), ("obj", n) for new-expressions, ("sym", name) for opaque pointers,
    ("objf", base, field) for a field of an opaque object, ("func", id), ("arr", [values])"""

    def st(self):
        m = self.m
        if not hasattr(m, "news"):
            m.news, m.events, m.fields = [], [], {}
        return m

    def opaque(self, v):
        return isinstance(v, tuple) and v[0] in ("obj", "sym", "objf", "func", "res", "this")

    def e_this(self, e):
        return self.this

    def e_new(self, e):
        i = strip(e["init"]) if e.get("init") else {}
        m = self.st()
        args = []
        if i.get("k") == "ctor":
            args = [self.rval(a) for a in i["args"]]
        m.news.append((e["t"], i.get("fn"), args, e.get("ln")))
        return ("obj", len(m.news) - 1)

    def rval(self, a):
        v = self.val(self.ev(a))
        return v

    def val(self, a):
        if isinstance(a, tuple) and a[0] == "fld":
            return self.st().fields.get(a[1:], ("objf",) + a[1:])
        return super().val(a)

    def e_mem(self, e):
        b = self.val(self.ev(e["b"]))
        if self.opaque(b):
            return ("fld", b, e["f"])
        return super().e_mem(e)

    def e_rv(self, e):
        v = self.ev(e["e"])
        if isinstance(v, tuple) and v[0] == "fld":
            return self.val(v)
        return super().e_rv(e)

    def set(self, l, v, ln=None):
        if l[0] == "fld":
            self.st().fields[l[1:]] = v
            return
        if l[0] == "cell" and isinstance(l[1], tuple) and l[1][0] == "glob":
            self.st().events.append(("store", l[1][1], v, ln))
        super().set(l, v, ln)

    def e_un(self, e):
        if e["op"] in ("*", "&"):
            v = self.val(self.ev(e["e"]))
            if self.opaque(v):
                return v
        return super().e_un(e)

    def e_initlist(self, e):
        if "[" in e.get("t", ""):
            return ("arr", [self.rval(a) for a in e.get("args") or []])
        return super().e_initlist(e)

    def e_ref(self, e):
        if e.get("vk") == "func":
            return ("func", e["id"])
        return super().e_ref(e)

    def e_cast(self, e):
        v = self.val(self.ev(e["e"]))
        if self.opaque(v) or isinstance(v, tuple) and v[0] == "arr":
            return v
        return super().e_cast(e)

    def e_ctor(self, e):
        a = e.get("args") or []
        if len(a) == 1:
            v = self.ev(a[0])
            if self.opaque(self.val(v)) or isinstance(self.val(v), R):
                return v
        return super().e_ctor(e)

    def decl(self, d):
        if d.get("init") is not None and not d.get("static"):
            v = self.ev(d["init"])
            w = self.val(v)
            if self.opaque(w) or isinstance(w, tuple) and w[0] == "arr":
                self.m.env[d["id"]] = v if d["t"].rstrip().endswith("&") and v[0] == "fld" else ("box", [w])
                return
        super().decl(d)

    def e_delete(self, e):
        self.st().events.append(("delete", self.val(self.ev(e["e"])), e.get("t"), e.get("ln")))
        return None

    def e_call(self, e):
        f = self.p.funcs.get(e.get("fn"))
        n = e.get("name", "").split("::")[-1]
        o = self.val(self.ev(e["obj"])) if e.get("obj") is not None else None
        if f and f.get("body") and o is None and self.inline(f):
            return super().e_call(e)
        args = [self.rval(a) for a in e["args"]]
        m = self.st()
        m.events.append(("call", e.get("name"), e.get("fn"), o, args, e.get("ln")))
        return ("res", len(m.events) - 1)

    def ctorinit(self, i, this):
        if i.get("field"):
            self.st().fields[(this, i["field"])] = self.val(self.ev(i["e"]))


# ---- instantiation of extracted expressions (to refute an identity)
from fractions import Fraction


class Unknown(Exception):
    pass


def ev_poly(p, env):
    return sum((mono(m, c, env) for m, c in p.t.items()), Fraction(0))


def mono(m, c, env):
    t = Fraction(c)
    for s, e in m:
        t *= ev_sym(s, env) ** e
    return t


def ev_r(r, env):
    d = ev_poly(r.d, env)
    if d == 0:
        raise Unknown
    return ev_poly(r.n, env) / d


def ev_key(k, env):
    if k[0] == "r":
        return sum((mono(m, c, env) for m, c in k[1]), Fraction(0))
    return ev_poly(k[1], env) / ev_poly(k[2], env)


def ev_sym(s, env):
    if s in env:
        return env[s]
    if s[0] == "fn" and s[1].startswith("int"):
        a, b = (int(ev_key(k, env)) for k in s[2])
        op = s[1][3:]
        if op in ("/", "%") and b == 0 or a < 0 or b < 0:
            raise Unknown
        return Fraction({"/": lambda: a // b, "%": lambda: a % b, ">>": lambda: a >> b, "<<": lambda: a << min(b, 64),
                         "max": lambda: max(a, b), "min": lambda: min(a, b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]())
    raise Unknown


def ev_cond(c, env):
    if c[0] == "not":
        return not ev_cond(c[1], env)
    if c[0] == "rel":
        x = ev_key(c[2], env)
        return x == 0 if c[1] == "==" else x != 0 if c[1] == "!=" else x < 0
    raise Unknown
