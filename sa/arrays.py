"""Evaluation of the Array.h classes (instantiated for double): an object is a set of symbolic fields,
element addresses are pointer + polynomial, storage state is concrete."""
from .algebra import Interp, R, Undecided, toR, P, Poly, Mem, fn
from .repo import strip, walk

RECORD = {"Check", "CheckEqual", "CheckSize", "Load", "Store", "Input"}


def const(v):
    if v is True or v is False:
        return int(v)
    if isinstance(v, R) and v.n.isconst() and v.d.isconst():
        c = v.n.cval() / v.d.cval()
        if c == int(c):
            return int(c)
    return None


class Arrays(Interp):
    """values: R, ("ptr", base, off), ("obj", n, class)"""

    def __init__(self, prog, record=RECORD):
        super().__init__(prog)
        self.record = record
        self.seed = None                   # function that prepares the object in a fresh memory
        self.byname = {}
        for f in prog.funcs.values():
            self.byname.setdefault(f["name"], []).append(f)

    def st(self):
        m = self.m
        if not hasattr(m, "f"):
            m.f, m.events, m.nobj, m.nheap = {}, [], 0, 0
        return m

    def obj(self, cls):
        m = self.st()
        m.nobj += 1
        return ("obj", m.nobj, cls)

    def isobj(self, v):
        return isinstance(v, tuple) and v[0] == "obj"

    # ---- lvalues of fields
    def val(self, a):
        if isinstance(a, tuple) and a[0] == "fld":
            m = self.st()
            if a[1:] not in m.f:
                m.f[a[1:]] = ("undef", a[2]) if a[2] in ("v", "voff", "vtemp") else R(Poly.sym(("undef", a[2])))
            return m.f[a[1:]]
        return super().val(a)

    def e_rv(self, e):
        v = self.ev(e["e"])
        if isinstance(v, tuple) and v[0] == "fld":
            return self.val(v)
        if self.isobj(v):
            return v
        return super().e_rv({"e": None}) if False else (self.val(v) if isinstance(v, tuple) and v[0] in ("cell", "box") else
                                                       self.copy(v) if isinstance(v, tuple) and v[0] == "agg" else v)

    def e_this(self, e):
        return self.this

    def e_mem(self, e):
        b = self.val(self.ev(e["b"]))
        if self.isobj(b):
            return ("fld", b[1], e["f"])
        return super().e_mem(e)

    def set(self, l, v, ln=None):
        if l[0] == "fld":
            self.st().f[l[1:]] = v
            return
        super().set(l, v, ln)

    def e_asg(self, e):
        l = self.ev(e["l"])
        if isinstance(l, tuple) and l[0] == "fld":
            r = self.val(self.ev(e["r"]))
            op = e["op"]
            if op == "=":
                self.set(l, r)
            elif op in ("&=", "|="):
                a, b = const(self.val(l)), const(r)
                if a is None or b is None:
                    raise Undecided("flags")
                self.set(l, toR(a & b if op == "&=" else a | b))
            else:
                self.set(l, self.arith(op[0], self.val(l), r))
            return l
        return super().e_asg(e)

    def e_un(self, e):
        op = e["op"]
        if op == "~":
            v = const(self.num(e["e"]))
            if v is None:
                raise Undecided("flags")
            return toR(~v)
        if op in ("*", "&"):
            v = self.val(self.ev(e["e"]))
            if self.isobj(v):
                return v
        return super().e_un(e)

    def e_bin(self, e):
        if e["op"] in ("&", "|"):
            a, b = const(self.num(e["l"])), const(self.num(e["r"]))
            if a is None or b is None:
                raise Undecided("flags")
            return toR(a & b if e["op"] == "&" else a | b)
        return super().e_bin(e)

    def e_ref(self, e):
        if e.get("vk") == "enum":
            return toR(int(e["v"]))
        return super().e_ref(e)

    def add(self, b, i, t, et=None):
        if isinstance(b, tuple) and b[0] == "undef":
            raise Uninit(b[1])
        return super().add(b, i, t, et)

    def truth(self, v):
        v = self.val(v)
        if isinstance(v, tuple) and v[0] == "ptr":
            return v[1] != "null"
        return super().truth(v)

    # ---- storage
    def e_new(self, e):
        m = self.st()
        if e.get("placement"):
            raise Undecided("placement new")
        m.nheap += 1
        n = self.num(e["size"]) if e.get("size") else toR(1)
        m.events.append(("alloc", m.nheap, "new", n, e.get("ln")))
        return ("ptr", ("heap", m.nheap), P(0))

    def e_delete(self, e):
        v = self.val(self.ev(e["e"]))
        self.st().events.append(("free", v, "new" if e.get("array") else "scalar", None, e.get("ln")))
        return None

    def e_ctor(self, e):
        t = e.get("cls") or e.get("t") or ""
        if not t.startswith("Array::"):
            return super().e_ctor(e)
        a = e.get("args") or []
        if len(a) == 1 and e.get("elide"):
            return self.val(self.ev(a[0]))
        f = self.p.funcs.get(e.get("fn"))
        if not f or not f.get("body"):
            if len(a) == 1 and self.isobj(self.val(self.ev(a[0]))):   # implicit copy constructor
                return self.clone(self.val(self.ev(a[0])), t)
            raise Undecided("constructor of " + t)
        o = self.obj(t)
        self.call(f, [self.ev(x) for x in a], o)
        return o

    def clone(self, s, cls):
        """implicit copy constructor: array1's copy constructor for the base, memberwise above it"""
        o = self.obj(cls)
        m = self.st()
        base = [f for f in self.byname.get("Array::array1<double>::<ctor>", []) if "array1" in "".join(p["t"] for p in f["params"])]
        mine = set()
        if base:
            self.call(base[0], [s], o)
            mine = {k[1] for k in m.f if k[0] == o[1]}
        for (i, f), v in list(m.f.items()):
            if i == s[1] and f not in mine:
                m.f[(o[1], f)] = v
        return o

    def ctorinit(self, i, this):
        m = self.st()
        if i.get("basecls"):
            e = i["e"]
            f = self.p.funcs.get(strip(e).get("fn"))
            if f and f.get("body"):
                self.call(f, [self.ev(a) for a in strip(e).get("args") or []], this)
            return
        if i.get("deleg"):
            f = self.p.funcs.get(strip(i["e"]).get("fn"))
            self.call(f, [self.ev(a) for a in strip(i["e"]).get("args") or []], this)
            return
        v = self.val(self.ev(i["e"])) if i.get("e") else None
        if v is not None:
            m.f[(this[1], i["field"])] = v

    def param(self, t, a):
        a2 = self.val(a)
        if self.isobj(a2):
            return a2
        return super().param(t, a)

    def decl(self, d):
        if d["t"].replace("const ", "").startswith("Array::array") or d["t"].replace("const ", "").startswith("Array::Array"):
            i = d.get("init")
            if i is not None:
                v = self.val(self.ev(i))
                self.m.env[d["id"]] = v
                return
        super().decl(d)

    def target(self, e, o):
        f = self.p.funcs.get(e.get("fn"))
        if e.get("virt") and f:
            # most derived override along the class chain
            name = f["base"]
            for c in self.chain(o[2]):
                for g in self.byname.get(c + "::" + name, []):
                    if [p["t"] for p in g["params"]] == [p["t"] for p in f["params"]]:
                        return g
        return f

    def chain(self, cls):
        out = [cls]
        n = cls.split("::")[-1]
        if n.startswith("Array"):
            out.append(cls.replace("::Array", "::array"))
        out.append("Array::array1<double>")
        return out

    def e_call(self, e):
        n = e.get("name", "").split("::")[-1]
        m = self.st()
        if e.get("obj") is not None:
            o = self.val(self.ev(e["obj"]))
            if self.isobj(o):
                f = self.target(e, o)
                if n in self.record:
                    m.events.append(("call", n, o, [self.val(self.ev(a)) for a in e["args"]], e.get("ln")))
                    return None
                if not f or not f.get("body"):
                    if n == "operator=" and len(e["args"]) == 1:
                        raise Undecided("implicit assignment")
                    raise Undecided("call of " + e.get("name", ""))
                return self.call(f, [self.ev(a) for a in e["args"]], o)
        if n == "newAlign":
            l = self.ev(e["args"][0])
            m.nheap += 1
            m.events.append(("alloc", m.nheap, "aligned", self.num(e["args"][1]), e.get("ln")))
            self.set(l, ("ptr", ("heap", m.nheap), P(0)))
            return None
        if n == "deleteAlign":
            m.events.append(("free", self.val(self.ev(e["args"][0])), "aligned", self.num(e["args"][1]), e.get("ln")))
            return None
        if n in ("ArrayExit", "exit"):
            raise Exits()
        return super().e_call(e)

    def call(self, f, args, this=None):
        r = super().call(f, args, this)
        return r

    # ---- driver: all paths of a sequence of steps, each step(self) -> value
    def paths(self, steps):
        out, todo = [], [[]]
        while todo:
            ch = todo.pop()
            self.choices, self.pos, self.n, self.steps = ch, 0, 0, 0
            m = self.m = Mem()
            self.this = None
            self.st()
            err = None
            r = None
            try:
                r = steps(self)
            except Exits:
                err = "exit"
            except Uninit as u:
                err = "uninit:" + str(u)
            for i in range(len(ch), len(self.choices)):
                todo.append(self.choices[:i] + [not self.choices[i]])
            out.append((r, self.m, err))
            if len(out) > 256:
                raise Undecided("too many paths")
        return out


class Exits(Exception):
    pass


class Uninit(Exception):
    pass
