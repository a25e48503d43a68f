"""Typestate of the convolution drivers' work arrays.

The drivers (Convolution, Convolution2, Convolution3 and their MPI versions) are interpreted over an abstract
heap: sizes, strides and offsets are polynomials over the sizes of the transform, only the shape of the schedule
(number of inputs and outputs, residue blocks, in-place or not, ...) is fixed per context.  A work array is in one of
the states: pristine input, transform of input a at residue r, product b at residue r, accumulator of a set of
residues of output b, zero-padded workspace, spoiled.  Loops over data are entered once with a generic index."""
from fractions import Fraction
from .poly import Poly, P
from .repo import strip, walk

NULL = ("null",)


class Unknown(Exception):
    pass


class Bad(Exception):
    def __init__(self, rule, text, where=None):
        Exception.__init__(self, rule)
        self.rule, self.text, self.where = rule, text, where


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Exit(Exception):
    pass


class Jump(Exception):
    def __init__(self, k):
        self.k = k


def num(x):
    return x if isinstance(x, Poly) else Poly.const(Fraction(x))


def sign(d):
    """'+', '-', '0', '>=' (nonnegative), '<=' or None; symbols are >= 1 except offsets, which are >= 0"""
    if not d.t:
        return "0"
    pos = all(c > 0 for c in d.t.values())
    neg = all(c < 0 for c in d.t.values())
    strict = any(not any(s[0] in ("off", "it") for s, _ in m) for m in d.t)
    if pos:
        return "+" if strict else ">="
    if neg:
        return "-" if strict else "<="
    # one constant against terms that are at least one
    c = d.t.get((), 0)
    rest = {m: v for m, v in d.t.items() if m != ()}
    low = sum(v for m, v in rest.items() if not any(s[0] in ("off", "it") for s, _ in m))
    if all(v > 0 for v in rest.values()):
        if low + c > 0:
            return "+"
        if low + c == 0:
            return ">="
    if all(v < 0 for v in rest.values()):
        if low + c < 0:
            return "-"
        if low + c == 0:
            return "<="
    return None


def sym(*n):
    return Poly.sym(tuple(n))


class Frac:
    """quotient of polynomials (scale factors)"""
    def __init__(self, n, d):
        self.n, self.d = n, d

    def same(self, o):
        return self.n * o.d == o.n * self.d


class Machine:
    steplimit = 60000

    def __init__(self, prog, model):
        self.p = prog
        self.model = model
        self.choices, self.pos = [], 0
        self.conds = {}
        self.heap = {}          # object id -> {field: value}
        self.cls = {}           # object id -> class
        self.ftype = {}
        self.arrays = {}        # array id -> dict(n=, v={index: value}, freed=False, kind=)
        self.n = 0
        self.steps = 0
        self.loops = []         # generic loops being executed: (symbol, count)
        self.env = {}
        self.this = self.owner = None
        self.trace = []
        self.fn = None
        model.m = self

    # ---- helpers
    def fresh(self):
        self.n += 1
        return self.n

    def choose(self, key):
        if key in self.conds:
            return self.conds[key]
        if self.pos < len(self.choices):
            b = self.choices[self.pos]
        else:
            b = True
            self.choices.append(True)
        self.pos += 1
        self.conds[key] = b
        return b

    def where(self):
        return self.trace[-1] if self.trace else None

    def newobj(self, cls):
        i = ("obj", self.fresh())
        self.heap[i] = {}
        self.cls[i] = cls
        return i

    def newarr(self, n, kind, v=None):
        i = self.fresh()
        self.arrays[i] = dict(n=n, v=dict(v or {}), freed=False, kind=kind)
        return ("arr", i, num(0))

    # ---- values
    def truth(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, Poly):
            s = sign(v)
            if s == "0":
                return False
            if s in ("+", "-"):
                return True
            return self.choose(("nz", v))
        if isinstance(v, tuple):
            if v[0] == "null":
                return False
            if v[0] in ("ptr", "arr", "obj", "memfn", "fnptr"):
                return True
            if v[0] == "opaque":
                return self.choose(("nz", v))
        raise Unknown("condition %r" % (v,))

    def rel(self, op, a, b):
        if isinstance(a, bool):
            a = num(int(a))
        if isinstance(b, bool):
            b = num(int(b))
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            s = sign(d)
            t = {"<": {"-": True, "0": False, "+": False, ">=": False},
                 ">": {"+": True, "0": False, "-": False, "<=": False},
                 "<=": {"-": True, "0": True, "<=": True, "+": False},
                 ">=": {"+": True, "0": True, ">=": True, "-": False},
                 "==": {"0": True, "+": False, "-": False},
                 "!=": {"0": False, "+": True, "-": True}}[op].get(s)
            if t is not None:
                return t
            if op in (">", ">="):
                return self.rel("<" if op == ">" else "<=", b, a)
            if op == "<=":
                return not self.rel("<", b, a)
            if op == "!=":
                return not self.rel("==", a, b)
            if op == "<":
                return self.choose(("<", d))
            return self.choose(("==", d)) if ("==", -d) not in self.conds else self.conds[("==", -d)]
        if op in ("==", "!="):
            r = None
            if isinstance(a, tuple) and isinstance(b, tuple):
                if a == b:
                    r = True
                elif a[0] == "ptr" and b[0] == "ptr":
                    r = a[1] == b[1] and a[2] == b[2]
                elif "opaque" in (a[0], b[0]):
                    r = self.choose(("==", tuple(sorted((repr(a), repr(b))))))
                else:
                    r = False
            elif isinstance(a, tuple) and isinstance(b, Poly) and not b.t or \
                    isinstance(b, tuple) and isinstance(a, Poly) and not a.t:
                r = not self.truth(a if isinstance(a, tuple) else b)
            if r is not None:
                return r if op == "==" else not r
        raise Unknown("comparison %r %s %r" % (a, op, b))

    def asnum(self, v):
        if v is True or v is False:
            return num(int(v))
        if isinstance(v, Poly):
            return v
        raise Unknown("number expected: %r" % (v,))

    # ---- lvalues
    def lv(self, e):
        e0 = e
        while e.get("k") in ("icast", "cast") and not e.get("ck", "").startswith("Array"):
            e = e["e"]
        k = e["k"]
        if k == "ref":
            if e.get("vk") in ("local", "param"):
                b = self.env.get(e["id"])
                if b is None:
                    raise Unknown("variable %s" % e["n"])
                if b[0] == "alias":
                    return b[1]
                return ("var", b)
            return ("glob", e.get("id") or e.get("n"))
        if k == "mem":
            o = self.ev(e["b"]) if e.get("arrow") else self.objof(e["b"])
            if isinstance(o, tuple) and o[0] == "obj":
                self.ftype[e["f"]] = e.get("t", "")
                return ("fld", o, e["f"])
            if o == NULL:
                raise Bad("null", "a member of a null object is used", None)
            raise Unknown("member of %r" % (o,))
        if k == "idx":
            b = self.ev(e["b"])
            return self.elem(b, self.asnum(self.ev(e["i"])))
        if k == "un" and e["op"] == "*":
            return self.elem(self.ev(e["e"]), num(0))
        if k == "asg":
            self.ev(e)
            return self.lv(e["l"])
        if k == "cond":
            return self.lv(e["l"] if self.truth(self.ev(e["c"])) else e["r"])
        if k == "call" and e.get("t", "").endswith("&"):
            v = self.ev(e)
            if isinstance(v, tuple) and v and v[0] in ("fld", "elem", "var", "data"):
                return v
        if k == "this":
            return ("deref", self.this)
        raise Unknown("lvalue %s" % k)

    def objof(self, b):
        """the object an lvalue of class type denotes"""
        x = strip(b)
        if x["k"] in ("call", "ctor", "cond"):
            return self.ev(x)
        return self.load(self.lv(b))

    def elem(self, b, i):
        if isinstance(b, tuple):
            if b[0] == "arr":
                return ("elem", b[1], b[2] + i)
            if b[0] == "ptr":
                return ("data", b[1], b[2] + i * b[3], b[3])
            if b[0] == "obj" and not i.t:
                return ("deref", b)
            if b == NULL:
                raise Bad("null", "a null pointer is dereferenced")
            if b[0] == "fnptr":
                return ("deref", b)
        raise Unknown("indexing %r" % (b,))

    def concrete(self, i, what):
        if i.isconst() and i.cval().denominator == 1 if isinstance(i.cval(), Fraction) else i.isconst():
            return int(i.cval())
        raise Unknown("%s index" % what)

    def load(self, l):
        k = l[0]
        if k == "var":
            v = l[1][1]
            if v is None:
                raise Unknown("uninitialised local")
            return v
        if k == "fld":
            v = self.model.field(l[1], l[2])
            if v is not None:
                return v
            f = self.heap[l[1]]
            if l[2] not in f:
                if l[2] in self.model.embedded:
                    o = self.newobj(self.model.embedded[l[2]])
                    f[l[2]] = o
                    return o
                t = self.ftype.get(l[2], "").replace("const", "").strip()
                if self.model.whole(l[1]) and (t.endswith("*") or t in ("bool", "double", "int", "unsigned int", "size_t", "unsigned long")):
                    raise Bad("unset", "the member %s is read before it is set" % l[2])
                raise Unknown("field %s of %s read before it is set" % (l[2], self.cls[l[1]]))
            return f[l[2]]
        if k == "elem":
            a = self.arrays[l[1]]
            i = self.concrete(l[2], "array")
            if a["freed"]:
                raise Bad("freed", "a pointer array is used after it was deleted")
            if i not in a["v"]:
                n = a["n"]
                if i < 0 or self.model_lt(n, i):
                    raise Bad("range", "element %d of an array of %s is read" % (i, n))
                raise Bad("unset", "element %d of a pointer array is read before it is set" % i)
            return a["v"][i]
        if k == "data":
            return ("val", l[1], l[2], l[3])
        if k == "deref":
            return l[1]
        if k == "glob":
            return ("opaque", str(l[1]))
        raise Unknown("load %r" % (l,))

    def model_lt(self, n, i):
        """index i is definitely not below n"""
        return n is not None and sign(num(i) - num(n)) in ("+", "0", ">=")

    def store(self, l, v):
        k = l[0]
        if k == "var":
            l[1][1] = v
        elif k == "fld":
            if self.model.setfield(l[1], l[2], v):
                return
            self.heap[l[1]][l[2]] = v
        elif k == "elem":
            a = self.arrays[l[1]]
            i = self.concrete(l[2], "array")
            if i < 0 or self.model_lt(a["n"], i):
                raise Bad("range", "element %d of an array of %s is written" % (i, a["n"]))
            a["v"][i] = v
        elif k == "data":
            self.model.datastore(l, v)
        elif k == "glob":
            raise Unknown("global written")
        else:
            raise Unknown("store %r" % (l,))

    # ---- statements
    def stmt(self, s):
        self.steps += 1
        if self.steps > self.steplimit:
            raise Unknown("too long")
        if s is None:
            return
        k = s.get("k")
        if k == "block":
            for x in s["s"]:
                self.stmt(x)
        elif k == "expr":
            self.ev(s["e"])
        elif k == "decl":
            for d in s["d"]:
                self.decl(d)
        elif k == "if":
            if s.get("init"):
                self.stmt(s["init"])
            if self.truth(self.ev(s["c"])):
                self.stmt(s["then"])
            elif s.get("else"):
                self.stmt(s["else"])
        elif k == "for":
            self.loop(s)
        elif k in ("while", "do"):
            self.whileloop(s)
        elif k in ("return", "ret"):
            raise Return(self.ev(s["e"]) if s.get("e") else None)
        elif k == "omp":
            self.omp(s)
        elif k in ("nop", "null"):
            pass
        elif k in ("break", "continue"):
            raise Jump(k)
        else:
            raise Unknown("statement %s" % k)

    def omp(self, s):
        self.stmt(s["body"])

    def decl(self, d):
        if d.get("k") not in (None, "var"):
            return
        t = d.get("t", "")
        if d.get("vla") or t.rstrip().endswith("]"):
            n = None
            if d.get("vla"):
                n = self.asnum(self.ev(d["vla"]))
            else:
                try:
                    n = num(int(t[t.rindex("[") + 1:t.rindex("]")]))
                except ValueError:
                    n = None
            self.env[d["id"]] = ["var", self.newarr(n, "local")]
            return
        i = d.get("init")
        if t.rstrip().endswith("&"):
            try:
                self.env[d["id"]] = ("alias", self.lv(strip(i) if i["k"] == "rv" else i))
            except Unknown:
                self.env[d["id"]] = ["var", self.ev(i)]
            return
        self.env[d["id"]] = ["var", self.ev(i) if i is not None else None]

    def counted(self, s):
        """(variable id, its box, entry value, iterations, step, from below) of a loop over a symbolic range;
        None when the loop runs concretely"""
        c = strip(s["c"]) if s.get("c") else None
        if not c:
            return None
        if c.get("k") == "un" and "--" in c["op"] and "post" in c["op"] or c.get("k") == "un" and c["op"] == "--" and c.get("post"):
            c = dict(k="bin", op=">", l=c, r=dict(k="int", v=0))
        if c.get("k") != "bin" or c["op"] not in ("<", "<=", "!=", ">", ">="):
            return None
        swap = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}
        assigned = self.assigned(s)
        sides = []
        for x, y, op in ((c["l"], c["r"], c["op"]), (c["r"], c["l"], swap[c["op"]])):
            x = strip(x)
            post = x.get("k") == "un" and ("--" in x["op"] or "++" in x["op"]) and (x.get("post") or "post" in x["op"])
            r = strip(x["e"]) if post else x
            if r.get("k") == "ref" and r.get("id") in assigned or post and r.get("k") == "ref":
                sides.append((r["id"], x["op"][:2] if post else None, y, op))
        if len(sides) != 1:
            return self.concreteonly(c)
        vid, post, y, op = sides[0]
        box = self.env.get(vid)
        if not box or box[0] != "var":
            return self.concreteonly(c)
        v, n = box[1], self.ev(y)
        if isinstance(v, Poly) and isinstance(n, Poly):
            d = n - v
        elif isinstance(v, tuple) and isinstance(n, tuple) and v[0] == n[0] == "ptr" and v[1] == n[1]:
            d = divide(n[2] - v[2], num(v[3]))
            if d is None:
                raise Unknown("pointer range")
        else:
            return None
        if d.isconst():
            return None
        down = op in (">", ">=") or post == "--"
        step = self.stepof(s, vid, post)
        if step is None:
            raise Unknown("loop over a symbolic range")
        if len(step.t) == 1:
            q = divide(d, step)
            if q is not None and q.isconst():
                return None
        if isinstance(v, Poly) and v.t and isinstance(n, Poly) and n.t and len(v.t) == 1 and v.t.keys() == n.t.keys():
            return None
        if down:
            if not isinstance(v, Poly) or step != num(-1):
                raise Unknown("descending loop")
            cnt = v - n + (num(1) if op == ">=" else num(0))
            first = n if post == "--" or op == ">=" else n + num(1)
            return vid, box, first, cnt, num(1), False, (n - num(1) if post == "--" or op == ">=" else n)
        if post:
            raise Unknown("increment in a loop condition")
        if op == "<=":
            d = d + num(1)
        cnt = divide(d, step)
        if cnt is None:
            cnt = sym("cnt", d, step)
        return vid, box, v, cnt, step, True, None

    def concreteonly(self, c):
        """a comparison whose outcome does not depend on a symbolic range"""
        try:
            a, b = self.ev(c["l"]), self.ev(c["r"])
        except Unknown:
            raise Unknown("loop condition")
        if isinstance(a, Poly) and isinstance(b, Poly):
            if (a - b).isconst() or len(a.t) == 1 and a.t.keys() == b.t.keys():
                return None
            raise Unknown("loop over a symbolic range")
        return None

    def assigned(self, s):
        out = set()
        for n in walk([s["body"], s.get("inc")]):
            t = None
            if n.get("k") == "asg":
                t = strip(n["l"])
            elif n.get("k") == "un" and ("++" in n["op"] or "--" in n["op"]):
                t = strip(n["e"])
            if t is not None and t.get("k") == "ref":
                out.add(t.get("id"))
        return out

    def stepof(self, s, vid, post):
        """the constant amount the variable advances by per iteration"""
        if post:
            return num(1 if post == "++" else -1)
        out = []
        for n in walk([s["body"], s.get("inc")]):
            if n.get("k") == "asg" and strip(n["l"]).get("id") == vid:
                if n["op"] not in ("+=", "-="):
                    return None
                try:
                    k = self.asnum(self.ev(n["r"]))
                except Unknown:
                    return None
                out.append(k if n["op"] == "+=" else -k)
            elif n.get("k") == "un" and ("++" in n["op"] or "--" in n["op"]) and strip(n["e"]).get("id") == vid:
                out.append(num(1 if "++" in n["op"] else -1))
        return out[0] if len(out) == 1 else None

    def loop(self, s):
        if s.get("init"):
            self.stmt(s["init"])
        for it in range(200):
            if s.get("c"):
                g = self.counted(s)
                if g:
                    self.genericloop(s, *g)
                    return
                if (s["k"] != "do" or it) and not self.truth(self.ev(s["c"])):
                    return
            try:
                self.stmt(s["body"])
            except Jump as j:
                if j.k == "break":
                    return
            if s.get("inc"):
                self.ev(s["inc"])
        raise Unknown("loop does not end")

    whileloop = loop

    def genericloop(self, s, vid, box, first, cnt, step, up, last):
        it = sym("it", self.fresh())
        sec = self.secondary(s, vid)
        for b, inc in sec:
            b[1] = self.addv(b[1], it, inc)
        starts = [(b, b[1]) for b, _ in sec]
        inside = box[1] = self.addv(first, it, step) if up or not sec else ("opaque", "descending")
        self.loops.append((it, cnt))
        try:
            self.stmt(s["body"])
        except Jump as j:
            if j.k == "break":
                raise Unknown("break in a loop over data")
        finally:
            self.loops.pop()
        ok = (inside, self.addv(self.addv(first, it, step), num(1), step if up else num(-1)))
        if box[1] not in ok:
            raise Unknown("loop variable changed in the body")
        for (b, v0), (_, inc) in zip(starts, sec):
            if b[1] not in (v0, self.addv(v0, num(1), inc)):
                raise Unknown("loop-carried variable")
        box[1] = self.addv(first, cnt, step) if up else last
        for (b, v0), (_, inc) in zip(starts, sec):
            base = self.addv(v0, -it, inc)
            b[1] = self.addv(base, cnt, inc)

    def addv(self, v, it, inc):
        if isinstance(v, Poly):
            return v + it * inc
        if isinstance(v, tuple) and v[0] == "ptr":
            return ("ptr", v[1], v[2] + it * inc * v[3], v[3])
        raise Unknown("loop-carried value")

    def secondary(self, s, vid):
        """outer variables advanced by a constant amount in every iteration"""
        inner = {n["id"] for n in walk(s["body"]) if n.get("k") == "var"}
        out = {}
        for n in walk([s["body"], s.get("inc")]):
            t = None
            if n.get("k") == "asg":
                t, op, r = strip(n["l"]), n["op"], n["r"]
            elif n.get("k") == "un" and ("++" in n["op"] or "--" in n["op"]):
                t, op, r = strip(n["e"]), "+=" if "++" in n["op"] else "-=", None
            if t is None or t.get("k") != "ref" or t.get("id") in inner or t.get("id") == vid:
                continue
            b = self.env.get(t["id"])
            if b is None or b[0] != "var":
                continue
            if op not in ("+=", "-="):
                if b[1] is None:
                    continue          # set before use in every iteration
                raise Unknown("loop-carried variable %s" % t.get("n"))
            if id(b) in out:
                raise Unknown("loop-carried variable %s" % t.get("n"))
            if r is not None and any(x.get("k") == "ref" and x.get("id") in inner for x in walk(r)):
                raise Unknown("loop-carried variable %s" % t.get("n"))
            v = num(1) if r is None else self.asnum(self.ev(r))
            out[id(b)] = (b, v if op == "+=" else -v)
        return list(out.values())

    # ---- expressions
    def ev(self, e):
        k = e["k"]
        h = getattr(self, "e_" + k, None)
        if h is None:
            raise Unknown("expression %s" % k)
        return h(e)

    def e_rv(self, e):
        x = e["e"]
        if x["k"] in ("ref", "mem", "idx", "un", "asg", "cond"):
            try:
                l = self.lv(x)
            except Unknown:
                if x["k"] in ("ref", "mem", "idx"):
                    raise
                return self.ev(x)
            return self.load(l)
        return self.ev(x)

    def e_ref(self, e):
        l = self.lv(e)
        if l[0] == "glob":
            return ("fnptr", e.get("id") or e.get("n")) if "(" in str(e.get("id")) else ("opaque", e.get("n"))
        return self.load(l)

    def e_mem(self, e):
        return self.load(self.lv(e))

    def e_idx(self, e):
        return self.load(self.lv(e))

    def e_this(self, e):
        return self.this

    def e_int(self, e):
        return num(int(e["v"]))

    def e_float(self, e):
        return num(Fraction(str(e["v"])))

    def e_bool(self, e):
        return bool(e["v"])

    def e_null(self, e):
        return NULL

    e_nullptr = e_null

    def e_str(self, e):
        return ("opaque", "str")

    e_strlit = e_string = e_str

    def e_defarg(self, e):
        return self.ev(e["e"])

    def e_cast(self, e):
        v = self.ev(e["e"])
        t = e.get("t", "").replace("const", "").strip()
        ck = e.get("ck", "")
        if ck == "PointerToBoolean" or ck == "IntegralToBoolean":
            return self.truth(v)
        if ck == "NullToPointer":
            return NULL
        if isinstance(v, tuple) and v[0] == "ptr" and t.endswith("*"):
            u = 2 if "Complex" in t else 1 if "double" in t else None
            if u is None:
                return v
            return ("ptr", v[1], v[2], u)
        if isinstance(v, Poly) and t.endswith("*") and not v.t:
            return NULL
        return v

    e_icast = e_cast

    def e_fnptr(self, e):
        return ("fnptr", e.get("fn") or e.get("id") or e.get("n"))

    e_func = e_fn = e_fnptr

    def e_memfn(self, e):
        return ("memfn", e.get("n") or e.get("fn"))

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            x = strip(e["e"]) if e["e"]["k"] != "idx" else e["e"]
            if x["k"] in ("fn", "func", "fnptr", "memfn") or x["k"] == "ref" and x.get("vk") not in ("local", "param", "global"):
                n = x.get("fn") or x.get("id") or x.get("n")
                return ("memfn", ("named", str(n))) if "::" in str(n) else ("fnptr", n)
            l = self.lv(e["e"])
            if l[0] == "data":
                return ("ptr", l[1], l[2], l[3])
            if l[0] == "elem":
                return ("arr", l[1], l[2])
            v = self.load(l)
            if isinstance(v, tuple) and v[0] == "obj":
                return v
            if l[0] == "var":
                return ("addr", l[1])
            raise Unknown("address of %r" % (l,))
        if op == "*":
            return self.load(self.lv(e))
        if op == "!":
            return not self.truth(self.ev(e["e"]))
        if op == "-":
            return -self.asnum(self.ev(e["e"]))
        if op == "+":
            return self.ev(e["e"])
        if "++" in op or "--" in op:
            l = self.lv(e["e"])
            v = self.load(l)
            n = self.arith("+" if "++" in op else "-", v, num(1))
            self.store(l, n)
            return v if e.get("post") or "post" in op else n
        raise Unknown("operator %s" % op)

    def e_asg(self, e):
        op = e["op"]
        l = self.lv(e["l"])
        if op == "=":
            v = self.ev(e["r"])
            self.store(l, v)
            return v
        r = self.ev(e["r"])
        if l[0] == "data":
            self.model.dataop(l, op, r)
            return ("val", l[1], l[2], l[3])
        v = self.arith(op[:-1], self.load(l), r)
        self.store(l, v)
        return v

    def arith(self, op, a, b):
        if op in ("+", "-") and isinstance(a, tuple) and a[0] in ("ptr", "arr") and not isinstance(b, tuple):
            i = self.asnum(b)
            i = i if op == "+" else -i
            return ("ptr", a[1], a[2] + i * a[3], a[3]) if a[0] == "ptr" else ("arr", a[1], a[2] + i)
        if op == "+" and isinstance(b, tuple) and b[0] in ("ptr", "arr"):
            return self.arith(op, b, a)
        if a == NULL and op in ("+", "-"):
            return NULL
        if isinstance(a, tuple) and a[0] == "val" or isinstance(b, tuple) and b[0] == "val":
            return ("valop", op, a, b)
        if isinstance(a, Frac) or isinstance(b, Frac):
            a = a if isinstance(a, Frac) else Frac(self.asnum(a), num(1))
            b = b if isinstance(b, Frac) else Frac(self.asnum(b), num(1))
            if op == "*":
                return Frac(a.n * b.n, a.d * b.d)
            if op == "/":
                return Frac(a.n * b.d, a.d * b.n)
            raise Unknown("fraction")
        a, b = self.asnum(a), self.asnum(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("/", "%"):
            if a.isconst() and b.isconst() and b.t:
                x, y = a.cval(), b.cval()
                if x.denominator == y.denominator == 1:
                    return num(x // y if op == "/" else x % y)
            if op == "/":
                return ("quot", a, b)
            if op == "%":
                return sym("mod", a, b)
        raise Unknown("operator %s" % op)

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            return self.truth(self.ev(e["l"])) and self.truth(self.ev(e["r"]))
        if op == "||":
            return self.truth(self.ev(e["l"])) or self.truth(self.ev(e["r"]))
        if op == ",":
            self.ev(e["l"])
            return self.ev(e["r"])
        a, b = self.ev(e["l"]), self.ev(e["r"])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.rel(op, a, b)
        if op == "/" and e.get("t") == "double":
            a = a if isinstance(a, Frac) else Frac(self.asnum(a), num(1))
            b = b if isinstance(b, Frac) else Frac(self.asnum(b), num(1))
            return Frac(a.n * b.d, a.d * b.n)
        v = self.arith(op, a, b)
        if isinstance(v, tuple) and v[0] == "quot":
            q = divide(v[1], v[2])
            if q is not None and all(Fraction(k).denominator == 1 for k in q.t.values()):
                return q
            return sym("div", v[1], v[2])
        return v

    def e_cond(self, e):
        return self.ev(e["l"] if self.truth(self.ev(e["c"])) else e["r"])

    def e_new(self, e):
        t = e.get("t", "")
        if e.get("array"):
            n = self.asnum(self.ev(e["size"]))
            return self.newarr(n, "new")
        i = e.get("init")
        if i and i.get("k") == "ctor":
            return self.construct(i)
        o = self.newobj(t)
        return o

    def construct(self, i):
        args = [self.arg(a) for a in i["args"]]
        cls = i["cls"]
        o = self.model.construct(cls, args, i)
        if o is not None:
            return o
        if i.get("copy") and len(args) == 1:
            return args[0]
        o = self.newobj(cls)
        f = self.p.funcs.get(i.get("fn"))
        if f and f.get("body") is not None:
            self.ctor(f, o, i["args"], args)
        return o

    def e_ctor(self, e):
        if e.get("elide") or e.get("copy"):
            return self.arg(e["args"][0])
        return self.construct(e)

    def ctor(self, f, o, argx, args):
        self.call(f, args, o)

    def e_delete(self, e):
        v = self.ev(e["e"])
        self.model.delete(v, e.get("array"))
        return None

    def arg(self, a):
        return self.ev(a)

    def bindarg(self, t, a):
        """value bound to a parameter of type t; lvalue references stay references"""
        if t.rstrip().endswith("&"):
            x = a
            while x.get("k") in ("icast", "cast"):
                x = x["e"]
            if x["k"] in ("ref", "mem", "idx") or x["k"] == "un" and x["op"] == "*":
                try:
                    l = self.lv(x)
                    if l[0] in ("var", "fld", "elem", "data"):
                        return ("alias", l)
                except (Unknown, Bad):
                    pass
        return ["var", self.ev(a)]

    def e_mpcall(self, e):
        c = strip(e["callee"])
        o = self.ev(c["b"]) if c.get("b") else None
        f = self.ev(c["p"])
        args = [self.arg(a) for a in e["args"]]
        self.trace.append((self.fn, e.get("ln")))
        return self.model.mpcall(o, f, args, e)

    def e_call(self, e):
        fid = e.get("fn")
        name = e.get("name") or ""
        obj = None
        if e.get("obj") is not None:
            ob = e["obj"]
            obj = self.ev(ob) if e.get("arrow") or ob["k"] not in ("ref", "mem", "idx") else None
            if obj is None:
                l = self.lv(ob)
                obj = self.load(l) if l[0] != "data" else ("dataref", l)
        if fid is None:
            c = e.get("callee")
            v = self.ev(c) if c else None
            self.trace.append((self.fn, e.get("ln")))
            return self.model.ptrcall(v, [self.arg(a) for a in e["args"]], e)
        r = self.model.call(self, e, name, obj)
        if r is not None:
            return None if r == "void" else r
        f = self.p.funcs.get(fid)
        if e.get("virt") and isinstance(obj, tuple) and obj[0] == "obj":
            f = self.p.override_in(fid, self.cls[obj]) or f
        if not f or f.get("body") is None:
            return self.model.external(e, name, obj, [self.arg(a) for a in e["args"]])
        bound = [self.bindarg(q["t"], a) for q, a in zip(f["params"], e["args"])]
        self.trace.append((self.fn, e.get("ln")))
        return self.call(f, bound, obj, raw=True)

    def call(self, f, args, this, raw=False):
        old = self.env, self.this, self.fn, self.owner
        self.env = {}
        if len(self.trace) > 400:
            del self.trace[:200]
        for q, a in zip(f["params"], args):
            self.env[q["id"]] = a if raw else ["var", a]
        for q in f["params"][len(args):]:
            if q.get("def") is not None:
                self.env[q["id"]] = ["var", self.ev(q["def"])]
        self.this = this
        if this is not None:
            self.owner = this
        self.fn = f["name"]
        try:
            if f["kind"] == "ctor":
                for i in f.get("inits") or []:
                    self.init(i, this)
            try:
                self.stmt(f["body"])
            except Return as r:
                return r.v
            return None
        finally:
            self.env, self.this, self.fn, self.owner = old

    def init(self, i, this):
        if i.get("basecls"):
            c = i["e"]
            g = self.p.funcs.get(c.get("fn"))
            if g and g.get("body") is not None:
                old = self.cls[this]
                self.cls[this] = c["cls"]
                try:
                    self.call(g, [self.arg(a) for a in c["args"]], this)
                finally:
                    self.cls[this] = old
            return
        if i.get("field"):
            self.store(("fld", this, i["field"]), self.ev(i["e"]))


def divide(a, b):
    """a/b when b is a monomial dividing every term of a"""
    if not a.t:
        return num(0)
    if len(b.t) != 1:
        # a multiple of b?
        for m, c in b.t.items():
            pass
        return None
    (mb, cb), = b.t.items()
    out = {}
    for m, c in a.t.items():
        d = dict(m)
        for s, e in mb:
            if d.get(s, 0) < e:
                return None
            d[s] -= e
            if not d[s]:
                del d[s]
        k = Poly.const(1)
        for s, e in d.items():
            for _ in range(e):
                k = k * Poly.sym(s)
        (mk, _), = k.t.items()
        out[mk] = out.get(mk, 0) + Fraction(c) / Fraction(cb)
    return Poly(out)
