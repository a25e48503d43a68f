"""Affine access analysis of one function.

Abstractly evaluates a function body over the domain
    integers  -> polynomials over parameters, fields, loop counters and opaque
                 (interned) symbols
    pointers  -> (root, polynomial byte offset)
and collects, per OpenMP parallel loop, the memory regions each iteration
touches.  Branches fork the abstract state and are merged again as soon as the
environments agree; loops are not unrolled: induction variables become
init+step*n with a bounded counter n, everything else a loop body assigns is
havocked.  Nothing is executed."""
from .repo import walk, strip
from .poly import Poly, P, Facts, prove_ge
from .effects import isptr, isref, ptype, LEAF

NULL = ("N",)
MAXSTATES = 40
MAXINLINE = 7

SIZES = {"double": 8, "Complex": 16, "std::complex<double>": 16, "fftwpp::Vec": 16, "double[2]": 16,
         "unsigned long": 8, "long": 8, "int": 4, "unsigned int": 4, "unsigned": 4, "bool": 1,
         "char": 1, "const char": 1, "unsigned char": 1, "void": 1, "fftwpp::Complex": 16}


def sizeof(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    if t.endswith(" const"):
        t = t[:-6].strip()
    if t in SIZES:
        return SIZES[t]
    if t.endswith("*") or "(*)" in t:
        return 8
    if "vector_size" in t and t.endswith("double"):
        return 16
    if t.endswith("]"):
        i = t.rfind("[")
        n = t[i + 1:-1]
        if n.isdigit():
            return int(n) * sizeof(t[:i])
    return 1024


def pointee(t):
    t = t.strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    if "(*)" in t:
        i = t.find("(*)")
        return (t[:i] + t[i + 3:]).strip()
    if t.endswith("*"):
        return t[:-1].strip()
    if t.endswith("]"):
        return t[:t.rfind("[")].strip()
    return t


INTT = {"unsigned long", "long", "int", "unsigned int", "unsigned", "bool", "char", "short",
        "unsigned char", "unsigned short", "long long", "unsigned long long"}


def isint(t):
    t = (t or "").strip()
    if t.startswith("const "):
        t = t[6:]
    if t.endswith("&"):
        t = t[:-1].strip()
    return t in INTT or t.startswith("enum ")


def issigned(t):
    t = (t or "").replace("const ", "").replace("&", "").strip()
    return t in ("long", "int", "short", "long long")


class State:
    __slots__ = ("env", "facts", "conds", "ret")

    def __init__(self):
        self.env = {}
        self.facts = ()
        self.conds = {}
        self.ret = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = self.facts
        s.conds = dict(self.conds)
        s.ret = self.ret
        return s


class Access:
    __slots__ = ("kind", "root", "off", "size", "facts", "ln", "fn", "prot", "what", "varying")

    def __init__(self, kind, root, off, size, facts, ln, fn, prot, what=None, varying=None):
        self.kind, self.root, self.off, self.size = kind, root, off, size
        self.facts, self.ln, self.fn, self.prot = facts, ln, fn, prot
        self.what = what
        self.varying = varying

    def key(self):
        return (self.kind, self.root, self.off, self.size, self.facts, self.prot, self.what)


class Region:
    def __init__(self, omp, fn, uid0, threads):
        self.omp, self.fn, self.uid0 = omp, fn, uid0
        self.ln = omp.get("ln")
        self.threads = threads
        self.counters = []       # parallel counter symbols, outermost first
        self.privates = set()
        self.acc = {}
        self.notes = []
        self.uid1 = None


class Analyzer:
    def __init__(self, prog, effects=None, axioms=None, maxdepth=5, hooks=None):
        self.p = prog
        self.E = effects
        self.axioms = axioms or {}
        self.uid = 0
        self.symuid = {}
        self.bounds = {}         # symbol -> ([lo],[hi])
        self.regions = []
        self.region = None
        self.prot = None
        self.maxdepth = maxdepth
        self.stack = []
        self.log = None          # when a list: every access of the function
        self.hooks = hooks
        self.steps = 0
        self.free = set()        # symbols that range freely (params, fields)
        self.axseen = set()
        self.divs = {}           # quotient symbol -> the two defining inequalities
        self.flddefs = {}        # field name -> polynomial definition (checked separately)

    # ------------------------------------------------------------ symbols
    def fresh(self, name, signed=False):
        self.uid += 1
        s = ("s" if signed else "v", name, self.uid)
        self.symuid[s] = self.uid
        return s

    def base(self, name, t=None):
        s = ("s" if issigned(t) else "v", name, 0)
        self.free.add(s)
        if t and t.strip() == "bool":
            self.bounds.setdefault(s, ([], [P(1)]))
        return s

    def opq(self, op, *args):
        """interned opaque function of polynomials"""
        s = ("v", (op,) + tuple(args), 0)
        if s not in self.bounds:
            lo, hi = [], []
            if op == "%":
                hi.append(args[1] - 1)
                hi.append(args[0])
            elif op == "/":
                hi.append(args[0])
                if args[1].isconst() and args[1].cval() > 0:
                    c = args[1].cval()
                    self.divs[s] = (args[0] - Poly.sym(s) * c, Poly.sym(s) * c + (c - 1) - args[0])
            elif op == "min":
                hi += list(args)
            elif op == "max":
                lo += list(args)
            elif op == "cdiv":
                pass
            self.bounds[s] = (lo, hi)
        return Poly.sym(s)

    def facts(self, st):
        F = Facts()
        for g in st.facts if isinstance(st, State) else st:
            F.ge.append(g)
        F.lo = {s: b[0] for s, b in self.bounds.items() if b[0]}
        F.hi = {s: b[1] for s, b in self.bounds.items() if b[1]}
        F.signed = SIGNED
        return F

    # ------------------------------------------------------------ memory
    def rec(self, kind, st, root, off, size, ln, what=None, varying=None):
        a = Access(kind, root, off, size, st.facts, ln, self.stack[-1]["f"]["name"], self.prot, what, varying)
        if self.log is not None:
            self.log.append(a)
        if self.region is not None:
            self.region.acc.setdefault(a.key(), a)

    def varwrite(self, st, vid, ln):
        R = self.region
        if R is not None and vid not in R.privates:
            self.rec("W", st, ("var", vid), P(0), 8, ln)

    # value of a memory location
    def load(self, st, loc, t, ln):
        if loc[0] == "var":
            v = st.env.get(loc[1])
            if isinstance(v, tuple) and v and v[0] == "R":
                return self.load(st, v[1], t, ln)
            if v is None:
                v = self.unknown(t, loc[1])
                st.env[loc[1]] = v
            return v
        _, root, off = loc[:3]
        if root[0] == "sub":
            key = ("fld",) + root[1:]
            v = st.env.get(key)
            if v is not None:
                return v
        mk = ("mem", root, off)
        if mk in st.env:
            v = st.env[mk]
            if v is not None:
                self.rec("R", st, root, off, sizeof(t), ln)
                return v
        elif isptr(t) and root[0] == "local":
            for k, v in st.env.items():
                if isinstance(k, tuple) and k[0] == "mem*" and k[1] == root:
                    return v
        if not (root[0] == "sub" and root[1] == ("this",)):
            self.rec("R", st, root, off, sizeof(t), ln)
        else:
            self.rec("R", st, root, off, sizeof(t), ln)
        if isptr(t) or "(*)" in t:
            return ("P", ("ld", root, off), P(0))
        if isint(t):
            if root[0] == "sub" and root[3] in self.flddefs and off == P(0):
                return self.flddefs[root[3]](self, st, root)
            if root[0] == "sub":
                s = ("s" if issigned(t) else "v", ("fld", root, off), 0)
                if t.strip() == "bool":
                    self.bounds.setdefault(s, ([], [P(1)]))
                self.free.add(s)
            else:
                s = ("s" if issigned(t) else "v", ("ldi", root, off), 0)
            return Poly.sym(s)
        return ("T", t)

    def unknown(self, t, name):
        if isptr(t) or "(*)" in (t or ""):
            self.uid += 1
            return ("P", ("unk", name, self.uid), P(0))
        if isint(t):
            return Poly.sym(self.fresh(name, issigned(t)))
        return ("T", t)

    def store(self, st, loc, val, t, ln):
        if loc[0] == "var":
            v = st.env.get(loc[1])
            if isinstance(v, tuple) and v and v[0] == "R":
                return self.store(st, v[1], val, t, ln)
            self.varwrite(st, loc[1], ln)
            st.env[loc[1]] = val
            return
        _, root, off = loc[:3]
        self.rec("W", st, root, off, sizeof(t), ln)
        if root[0] == "sub":
            st.env[("fld",) + root[1:]] = val
        elif isptr(t) and root[0] == "local":
            st.env[("mem", root, off)] = val
            st.env[("mem*", root)] = val

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        """list of (state, value)"""
        self.steps += 1
        if e is None:
            return [(st, ("T", None))]
        k = e.get("k")
        t = e.get("t")
        if k in ("rv",):
            x = e["e"]
            if x.get("k") in ("ref", "mem", "idx", "un", "cond", "asg", "call", "rv", "icast", "cast", "bin"):
                out = []
                for s, l in self.lv(x, st):
                    if l is None:
                        out.append((s, self.unknown(ptype(x), "?")))
                    elif l[0] == "val":
                        out.append((s, l[1]))
                    else:
                        out.append((s, self.load(s, l, ltype(l, ptype(x)), e.get("ln"))))
                return out
            return self.ev(x, st)
        if k in ("icast", "cast"):
            if e.get("ck") == "ArrayToPointerDecay":
                out = []
                for s, l in self.lv(e["e"], st):
                    if l is not None and l[0] == "m":
                        out.append((s, ("P", l[1], l[2])))
                    else:
                        out.append((s, self.unknown("x *", "arr")))
                return out
            ck = e.get("ck", "")
            if ck == "NullToPointer":
                return [(st, NULL)]
            if ck == "FloatingToIntegral":
                return [(s, self.unknown(t, "float")) for s, v in self.ev(e["e"], st)]
            r = self.ev(e["e"], st)
            if isptr(t or "") and ck not in ("IntegralToPointer",):
                return [(s, v if isinstance(v, tuple) and v[0] in ("P", "N", "F") else
                         self.unknown(t, "cast")) for s, v in r]
            if isint(t or "") and any(not isinstance(v, Poly) for _, v in r):
                return [(s, v if isinstance(v, Poly) else self.unknown(t, "cast")) for s, v in r]
            return r
        if k == "int":
            return [(st, P(int(e["v"])))]
        if k == "bool":
            return [(st, P(1 if e["v"] else 0))]
        if k == "char":
            return [(st, P(0) if not e.get("v") else ("T", "char"))]
        if k == "null":
            return [(st, NULL)]
        if k == "this":
            th = self.stack[-1]["this"]
            return [(st, th)]
        if k == "sizeof":
            try:
                return [(st, P(int(e["v"])))]
            except Exception:
                return [(st, P(1))]
        if k in ("float", "str"):
            return [(st, ("T", k))]
        if k == "fnptr":
            return [(st, ("F", e.get("fn")))]
        if k == "defarg":
            return self.ev(e["e"], st)
        if k in ("ref", "mem", "idx", "memfn"):
            out = []
            if k == "ref" and e.get("vk") in ("func", "enum"):
                return [(st, ("F", e["id"]) if e.get("vk") == "func" else self.unknown("int", e["n"]))]
            for s, l in self.lv(e, st):
                if l is None:
                    out.append((s, ("T", t)))
                else:
                    # aggregate value by reference
                    out.append((s, ("O", l)))
            return out
        if k == "un":
            op = e["op"]
            if op == "&":
                out = []
                for s, l in self.lv(e["e"], st):
                    if l is None:
                        out.append((s, self.unknown("x *", "addr")))
                    elif l[0] == "m":
                        out.append((s, ("P", l[1], l[2])))
                    elif l[0] == "var":
                        out.append((s, ("P", ("var", l[1]), P(0))))
                    else:
                        out.append((s, self.unknown("x *", "addr")))
                return out
            if op in ("++", "--"):
                out = []
                for s, l in self.lv(e["e"], st):
                    if l is None or l[0] == "val":
                        out.append((s, ("T", t)))
                        continue
                    lt = ltype(l, ptype(e["e"]))
                    v = self.load(s, l, lt, e.get("ln"))
                    nv = self.arith("+" if op == "++" else "-", v, P(1), lt, s)
                    self.store(s, l, nv, lt, e.get("ln"))
                    out.append((s, v if e.get("post") else nv))
                return out
            if op == "!":
                return [(s, P(0 if b else 1)) for s, b in self.cond(e["e"], st)]
            if op == "-":
                return [(s, -v if isinstance(v, Poly) else v) for s, v in self.ev(e["e"], st)]
            if op == "+":
                return self.ev(e["e"], st)
            if op == "*":
                return [(s, ("O", l)) for s, l in self.lv(e, st) if l is not None] or [(st, ("T", t))]
            return [(s, self.unknown(t, op)) for s, v in self.ev(e["e"], st)]
        if k == "bin":
            op = e["op"]
            if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                return [(s, P(1 if b else 0)) for s, b in self.cond(e, st)]
            if op == ",":
                out = []
                for s, v in self.ev(e["l"], st):
                    out += self.ev(e["r"], s)
                return out
            out = []
            for s, a in self.ev(e["l"], st):
                for s2, b in self.ev(e["r"], s):
                    lt = ptype(e["l"]) or ""
                    if isinstance(a, Poly) and isinstance(b, tuple) and b[0] == "P":
                        a, b = b, a
                        lt = ptype(e["r"]) or ""
                    out.append((s2, self.arith(op, a, b, lt, s2, t)))
            return out
        if k == "asg":
            return [(s, l[1] if l and l[0] == "val" else v) for s, l, v in self.assign(e, st)]
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st):
                out += self.ev(e["l"] if b else e["r"], s)
            return out
        if k in ("call", "mpcall"):
            return self.call(e, st)
        if k == "ctor":
            return self.ctor(e, st)
        if k == "new":
            sts = [st]
            for sub in (e.get("size"), e.get("init")):
                if sub is not None:
                    sts = [s2 for s in sts for s2, _ in self.ev(sub, s)]
            self.uid += 1
            return [(s, ("P", ("new", e.get("ln"), self.uid), P(0))) for s in sts]
        if k == "delete":
            out = []
            for s, v in self.ev(e["e"], st):
                if isinstance(v, tuple) and v[0] == "P":
                    self.rec("W", s, v[1], v[2], None, e.get("ln"), "delete")
                out.append((s, ("T", None)))
            return out
        if k == "initlist":
            sts = [st]
            for sub in e.get("e", e.get("args", [])) or []:
                sts = [s2 for s in sts for s2, _ in self.ev(sub, s)]
            return [(s, ("T", t)) for s in sts]
        return [(st, self.unknown(t, k or "?"))]

    def arith(self, op, a, b, lt, st, t=None):
        if op == "=":
            return b
        if isinstance(a, tuple) and a[0] == "P":
            es = sizeof(pointee(lt))
            if isinstance(b, Poly) and op in ("+", "-"):
                return ("P", a[1], a[2] + b * es if op == "+" else a[2] - b * es)
            if isinstance(b, tuple) and b[0] == "P" and op == "-" and b[1] == a[1]:
                d = (a[2] - b[2]).divexact(P(es))
                if d is not None:
                    return d
            if op == "-" and t and isint(t):
                return self.unknown("long", "pdiff")
            return self.unknown("x *", "ptrop")
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                if len(a.t) * len(b.t) > 60:
                    return self.unknown(t or "unsigned long", "big")
                return a * b
            if op in ("/", "%"):
                if a.isconst() and b.isconst() and b.cval() > 0 and a.cval() >= 0:
                    return P(a.cval() // b.cval()) if op == "/" else P(a.cval() % b.cval())
                if op == "/" and b == P(1):
                    return a
                return self.opq(op, a, b)
            if op in ("&", "|", "^", "<<", ">>"):
                if op == "<<" and b.isconst() and 0 <= b.cval() < 40:
                    return a * (1 << b.cval())
                if op == ">>" and b.isconst() and 0 <= b.cval() < 40:
                    return self.arith("/", a, P(1 << b.cval()), lt, st, t)
                return self.opq(op, a, b)
        if t and (isint(t) or isptr(t)):
            return self.unknown(t, op)
        if lt and isint(lt):
            return self.unknown(lt, op)
        return ("T", t or lt)

    def assign(self, e, st):
        out = []
        op = e["op"]
        if op == "=":
            for s, v in self.ev(e["r"], st):
                for s2, l in self.lv(e["l"], s):
                    if l is None or l[0] == "val":
                        out.append((s2, l, v))
                        continue
                    lt = ltype(l, ptype(e["l"]))
                    self.store(s2, l, self.norm(v, lt), lt, e.get("ln"))
                    out.append((s2, l, v))
        else:
            o = op[:-1]
            for s, v in self.ev(e["r"], st):
                for s2, l in self.lv(e["l"], s):
                    if l is None or l[0] == "val":
                        out.append((s2, l, v))
                        continue
                    lt = ltype(l, ptype(e["l"]))
                    cur = self.load(s2, l, lt, e.get("ln"))
                    nv = self.arith(o, cur, v, lt, s2, lt)
                    self.store(s2, l, nv, lt, e.get("ln"))
                    out.append((s2, l, nv))
        return out

    def norm(self, v, t):
        if isinstance(v, tuple) and v[0] == "O":
            return ("T", t)
        if isint(t or "") and not isinstance(v, Poly):
            return self.unknown(t, "n")
        return v

    def lv(self, e, st):
        """list of (state, location)"""
        k = e.get("k")
        if k in ("rv",):
            return self.lv(e["e"], st)
        if k in ("icast", "cast"):
            ck = e.get("ck", "")
            if ck in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", ""):
                return self.lv(e["e"], st)
            return [(s, ("val", v)) for s, v in self.ev(e, st)]
        if k == "ref":
            vk = e.get("vk")
            if vk in ("global", "slocal"):
                return [(st, ("m", ("global", e["id"]), P(0), e.get("t")))]
            v = st.env.get(e["id"])
            if isinstance(v, tuple) and v and v[0] == "R":
                return [(st, v[1])]
            if isinstance(v, tuple) and v and v[0] == "A":
                return [(st, ("m", v[1], P(0), e.get("t")))]
            return [(st, ("var", e["id"]))]
        if k == "mem":
            out = []
            b = e.get("b")
            if b is None:
                bs = [(st, self.stack[-1]["this"])]
                arrow = True
            elif e.get("arrow"):
                bs = self.ev(b, st)
                arrow = True
            else:
                bs = [(s, ("P", l[1], l[2]) if l is not None and l[0] == "m" else
                       (("P", ("var", l[1]), P(0)) if l is not None and l[0] == "var" else
                        (l[1][1:] if False else ("P", ("tmp", self.bump()), P(0)))))
                      for s, l in self.lvobj(b, st)]
            for s, v in bs:
                if isinstance(v, tuple) and v[0] == "P":
                    if e.get("c") in LEAF:
                        d = 8 if e["f"] == "im" else 0
                        out.append((s, ("m", v[1], v[2] + d, e.get("t"))))
                    else:
                        self.axiom(s, v[1], v[2], e.get("c"))
                        out.append((s, ("m", ("sub", v[1], v[2], e["f"]), P(0), e.get("t"))))
                else:
                    out.append((s, None))
            return out
        if k == "idx":
            out = []
            bt = ptype(strip(e["b"])) or ""
            for s, b in self.ev(e["b"], st):
                for s2, i in self.ev(e["i"], s):
                    if isinstance(b, tuple) and b[0] == "P":
                        if not isinstance(i, Poly):
                            i = self.unknown("unsigned long", "i")
                        out.append((s2, ("m", b[1], b[2] + i * sizeof(e.get("t") or pointee(bt)), e.get("t"))))
                    else:
                        out.append((s2, None))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for s, b in self.ev(e["e"], st):
                if isinstance(b, tuple) and b[0] == "P":
                    if b[1][0] == "var":
                        out.append((s, ("var", b[1][1])))
                    else:
                        out.append((s, ("m", b[1], b[2], e.get("t"))))
                elif isinstance(b, tuple) and b[0] == "O":
                    out.append((s, b[1]))
                else:
                    out.append((s, None))
            return out
        if k == "un" and e["op"] in ("++", "--"):
            out = []
            for s, l in self.lv(e["e"], st):
                if l is not None and l[0] != "val":
                    lt = ltype(l, ptype(e["e"]))
                    v = self.load(s, l, lt, e.get("ln"))
                    self.store(s, l, self.arith("+" if e["op"] == "++" else "-", v, P(1), lt, s), lt, e.get("ln"))
                out.append((s, l))
            return out
        if k == "asg":
            return [(s, l) for s, l, v in self.assign(e, st)]
        if k == "cond":
            out = []
            for s, b in self.cond(e["c"], st):
                out += self.lv(e["l"] if b else e["r"], s)
            return out
        if k == "bin" and e["op"] == ",":
            out = []
            for s, v in self.ev(e["l"], st):
                out += self.lv(e["r"], s)
            return out
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, tuple) and v[0] == "O":
                out.append((s, v[1]))
            else:
                out.append((s, ("val", v)))
        return out

    def bump(self):
        self.uid += 1
        return self.uid

    def lvobj(self, e, st):
        return self.lv(e, st)

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """list of (state, bool)"""
        k = e.get("k")
        if k in ("rv", "icast", "cast") and (e.get("t") in (None, "bool") or k == "rv"):
            if k == "rv" or e.get("ck") in ("IntegralToBoolean", "PointerToBoolean", "NoOp", "LValueToRValue"):
                x = e["e"]
                if k != "rv" or x.get("k") not in ("ref", "mem", "idx"):
                    return self.cond(x, st)
        if k == "bool":
            return [(st, bool(e["v"]))]
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(e["e"], st)]
        if k == "bin" and e["op"] == "&&":
            out = []
            for s, b in self.cond(e["l"], st):
                out += self.cond(e["r"], s) if b else [(s, False)]
            return out
        if k == "bin" and e["op"] == "||":
            out = []
            for s, b in self.cond(e["l"], st):
                out += [(s, True)] if b else self.cond(e["r"], s)
            return out
        if k == "bin" and e["op"] in ("<", ">", "<=", ">=", "==", "!="):
            out = []
            for s, a in self.ev(e["l"], st):
                for s2, b in self.ev(e["r"], s):
                    out += self.rel(e["op"], a, b, s2)
            return out
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, Poly):
                out += self.rel("!=", v, P(0), s)
            elif v == NULL:
                out.append((s, False))
            elif isinstance(v, tuple) and v[0] == "P":
                out += self.rel("!=", v, NULL, s)
            else:
                out += [(s, True), (s.copy(), False)]
        return out

    def rel(self, op, a, b, st):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == ">":
                return self.rel("<", b, a, st)
            if op == "<=":
                return [(s, not v) for s, v in self.rel("<", b, a, st)]
            if op == ">=":
                return [(s, not v) for s, v in self.rel("<", a, b, st)]
            if op == "!=":
                return [(s, not v) for s, v in self.rel("==", a, b, st)]
            d = b - a
            if op == "<":
                if d.isconst():
                    return [(st, d.cval() > 0)]
                F = self.facts(st)
                if prove_ge(d - 1, F, 3):
                    return [(st, True)]
                if prove_ge(-d, F, 3):
                    return [(st, False)]
                s2 = st.copy()
                st.facts = addf(st.facts, d - 1)
                s2.facts = addf(s2.facts, -d)
                return [(st, True), (s2, False)]
            # ==
            if d.isconst():
                return [(st, d.cval() == 0)]
            k1, k2 = ("eq", d), ("eq", -d)
            for kk in (k1, k2):
                if kk in st.conds:
                    return [(st, st.conds[kk])]
            F = self.facts(st)
            if prove_ge(d - 1, F, 3) or prove_ge(-d - 1, F, 3):
                return [(st, False)]
            if prove_ge(d, F, 3) and prove_ge(-d, F, 3):
                return [(st, True)]
            s2 = st.copy()
            st.conds[k1] = True
            st.facts = addf(addf(st.facts, d), -d)
            s2.conds[k1] = False
            if prove_ge(d, F, 2):
                s2.facts = addf(s2.facts, d - 1)
            elif prove_ge(-d, F, 2):
                s2.facts = addf(s2.facts, -d - 1)
            return [(st, True), (s2, False)]
        if op in ("==", "!="):
            r = None
            pa = isinstance(a, tuple) and a[0] == "P"
            pb = isinstance(b, tuple) and b[0] == "P"
            if a == NULL and b == NULL:
                r = [(st, True)]
            elif pa and pb and a[1] == b[1]:
                r = self.rel("==", a[2], b[2], st)
            elif (pa and b == NULL) or (pb and a == NULL):
                x = a if pa else b
                if x[1][0] in ("new", "local", "var", "this", "nn"):
                    r = [(st, False)]
                elif x[2] == P(0):
                    kk = ("null", x[1])
                    if kk in st.conds:
                        r = [(st, st.conds[kk])]
                    else:
                        s2 = st.copy()
                        st.conds[kk] = True
                        s2.conds[kk] = False
                        r = [(st, True), (s2, False)]
            if r is None:
                kk = ("cmp", repr(a), repr(b))
                if kk in st.conds:
                    r = [(st, st.conds[kk])]
                else:
                    s2 = st.copy()
                    st.conds[kk] = True
                    s2.conds[kk] = False
                    r = [(st, True), (s2, False)]
            return r if op == "==" else [(s, not v) for s, v in r]
        return [(st, True), (st.copy(), False)]

    def axiom(self, st, root, off, cls):
        """class invariants of the object at (root,off)"""
        if cls is None:
            return
        key = (root, off, cls)
        if key in self.axseen:
            return
        self.axseen.add(key)

    # ------------------------------------------------------------ calls
    def evargs(self, args, params, st):
        sts = [(st, [])]
        for i, a in enumerate(args):
            t = params[i]["t"] if i < len(params) else "?"
            n = []
            for s, vs in sts:
                if isref(t):
                    for s2, l in self.lv(a, s):
                        if l is None:
                            l = ("val", ("T", None))
                        n.append((s2, vs + [("R", l)]))
                else:
                    for s2, v in self.ev(a, s):
                        n.append((s2, vs + [v]))
            sts = n
        return sts

    def touch(self, st, l, t, kind, ln):
        """read/write of a referenced object"""
        if l[0] == "m":
            self.rec(kind, st, l[1], l[2], sizeof(t), ln)
        elif l[0] == "var" and kind == "W":
            v = st.env.get(l[1])
            if isinstance(v, tuple) and v and v[0] == "R":
                return self.touch(st, v[1], t, kind, ln)
            self.varwrite(st, l[1], ln)
            if isinstance(st.env.get(l[1]), Poly):
                st.env[l[1]] = self.unknown("unsigned long", "mod")

    def objof(self, e, st):
        o = e.get("obj")
        if o is None:
            return [(st, None)]
        if o.get("k") == "this":
            return [(st, self.stack[-1]["this"])]
        if e.get("arrow"):
            return self.ev(o, st)
        out = []
        for s, l in self.lv(o, st):
            if l is None or l[0] == "val":
                out.append((s, None))
            elif l[0] == "m":
                out.append((s, ("P", l[1], l[2])))
            else:
                out.append((s, ("P", ("var", l[1]), P(0))))
        return out

    def call(self, e, st):
        name = e.get("name") or ""
        ln = e.get("ln")
        if e["k"] == "mpcall":
            return self.mpcall(e, st)
        f = self.p.funcs.get(e.get("fn"))
        t = e.get("t") or "void"
        if self.hooks:
            r = self.hooks.call(self, e, f, st)
            if r is not None:
                return r
        # thread number
        if name == "omp_get_thread_num":
            R = self.region
            if R is None:
                return [(st, self.opq("omp_tid", P(0)))]
            return [(st, Poly.sym(R.tid))]
        if name in ("std::max", "std::min") and isint((t or "").rstrip("& ")):
            out = []
            for s, a in self.ev(e["args"][0], st):
                for s2, b in self.ev(e["args"][1], s):
                    if isinstance(a, tuple) and a[0] == "O":
                        a = self.load(s2, a[1], t, ln)
                    if isinstance(b, tuple) and b[0] == "O":
                        b = self.load(s2, b[1], t, ln)
                    if isinstance(a, Poly) and isinstance(b, Poly):
                        out.append((s2, self.opq(name[5:], a, b)))
                    else:
                        out.append((s2, self.unknown("unsigned long", "mm")))
            return out
        params = f["params"] if f else []
        if not params and e.get("args"):
            from .effects import sigtext
            sg = sigtext(e.get("fn") or "") or ""
            params = [{"t": x} for x in splitargs(sg)]
        out = []
        for s, o in self.objof(e, st):
            for s2, av in self.evargs(e.get("args", []), params, s):
                out += self.apply(e, f, s2, o, av, params)
        return self.merge(out)

    def apply(self, e, f, st, o, av, params):
        ln = e.get("ln")
        t = e.get("t") or "void"
        cls = (f or {}).get("cls")
        isdef = f is not None and f["isdef"]
        depth = len(self.stack)
        # arithmetic on Complex/vector values: reads of references, write of *this
        if cls in LEAF or (isdef and leaf(f)):
            for i, (v, p) in enumerate(zip(av, params)):
                if isinstance(v, tuple) and v[0] == "R":
                    self.touch(st, v[1], p["t"].replace("&", "").strip(), "R", ln)
                    if not p["t"].startswith("const ") and self.E is not None:
                        pass
            if o is not None and o[0] == "P":
                base = e.get("name", "").split("::")[-1]
                w = self.E is not None and f is not None and f["isdef"] and \
                    any(x[0] == ("this",) for x in self.E.eff[f["id"]].writes)
                if not f["isdef"] and base.startswith("operator") and "=" in base and base not in ("operator==", "operator!="):
                    w = True
                l = ("var", o[1][1]) if o[1][0] == "var" else ("m", o[1], o[2])
                if w:
                    self.touch(st, l, "Complex", "W", ln)
                    if base != "operator=":
                        self.touch(st, l, "Complex", "R", ln)
                else:
                    self.touch(st, l, "Complex", "R", ln)
                return [(st, ("O", l + ((cls or "Complex"),) if l[0] == "m" else l))]
            return [(st, self.unknown(t, e.get("name", "?")) if isint(t) else ("T", t))]
        if f is None or not isdef:
            return self.extern(e, f, st, o, av, params)
        virt = e.get("virt") and f.get("virt") and len(self.p.overriders(f["id"])) > 1
        known = self.stack[-1].get("cls")
        if virt and o is not None and o[1] == ("this",) and self.stack[0].get("dyn"):
            g = self.p.override_in(f["id"], self.stack[0]["dyn"])
            if g is not None and g["isdef"]:
                f, virt = g, False
        if depth < self.maxdepth and not virt and not any(x["f"] is f for x in self.stack) and inlinable(f, self):
            return self.inline(e, f, st, o, av)
        return self.summary(e, [f] if not virt else self.p.overriders(f["id"]), st, o, av)

    def inline(self, e, f, st, o, av):
        saved = self.prot
        fr = {"f": f, "this": o if o is not None else ("P", ("this", self.bump()), P(0)), "ln": e.get("ln")}
        self.stack.append(fr)
        out = []
        try:
            s = st.copy()
            for p, v in zip(f["params"], av):
                if self.region is not None:
                    self.region.privates.add(p["id"])
                s.env[p["id"]] = self.norm(v, p["t"]) if not (isinstance(v, tuple) and v[0] == "R") else v
                if isinstance(v, tuple) and v[0] == "R" and v[1][0] == "val":
                    s.env[p["id"]] = v[1][1] if v[1][1] is not None else ("T", p["t"])
                if isinstance(v, tuple) and v[0] == "O" and not isint(p["t"]):
                    s.env[p["id"]] = ("T", p["t"])
            res = self.block(f["body"], [s])
            for s2, fl in res:
                v = ("T", e.get("t"))
                if fl is not None and fl[0] == "ret":
                    v = fl[1]
                for p in f["params"]:
                    s2.env.pop(p["id"], None)
                out.append((s2, v))
        finally:
            self.stack.pop()
        self.prot = saved
        return self.merge(out)

    def extern(self, e, f, st, o, av, params):
        name = e.get("name") or ""
        ln = e.get("ln")
        t = e.get("t") or "void"
        if name.startswith("std::operator<<") or "ostream" in name or name in ("exit", "omp_set_num_threads"):
            if self.region is not None and name != "exit":
                self.region.notes.append(("io", ln, name))
            return [(st, ("T", t))]
        if o is not None and not e.get("constm") and "operator->" not in name and "operator*" not in name:
            if o[0] == "P":
                self.rec("W", st, o[1], o[2], None, ln, name)
        for v, p in zip(av, params):
            pt = p["t"]
            if isinstance(v, tuple) and v[0] == "R":
                k = "R" if pt.startswith("const ") else "W"
                if v[1][0] != "val":
                    self.touch(st, v[1], pt.replace("&", "").replace("const ", "").strip(), k, ln)
            elif isinstance(v, tuple) and v[0] == "P" and (isptr(pt) or "(*)" in pt):
                if name.startswith(("fftw_destroy", "omp_")):
                    continue
                if pt.startswith("const "):
                    self.rec("R", st, v[1], v[2], None, ln, name)
                elif "fftw_plan_s" in pt:
                    continue
                elif v[1][0] == "var":
                    self.varwrite(st, v[1][1], ln)
                    st.env[v[1][1]] = self.unknown(pointee(pt), "out")
                else:
                    k = "W"
                    self.rec(k, st, v[1], v[2], None, ln, name)
        if self.region is not None and name.startswith(("fftw_plan", "fftw_import", "fftw_forget", "fftw_destroy")):
            self.region.notes.append(("planner", ln, name))
        return [(st, self.unknown(t, name) if (isint(t) or isptr(t)) else ("T", t))]

    def mpcall(self, e, st):
        tg = self.E.targets(e) if self.E else []
        c = strip(e["callee"])
        out = []
        for s, o in self.ev(c["b"], st) if c.get("k") == "ptrmem" else [(st, None)]:
            params = tg[0]["params"] if tg else []
            for s2, av in self.evargs(e.get("args", []), params, s):
                out += self.summary(e, tg, s2, o, av)
        return self.merge(out)

    def summary(self, e, tgs, st, o, av):
        """apply inferred mod effects of the possible callees"""
        ln = e.get("ln")
        t = e.get("t") or "void"
        names = (e.get("name") or "mp").split("::")[-1]
        ints = tuple(v for v in av if isinstance(v, Poly))
        done = set()
        for f in tgs:
            ef = self.E.eff.get(f["id"]) if self.E else None
            if ef is None:
                continue
            for root, sels in ef.writes:
                if (root, sels) in done:
                    continue
                done.add((root, sels))
                if root[0] == "g":
                    self.rec("W", st, ("global", root[1]), P(0), 8, ln, "%s writes a global" % names)
                    continue
                if root[0] == "this":
                    v = o
                elif root[0] == "p":
                    v = av[root[1]] if root[1] < len(av) else None
                    sels = sels[1:]
                else:
                    continue
                if isinstance(v, tuple) and v[0] == "R":
                    l = v[1]
                    if l[0] == "var" and not sels:
                        self.varwrite(st, l[1], ln)
                        st.env[l[1]] = self.unknown("unsigned long", "mod") if isinstance(st.env.get(l[1]), Poly) else st.env.get(l[1])
                        continue
                    v = ("P", l[1], l[2]) if l[0] == "m" else None
                if not (isinstance(v, tuple) and v[0] == "P"):
                    continue
                r, off = self.path(st, v[1], v[2], sels)
                if r is None:
                    continue
                if r[0] == "sub":
                    st.env[("fld",) + r[1:]] = None if ("fld",) + r[1:] not in st.env else None
                    st.env.pop(("fld",) + r[1:], None)
                    self.killfld(st, r, off)
                self.rec("W", st, r, off, None, ln, names, ints)
        if isptr(t):
            r = self.unknown(t, names)
        elif isint(t):
            # a deterministic query of object state
            if all(not (self.E.eff.get(f["id"]) and self.E.eff[f["id"]].writes) for f in tgs) and tgs:
                args = [a for a in av if isinstance(a, Poly)]
                r = self.opq("call:" + names, *args) if o is None or o[0] != "P" else \
                    self.opq("call:%s@%s" % (names, rname(o[1], o[2])), *args)
            else:
                r = self.unknown(t, names)
        else:
            r = ("T", t)
        return [(st, r)]

    def killfld(self, st, r, off):
        st.env[("fld",) + r[1:]] = self.unknown("unsigned long", r[3]) if False else None
        st.env.pop(("fld",) + r[1:], None)

    def path(self, st, root, off, sels):
        """location reached by selectors from object/pointer target (root,off)"""
        for s in sels:
            if s == "*":
                v = None
                if root[0] == "local":
                    v = st.env.get(("mem*", root))
                elif root[0] == "sub":
                    v = st.env.get(("fld",) + root[1:])
                if isinstance(v, tuple) and v and v[0] == "P":
                    root, off = v[1], v[2]
                elif v == NULL:
                    return None, None
                else:
                    root, off = ("ld", root, off), P(0)
            else:
                root, off = ("sub", root, off, s), P(0)
        return root, off

    def ctor(self, e, st):
        f = self.p.funcs.get(e.get("fn"))
        params = f["params"] if f else []
        out = []
        for s, av in self.evargs(e.get("args", []), params, st):
            for v, p in zip(av, params):
                if isinstance(v, tuple) and v[0] == "R" and v[1][0] == "m":
                    self.touch(s, v[1], p["t"].replace("&", "").replace("const ", "").strip(), "R", e.get("ln"))
            if f is not None and self.E is not None and f["id"] in self.E.eff:
                for root, sels in self.E.eff[f["id"]].writes:
                    if root[0] == "p" and root[1] < len(av):
                        v = av[root[1]]
                        if isinstance(v, tuple) and v[0] == "P":
                            r, off = self.path(s, v[1], v[2], sels[1:])
                            if r is not None:
                                self.rec("W", s, r, off, None, e.get("ln"), "constructor " + (e.get("cls") or ""),
                                         tuple(x for x in av if isinstance(x, Poly)))
                    elif root[0] == "g":
                        if self.region is not None and root[1] == "fftw-planner":
                            self.region.notes.append(("planner", e.get("ln"), e.get("cls")))
                        self.rec("W", s, ("global", root[1]), P(0), 8, e.get("ln"), "constructor writes a global")
            if len(av) == 1 and (e.get("cls") in LEAF or "complex" in (e.get("cls") or "")):
                v = av[0]
                if isinstance(v, tuple) and v[0] == "R" and v[1][0] != "val":
                    out.append((s, ("O", v[1])))
                    continue
            out.append((s, ("T", e.get("t") or e.get("cls"))))
        return out

    # ------------------------------------------------------------ statements
    def merge(self, pairs):
        if len(pairs) <= 1:
            return pairs
        d = {}
        for s, v in pairs:
            k = (frozenset((a, hv(b)) for a, b in s.env.items()), hv(v))
            if k in d:
                o = d[k][0]
                o.facts = tuple(x for x in o.facts if x in s.facts)
                o.conds = {a: b for a, b in o.conds.items() if s.conds.get(a) == b}
            else:
                d[k] = (s, v)
        r = list(d.values())
        if len(r) > MAXSTATES:
            r = self.join(r)
        return r

    def join(self, pairs):
        """collapse to one state per control outcome, havocking differences"""
        by = {}
        for s, v in pairs:
            kind = v[0] if isinstance(v, tuple) and v and v[0] in ("ret", "break", "continue") else "n"
            by.setdefault(kind, []).append((s, v))
        out = []
        for kind, l in by.items():
            s0, v0 = l[0]
            s0 = s0.copy()
            for s, v in l[1:]:
                for a in list(s0.env):
                    if s.env.get(a) != s0.env[a]:
                        x = s0.env[a]
                        if isinstance(a, tuple):
                            s0.env.pop(a)
                        else:
                            s0.env[a] = self.unknown("unsigned long" if isinstance(x, Poly) else "x *", "join") \
                                if isinstance(x, Poly) or (isinstance(x, tuple) and x[0] in ("P", "N")) else ("T", None)
                s0.facts = tuple(x for x in s0.facts if x in s.facts)
                s0.conds = {a: b for a, b in s0.conds.items() if s.conds.get(a) == b}
                if v != v0 and kind == "n":
                    v0 = ("T", None)
                elif v != v0 and kind == "ret":
                    v0 = ("ret", ("T", None))
            out.append((s0, v0))
        return out

    def block(self, b, states):
        """list of (state, flow) ; flow None | ('ret',v) | ('break',) | ('continue',)"""
        cur = [(s, None) for s in states]
        if b is None:
            return cur
        scoped = []
        for x in (b["s"] if b.get("k") == "block" else [b]):
            if x is not None and x.get("k") == "decl":
                scoped += [v["id"] for v in x["d"] if v.get("k") == "var"]
        for x in (b["s"] if b.get("k") == "block" else [b]):
            n = []
            for s, fl in cur:
                if fl is not None:
                    n.append((s, fl))
                else:
                    n += self.stmt(x, s)
            cur = self.merge(n)
        if scoped:
            for s, fl in cur:
                for v in scoped:
                    s.env.pop(v, None)
            cur = self.merge(cur)
        return cur

    def declare(self, v, st):
        t = v["t"]
        R = self.region
        if v.get("static"):
            return [st]
        if R is not None:
            R.privates.add(v["id"])
        i = v.get("init")
        if isref(t):
            out = []
            for s, l in self.lv(i, st):
                if l is None or l[0] == "val":
                    s.env[v["id"]] = l[1] if l else ("T", t)
                else:
                    s.env[v["id"]] = ("R", l)
                out.append(s)
            return out
        if t.rstrip().endswith("]"):
            sts = [st]
            if i is not None:
                sts = [s for s, _ in self.ev(i, st)]
            for s in sts:
                s.env[v["id"]] = ("A", ("local", v["id"], self.bump()))
            return sts
        if isint(t) or isptr(t) or "(*)" in t or "::*" in t or t in SIZES or "enum" in t:
            if i is None:
                st.env[v["id"]] = self.unknown(t, v["n"]) if isint(t) or isptr(t) else ("T", t)
                return [st]
            out = []
            for s, val in self.ev(i, st):
                if isinstance(val, tuple) and val[0] == "O":
                    val = ("T", t)
                s.env[v["id"]] = self.norm(val, t)
                out.append(s)
            return out
        # class object
        sts = [st]
        if i is not None:
            sts = [s for s, _ in self.ev(i, st)]
        for s in sts:
            s.env[v["id"]] = ("A", ("local", v["id"], self.bump()))
        return sts

    def stmt(self, x, st):
        k = x.get("k") if x else "nop"
        if k == "nop" or k is None:
            return [(st, None)]
        if k == "block":
            return self.block(x, [st])
        if k == "decl":
            sts = [st]
            for v in x["d"]:
                if v.get("k") == "var":
                    sts = [s2 for s in sts for s2 in self.declare(v, s)]
            return [(s, None) for s in sts]
        if k == "expr":
            return self.merge([(s, None) for s, _ in self.ev(x["e"], st)])
        if k == "if":
            sts = [st]
            if x.get("init"):
                sts = [s for s, _ in self.stmt(x["init"], st)]
            out = []
            for s0 in sts:
                base = s0.facts
                for s, b in self.cond(x["c"], s0):
                    if b:
                        out += self.block(x["then"], [s])
                    elif x.get("else"):
                        out += self.block(x["else"], [s])
                    else:
                        out.append((s, None))
            return self.merge(out)
        if k == "return":
            if x.get("e") is None:
                return [(st, ("ret", ("T", "void")))]
            rt = self.stack[-1]["f"].get("rt") or ""
            out = []
            for s, v in self.ev(x["e"], st):
                out.append((s, ("ret", v)))
            return out
        if k in ("break", "continue"):
            return [(st, (k,))]
        if k == "for":
            return self.forloop(x, st)
        if k in ("while", "do", "forrange"):
            return self.whileloop(x, st)
        if k == "switch":
            out = []
            sts = self.ev(x.get("c") or x.get("e"), st)
            for s, _ in sts:
                for c in [n for n in walk(x.get("body")) if n.get("k") in ("case", "default")]:
                    out += self.block({"k": "block", "s": c["s"] if isinstance(c.get("s"), list) else [c.get("body") or c.get("s")]}, [s.copy()])
            return [(s, None if f is None or f[0] == "break" else f) for s, f in self.merge(out)] or [(st, None)]
        if k == "omp":
            return self.omp(x, st)
        if k == "try":
            return self.block(x.get("body"), [st])
        return [(st, None)]

    # ---- loops
    def modified(self, nodes):
        """variables / fields assigned inside"""
        vs, flds, calls = {}, set(), []
        for n in walk(nodes):
            kk = n.get("k")
            if kk == "asg":
                l = strip(n["l"])
            elif kk == "un" and n["op"] in ("++", "--"):
                l = strip(n["e"])
            else:
                if kk in ("call", "mpcall"):
                    calls.append(n)
                    f = self.p.funcs.get(n.get("fn"))
                    if f:
                        for a, p in zip(n.get("args", []), f["params"]):
                            if isref(p["t"]) and not p["t"].startswith("const "):
                                b = strip(a)
                                if b.get("k") == "ref":
                                    vs.setdefault(b["id"], []).append(n)
                continue
            while l.get("k") == "cond":
                l = strip(l["l"])
            if l.get("k") == "ref":
                vs.setdefault(l["id"], []).append(n)
            elif l.get("k") == "mem":
                flds.add(l["f"])
        return vs, flds, calls

    def havoc(self, st, vs, flds, keep=()):
        for v in vs:
            if v in keep:
                continue
            old = st.env.get(v)
            if old is None:
                continue
            if isinstance(old, Poly):
                st.env[v] = Poly.sym(self.fresh("h:" + v.split("#")[0], True))
            elif isinstance(old, tuple) and old[0] == "P":
                st.env[v] = ("P", old[1], old[2] + Poly.sym(self.fresh("h:" + v.split("#")[0], True)))
            elif isinstance(old, tuple) and old[0] == "N":
                st.env[v] = self.unknown("x *", v)
            elif isinstance(old, tuple) and old[0] == "R":
                pass
            elif isinstance(old, tuple) and old[0] == "A":
                pass
            else:
                st.env[v] = ("T", None)
        for key in list(st.env):
            if isinstance(key, tuple) and key[0] == "fld" and key[-1] in flds:
                st.env.pop(key)

    def forparts(self, x):
        """(var id, var node, init expr, rel, bound expr, step expr, sign) or None"""
        i, c, inc = x.get("init"), x.get("c"), x.get("inc")
        if inc is None or c is None:
            return None
        incs = []
        while inc.get("k") == "bin" and inc["op"] == ",":
            incs.append(inc["r"])
            inc = inc["l"]
        incs.append(inc)
        for inc in reversed(incs):
            s = strip(inc)
            if s.get("k") == "un" and s["op"] in ("++", "--"):
                v = strip(s["e"])
                step, sg = {"k": "int", "v": "1", "t": "int"}, 1 if s["op"] == "++" else -1
            elif s.get("k") == "asg" and s["op"] in ("+=", "-="):
                v = strip(s["l"])
                step, sg = s["r"], 1 if s["op"] == "+=" else -1
            elif s.get("k") == "asg" and s["op"] == "=":
                v = strip(s["l"])
                r = strip(s["r"])
                if r.get("k") == "bin" and r["op"] in ("+", "-") and strip(r["l"]).get("id") == v.get("id"):
                    step, sg = r["r"], 1 if r["op"] == "+" else -1
                else:
                    continue
            else:
                continue
            if v.get("k") != "ref":
                continue
            cc = strip(c)
            rels = []
            while cc.get("k") == "bin" and cc["op"] == "&&":
                rels.append(strip(cc["r"]))
                cc = strip(cc["l"])
            rels.append(cc)
            for r in rels:
                if r.get("k") != "bin" or r["op"] not in ("<", ">", "<=", ">=", "!="):
                    continue
                l, rr, op = strip(r["l"]), strip(r["r"]), r["op"]
                if l.get("k") == "ref" and l["id"] == v["id"]:
                    return v["id"], v, op, r["r"], step, sg
                if rr.get("k") == "ref" and rr["id"] == v["id"]:
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
                    return v["id"], v, op, r["l"], step, sg
        return None

    def forloop(self, x, st, par=None):
        sts = [st]
        R = self.region
        if x.get("init"):
            if par is not None:
                pass
            sts = [s for s, f in self.stmt(x["init"], st)]
        out = []
        for s in sts:
            out += self.forbody(x, s, par)
        if x.get("init") and x["init"].get("k") == "decl":
            for v in x["init"]["d"]:
                for s, _ in out:
                    s.env.pop(v.get("id"), None)
        return self.merge(out)

    def counterize(self, x, s, par, vs):
        """turn the loop variable into init + step*n; returns parallel counter"""
        fp = self.forparts(x)
        if fp is None:
            return None, None
        vid, v, op, bound, step, sg = fp
        init = s.env.get(vid)
        if isinstance(init, tuple) and init and init[0] == "R":
            return None, None
        if len([n for n in vs.get(vid, [])]) != 1:
            return None, None
        # bound and step must be loop invariant: evaluated in the havocked state
        sp = [(a, b) for a, b in self.ev(step, s.copy())]
        bp = [(a, b) for a, b in self.ev(bound, s.copy())]
        step = sp[0][1] if sp else None
        bound = bp[0][1] if len(bp) == 1 else (bp[0][1] if bp and all(b[1] == bp[0][1] for b in bp) else None)
        n = self.fresh("n:" + v["n"])
        N = Poly.sym(n)
        lo, hi = [], []
        facts = []
        if not isinstance(step, Poly):
            return None, None
        if isinstance(init, Poly):
            val = init + step * sg * N
            if isinstance(bound, Poly):
                dist = (bound - init) if sg > 0 else (init - bound)
                if op in ("<=", ">="):
                    dist = dist + 1
                if op == "!=" and step != P(1):
                    dist = None
                if (op in ("<", "<=") and sg > 0) or (op in (">", ">=") and sg < 0) or op == "!=":
                    if dist is not None:
                        q = dist if step == P(1) else dist.divexact(step)
                        if q is not None and not (op in ("<=", ">=") and step != P(1)):
                            hi.append(q - 1)
                            facts.append(q - 1)
                        else:
                            facts.append(dist - 1 - step * N)
                            facts.append(dist - 1)
                            c = step.content()
                            if c > 1 and len(step.t) >= 1:
                                prim = Poly({mm: x // c for mm, x in step.t.items()})
                                q2 = dist.divpoly(prim)
                                if q2 is not None and not (op in ("<=", ">=")) and not prim.isconst():
                                    facts.append(q2 - 1 - N * c)
                                    facts.append(q2 - 1)
            if step != P(1):
                facts.append(step - 1)
        elif isinstance(init, tuple) and init[0] == "P":
            es = sizeof(pointee(v.get("t", "")))
            val = ("P", init[1], init[2] + step * sg * N * es)
            if isinstance(bound, tuple) and bound[0] == "P" and bound[1] == init[1] and sg > 0:
                d = (bound[2] - init[2]).divexact(P(es) * step)
                if d is not None:
                    hi.append(d - 1)
                    facts.append(d - 1)
                else:
                    d = (bound[2] - init[2]).divexact(P(es))
                    if d is not None:
                        facts.append(d - 1 - step * N)
                        facts.append(d - 1)
                        c = step.content()
                        prim = Poly({mm: x // c for mm, x in step.t.items()}) if c else None
                        q2 = d.divpoly(prim) if c and not prim.isconst() else None
                        if q2 is not None:
                            facts.append(q2 - 1 - N * c)
                            facts.append(q2 - 1)
        else:
            return None, None
        self.bounds[n] = (lo, hi)
        s.env[vid] = val
        for f in facts:
            s.facts = addf(s.facts, f)
        return n, vid

    def forbody(self, x, s, par=None):
        body, inc, c = x.get("body"), x.get("inc"), x.get("c")
        vs, flds, calls = self.modified([body, inc, c])
        uid0 = self.uid
        fp = self.forparts(x)
        keep = (fp[0],) if fp else ()
        s0 = s.copy()
        self.havoc(s, vs, flds | self.callflds(calls), keep)
        if par is not None:
            par.uid0 = uid0
            if fp:
                par.privates.add(fp[0])
        n, vid = self.counterize(x, s, par, vs)
        if n is None and fp:
            self.havoc(s, [fp[0]], set())
        # secondary induction variables
        self.secondary(x, s, s0, vs, vid, n)
        if par is not None:
            par.counters.append(n)
            par.tid = self.fresh("tid")
            par.privates |= set()
        cs = [s]
        if n is None and c is not None:
            cs = [a for a, b in self.cond(c, s) if b] or [s]
        res = []
        for a in cs:
            res += self.block(body, [a])
        out = []
        for a, fl in self.merge(res):
            if fl is not None and fl[0] == "ret":
                out.append((a, fl))
        # inc expression effects other than the counters are covered by havoc
        after = s0.copy()
        self.havoc(after, vs, flds | self.callflds(calls))
        # values assigned through calls inside the loop (facts about them are gone)
        out.append((after, None))
        return out

    def callflds(self, calls):
        """fields of any object that calls in a loop body may change"""
        if self.E is None:
            return set()
        out = set()
        for n in calls:
            for f in self.E.targets(n):
                ef = self.E.eff.get(f["id"])
                if ef:
                    for r, sels in ef.writes:
                        if sels and sels[-1] != "*":
                            out.add(sels[-1])
        return out

    def secondary(self, x, s, s0, vs, vid, n):
        if n is None:
            return
        body = x.get("body")
        top = []
        for y in (body["s"] if body and body.get("k") == "block" else [body]):
            if y is not None and y.get("k") == "expr":
                top.append(strip(y["e"]))
        inc = x.get("inc")
        extra = []
        while inc is not None and inc.get("k") == "bin" and inc["op"] == ",":
            extra.append(strip(inc["r"]))
            inc = inc["l"]
        if inc is not None:
            extra.append(strip(inc))
        for y in top + extra:
            d = None
            if y.get("k") == "asg" and y["op"] in ("+=", "-="):
                v = strip(y["l"])
                d = y["r"]
                sg = 1 if y["op"] == "+=" else -1
            elif y.get("k") == "un" and y["op"] in ("++", "--"):
                v = strip(y["e"])
                d = {"k": "int", "v": "1", "t": "int"}
                sg = 1 if y["op"] == "++" else -1
            if d is None or v.get("k") != "ref" or v["id"] == vid or len(vs.get(v["id"], [])) != 1:
                continue
            old = s0.env.get(v["id"])
            dv = self.ev(d, s.copy())
            if len(dv) != 1 or not isinstance(dv[0][1], Poly):
                continue
            if any(self.symuid.get(q, 0) > self.symuid.get(n, 0) for q in dv[0][1].syms()):
                continue
            if n in dv[0][1].syms():
                continue
            step = dv[0][1] * sg * Poly.sym(n)
            if isinstance(old, Poly):
                s.env[v["id"]] = old + step
            elif isinstance(old, tuple) and old[0] == "P":
                s.env[v["id"]] = ("P", old[1], old[2] + step * sizeof(pointee(v.get("t", ""))))

    def whileloop(self, x, st):
        vs, flds, calls = self.modified([x.get("body"), x.get("c"), x.get("inc")])
        s = st.copy()
        self.havoc(s, vs, flds | self.callflds(calls))
        after = s.copy()
        out = []
        cs = [s]
        if x.get("k") == "while" and x.get("c") is not None:
            cs = [a for a, b in self.cond(x["c"], s) if b] or [s]
        for a in cs:
            for b, fl in self.block(x.get("body"), [a]):
                if fl is not None and fl[0] == "ret":
                    out.append((b, fl))
        out.append((after, None))
        return self.merge(out)

    # ---- OpenMP
    def omp(self, x, st):
        d = x.get("dir", "")
        body = x.get("body")
        if d in ("critical", "atomic"):
            old = self.prot
            self.prot = d
            try:
                return self.stmt(body, st)
            finally:
                self.prot = old
        if d in ("barrier", "flush", "taskwait"):
            return [(st, None)]
        if self.region is not None and d in ("parallel for", "parallel"):
            # nested team: the outer region already covers the accesses
            return self.stmt(body, st)
        if d in ("parallel for", "for", "parallel for simd", "for simd"):
            R = self.newregion(x, st)
            self.region = R
            try:
                b = body
                while b.get("k") == "block" and len(b["s"]) == 1:
                    b = b["s"][0]
                if b.get("k") != "for":
                    R.notes.append(("unsupported", x.get("ln"), "parallel for without a canonical loop"))
                    return self.stmt(b, st)
                r = self.forloop(b, st, par=R)
            finally:
                R.uid1 = self.uid
                self.region = None
            return r
        if d.startswith("parallel"):
            R = self.newregion(x, st)
            R.tid = self.fresh("tid")
            self.region = R
            try:
                vs, flds, calls = self.modified(body)
                s = st.copy()
                self.havoc(s, vs, flds)
                self.stmt(body, s)
            finally:
                R.uid1 = self.uid
                self.region = None
            self.havoc(st, vs, flds)
            return [(st, None)]
        return self.stmt(body, st)

    def newregion(self, x, st):
        th = None
        priv = set()
        for c in x.get("clauses", []):
            kd = c.get("kind", "")
            if kd == "num_threads":
                r = self.ev(c["args"][0], st.copy())
                th = r[0][1] if r and isinstance(r[0][1], Poly) else None
            elif kd in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                for a in c.get("args", []):
                    for n in walk(a):
                        if n.get("k") == "ref":
                            priv.add(n["id"])
        R = Region(x, self.stack[-1]["f"], self.uid, th)
        R.cls = self.stack[-1].get("cls")
        R.privates |= priv
        R.conds = dict(st.conds)
        self.regions.append(R)
        return R

    # ------------------------------------------------------------ entry
    def function(self, f, dyn=None, pre=None):
        st = State()
        self.stack = [{"f": f, "this": ("P", ("this",), P(0)), "dyn": dyn, "cls": f.get("cls")}]
        for i, p in enumerate(f["params"]):
            t = p["t"]
            if isref(t):
                st.env[p["id"]] = ("R", ("m", ("param", p["n"] or str(i)), P(0), t.replace("&", "").replace("const ", "").strip()))
            elif isptr(t) or "(*)" in t:
                st.env[p["id"]] = ("P", ("param", p["n"] or str(i)), P(0))
            elif isint(t):
                st.env[p["id"]] = Poly.sym(self.base(p["n"] or str(i), t))
            elif t.startswith(("fftwpp::", "utils::", "std::", "Array::")) and t not in SIZES:
                st.env[p["id"]] = ("A", ("param", p["n"] or str(i)))
            else:
                st.env[p["id"]] = ("T", t)
        if pre:
            pre(self, st, f)
        res = self.block(f["body"], [st])
        return res


def addf(fs, p):
    if p.isconst() or p in fs:
        return fs
    return fs + (p,)


def hv(v):
    return v


def ltype(l, t):
    if l[0] == "m" and len(l) > 3 and l[3]:
        return l[3] if not t else t
    return t or "?"


def splitargs(a):
    out, d, cur = [], 0, ""
    for ch in a:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        if ch in "(<":
            d += 1
        if ch in ")>":
            d -= 1
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def rname(root, off=None):
    k = root[0]
    o = "" if off is None or off == P(0) else "[%r]" % off
    if k == "this":
        return "this"
    if k == "sub":
        return "%s.%s" % (rname(root[1], root[2]), root[3]) + o
    if k == "ld":
        return "*%s" % rname(root[1], root[2]) + o
    if k in ("param", "global", "local", "var"):
        return str(root[1]).split("#")[0] + o
    return str(root[0]) + o


_leafc = {}


def leaf(f):
    """function of references/values to Complex/vector/double without loops,
    pointer parameters or calls outside the arithmetic types"""
    i = f["id"]
    if i in _leafc:
        return _leafc[i]
    ok = not f.get("cls") and all(not isptr(p["t"]) and not isint(p["t"]) and
                                  any(x in p["t"] for x in ("Complex", "Vec", "double", "vector_size"))
                                  for p in f["params"]) and \
        all(not isref(p["t"]) or p["t"].startswith("const ") for p in f["params"]) and len(f["params"]) > 0
    if ok:
        for n in walk(f["body"]):
            if n.get("k") in ("for", "while", "do", "omp") or (n.get("k") == "ref" and n.get("vk") == "slocal"):
                ok = False
                break
            if n.get("k") == "asg" and strip(n["l"]).get("k") == "ref" and strip(n["l"]).get("vk") == "global":
                ok = False
                break
    _leafc[i] = ok
    return ok


def inlinable(f, A):
    n = f.get("_nn")
    if n is None:
        n = 0
        f["_loops"] = False
        for x in walk(f["body"]):
            n += 1
            if x.get("k") in ("omp", "while", "do"):
                f["_loops"] = True
        f["_nn"] = n
    if f["kind"] in ("ctor", "dtor"):
        return False
    return n < 900 and not f["_loops"]


class _Signed:
    def __contains__(self, s):
        return isinstance(s, tuple) and len(s) > 0 and s[0] == "s"


SIGNED = _Signed()
