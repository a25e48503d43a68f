"""The distributed transpose: every process of a communicator is interpreted over symbolic block sizes, and the resulting
exchanges are played against each other.

The shape of the distribution (number of processes, last process holding rows, last holding columns, whether the last block
is full, block divisor, kind of exchange) is the context; the block sizes n0, np, m0, mp and L stay symbolic.  The contents
of an array are the blocks (P,Q) of the matrix it holds (rows of process P, columns of process Q) with their base offset and
the distance of their rows, both polynomials in bytes."""
from fractions import Fraction
from . import sched
from .poly import Poly
from .repo import strip
from .sched import Machine, NULL, Unknown, Bad, Exit, num, sym

CLS = "utils::mpitranspose<Complex>"
Z = 16


class Wait(Exception):
    """the colours of a split are not all known yet"""


class Ctx:
    def __init__(self, **k):
        self.nlast, self.mlast, self.fulln, self.fullm = 1, 1, True, True
        self.extra, self.a, self.alltoall, self.inplace, self.work, self.blocking = 0, 1, 0, True, False, True
        self.overlap = True
        self.fine = False
        self.form = 0          # 0: block length and work array, 1: block length, 2: work array, blocks of one word
        for x, v in k.items():
            assert hasattr(self, x), x
            setattr(self, x, v)
        self.size = max(self.nlast, self.mlast) + 1
        self.total = self.size + self.extra
        n0, m0, L = sym("n0"), sym("m0"), sym("L") if self.form < 2 else num(1)
        self.np = n0 if self.fulln else sym("np")
        self.mp = m0 if self.fullm else sym("mp")
        # a distribution that leaves processes empty exists for few sizes only; blocks are then followed row by row
        self.feasible = True
        if self.nlast + 1 < self.total or self.fine:
            v = pick(self.nlast, self.fulln, self.total)
            self.feasible = v is not None
            n0, self.np = [num(x) for x in v or (1, 1)]
            self.fine = True
        if self.mlast + 1 < self.total:
            v = pick(self.mlast, self.fullm, self.total)
            self.feasible &= v is not None
            m0, self.mp = [num(x) for x in v or (1, 1)]
        self.n0, self.m0, self.L = n0, m0, L
        self.N = n0 * num(self.nlast) + self.np
        self.M = m0 * num(self.mlast) + self.mp
        self.mapping = {}
        self.signs = {}
        if not self.fulln and not n0.isconst():
            self.mapping[("n0",)] = Poly({((("np",), 1),): 1, ((("dn",), 1),): 1})
        if not self.fullm and not m0.isconst():
            self.mapping[("m0",)] = Poly({((("mp",), 1),): 1, ((("dm",), 1),): 1})

    def rows(self, P):
        return self.n0 if P < self.nlast else self.np if P == self.nlast else num(0)

    def cols(self, Q):
        return self.m0 if Q < self.mlast else self.mp if Q == self.mlast else num(0)

    def sign(self, d):
        r = self.signs.get(d, 0)
        if r == 0:
            r = self.signs[d] = self.sign_(d)
        return r

    def sign_(self, d):
        if not d.t:
            return "0"
        # a factor common to all terms is at least one
        while True:
            ms = list(d.t)
            k = next((s for s, _ in ms[0] if s[0] not in ("off", "it") and all(any(x == s for x, _ in m) for m in ms)), None)
            if k is None:
                break
            d = d.divexact(Poly({((k, 1),): 1}))
        d = Poly({m: int(v) for m, v in d.t.items()})
        if all(c > 0 for c in d.t.values()) or all(c < 0 for c in d.t.values()):
            return sched.sign(d)
        if self.mapping:
            d = d.subst(self.mapping)
            if not d.t or all(c > 0 for c in d.t.values()) or all(c < 0 for c in d.t.values()):
                return sched.sign(d)
        # every symbol is at least one
        d = d.subst({s: Poly({((("off",) + s, 1),): 1, (): 1}) for s in d.syms() if s[0] not in ("off", "it")})
        return sched.sign(d)

    def ge(self, a, b):
        return self.sign(a - b) in ("+", "0", ">=")

    def gt(self, a, b):
        return self.sign(a - b) == "+"

    def text(self):
        t = "%d process%s" % (self.total, "es" if self.total > 1 else "")
        t += ", rows on %d%s, columns on %d%s" % (self.nlast + 1, "" if self.fulln else " (last block smaller)",
                                                  self.mlast + 1, "" if self.fullm else " (last block smaller)")
        t += ", a=%d, alltoall=%d, %s place" % (self.a, self.alltoall, "in" if self.inplace else "out of")
        if self.work:
            t += ", caller gives the work array"
        if not self.overlap:
            t += ", no overlap"
        if self.form:
            t += ", constructor without " + ("work array" if self.form == 1 else "block length")
        return t


def pick(last, full, total):
    """the largest block sizes (at most 3) for which exactly last+1 of the processes hold something"""
    for n0 in (3, 2, 1):
        for np in range(n0, n0 + 1) if full else range(n0 - 1, 0, -1):
            if -(-(last * n0 + np) // total) == n0:
                return n0, np
    return None


class TMachine(Machine):
    steplimit = 400000

    def choose(self, key):
        raise Unknown("undecided condition")

    def truth(self, v):
        if isinstance(v, Poly):
            s = self.model.c.sign(v)
            if s == "0":
                return False
            if s in ("+", "-"):
                return True
            raise Unknown("condition")
        if isinstance(v, tuple) and v[0] in ("comm", "lvaddr"):
            return True
        if isinstance(v, tuple) and v[0] == "undef":
            raise Bad("unset", "the member %s is tested before it is set" % v[1])
        return Machine.truth(self, v)

    def rel(self, op, a, b):
        c = self.model.c
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            s = c.sign(d)
            t = {"<": {"-": True, "0": False, "+": False, ">=": False},
                 ">": {"+": True, "0": False, "-": False, "<=": False},
                 "<=": {"-": True, "0": True, "<=": True, "+": False},
                 ">=": {"+": True, "0": True, ">=": True, "-": False},
                 "==": {"0": True, "+": False, "-": False},
                 "!=": {"0": False, "+": True, "-": True}}[op].get(s)
            if t is not None:
                return t
            # at least as many rows and columns as processes
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                if x.isconst() and x.cval() <= c.total and y in (c.N, c.M):
                    if o == "<=":
                        return True
                    if o == ">":
                        return False
            raise Unknown("undecided comparison")
        if op in ("<", ">", "<=", ">=") and any(isinstance(x, tuple) and x[0] == "opaque" for x in (a, b)):
            return True           # measured times: the timing loop ends, the last candidate is the best
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == "undef":
                raise Bad("unset", "the member %s is compared before it is set" % x[1])
        return Machine.rel(self, op, a, b)

    def asnum(self, v):
        if isinstance(v, tuple) and v and v[0] == "undef":
            raise Bad("unset", "the member %s is used before it is set" % v[1])
        return Machine.asnum(self, v)

    def model_lt(self, n, i):
        return n is not None and self.model.c.ge(num(i), num(n))

    def elem(self, b, i):
        if isinstance(b, tuple) and b[0] == "lvaddr" and not i.t:
            return b[1]
        if isinstance(b, tuple) and b[0] == "undef":
            raise Bad("unset", "the pointer %s is used before it is set" % b[1])
        return Machine.elem(self, b, i)

    def e_sizeof(self, e):
        if e.get("v") is None:
            raise Unknown("sizeof")
        return num(int(e["v"]))

    def e_un(self, e):
        if e["op"] == "&":
            l = self.lv(e["e"])
            if l[0] == "glob":
                return ("opaque", "&" + str(l[1]))
            if l[0] == "data":
                return ("ptr", l[1], l[2], l[3])
            if l[0] == "elem":
                return ("arr", l[1], l[2])
            if l[0] == "deref":
                return l[1]
            if l[0] in ("var", "fld"):
                return ("lvaddr", l)
            raise Unknown("address")
        return Machine.e_un(self, e)

    def e_cast(self, e):
        v = self.ev(e["e"])
        t = e.get("t", "").replace("const", "").replace(" ", "")
        ck = e.get("ck", "")
        if ck in ("PointerToBoolean", "IntegralToBoolean"):
            return self.truth(v)
        if ck == "NullToPointer":
            return NULL
        if isinstance(v, bool) and t in ("int", "unsignedint", "unsignedlong", "size_t", "long"):
            return num(int(v))
        if isinstance(v, tuple) and v[0] == "ptr" and t.endswith("*"):
            u = {"Complex*": Z, "char*": 1, "unsignedchar*": 1, "double*": 8, "std::byte*": 1}.get(t)
            return v if u is None else ("ptr", v[1], v[2], u)
        if isinstance(v, Poly) and t.endswith("*") and not v.t:
            return NULL
        return v

    e_icast = e_cast

    def arith(self, op, a, b):
        if op in ("+", "-") and isinstance(a, tuple) and a[0] in ("ptr",) and isinstance(b, tuple) and b[0] == "ptr" and op == "-":
            raise Unknown("pointer difference")
        if op in ("/", "%") and isinstance(a, Poly) and isinstance(b, Poly):
            c = self.model.c
            if not b.t:
                raise Bad("zero", "division by zero")
            if a.isconst() and b.isconst():
                x, y = int(a.cval()), int(b.cval())
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return num(q if op == "/" else x - q * y)
            if b.isconst() and not int(b.cval()):
                raise Bad("zero", "division by zero")
            if op == "/" and not (b.isconst() and all(int(v) % int(b.cval()) == 0 for v in a.t.values())):
                return Poly.sym(("quot", a, b))
            if b.isconst():
                k = int(b.cval())
                if all(int(v) % k == 0 for v in a.t.values()):
                    return num(0) if op == "%" else Poly({m: v // k for m, v in a.t.items()})
                if op == "%" and k == c.size and a in (c.N, c.M):
                    last, full = (c.nlast, c.fulln) if a == c.N else (c.mlast, c.fullm)
                    if last + 1 == k and full:
                        return num(0)
                    return sym("rem", a, k)
            raise Unknown("division")
        if any(isinstance(x, tuple) and x[0] == "opaque" for x in (a, b)) and op in "+-*/":
            return ("opaque", "number")
        return Machine.arith(self, op, a, b)

    def e_bin(self, e):
        if e["op"] == "/" and e.get("t") == "double":
            self.ev(e["l"])
            self.ev(e["r"])
            return ("opaque", "number")
        return Machine.e_bin(self, e)

    def decl(self, d):
        t = d.get("t", "")
        if d.get("k") in (None, "var") and not d.get("vla") and t.rstrip().endswith("&"):
            return Machine.decl(self, d)
        i = d.get("init")
        if d.get("k") == "var" and i is not None and i.get("k") == "initlist" and t.rstrip().endswith("]"):
            vs = [self.ev(x) for x in i["args"]]
            self.env[d["id"]] = ["var", self.newarr(num(len(vs)), "local", dict(enumerate(vs)))]
            return
        return Machine.decl(self, d)

    def e_new(self, e):
        if e.get("array"):
            n = self.asnum(self.ev(e["size"]))
            t = e.get("t", "").replace("const", "").strip()
            if "Complex" in t and "*" not in t.split("Complex")[-1]:
                return self.model.region("new", n * num(Z), "self")
            if n.isconst() and n.cval() < 0:
                raise Bad("range", "an array of %s elements is allocated" % n)
            return self.newarr(n, "new")
        return Machine.e_new(self, e)


class Piece:
    __slots__ = ("P", "Q", "base", "ci", "maybe")

    def __init__(self, P, Q, base, ci, maybe=False):
        self.P, self.Q, self.base, self.ci, self.maybe = P, Q, base, ci, maybe


class Model:
    """the view of one process: records what it does"""
    embedded = {}

    def __init__(self, c, rank, splits):
        self.c, self.rank, self.splits = c, rank, splits
        self.ops = []
        self.reg = {}
        self.nsplit = {}
        self.freed, self.made = set(), {}
        self.obj = None
        self.nreg = 0

    def whole(self, o):
        return o == self.obj

    def field(self, o, f):
        if o == self.obj and f not in self.m.heap[o]:
            if f in ("allowOverlap",):
                return None
            return ("undef", f)
        return None

    def setfield(self, o, f, v):
        return False

    def region(self, name, size, owner):
        self.nreg += 1
        g = (name, self.nreg)
        self.reg[g] = dict(size=size, owner=owner, freed=False)
        return ("ptr", g, num(0), Z)

    def op(self, kind, *a):
        self.ops.append((kind, self.m.fn, self.m.trace[-1][1] if self.m.trace else 0) + a)

    # ---- data
    def family(self, l):
        """(region, offset, [(count, stride)]) of an access inside the running loops"""
        off = l[2]
        out = []
        for it, cnt in self.m.loops:
            (s, _), = list(it.t)[0]
            if off.degree(s) > 1:
                raise Unknown("offset of a copy")
            k = off.coeff(s)
            off = off - k * it
            out.append((cnt, k))
        return l[1], off, out

    def datastore(self, l, v):
        if not (isinstance(v, tuple) and v[0] == "val"):
            raise Unknown("value stored in an array")
        if l[3] != v[3]:
            raise Unknown("types of a copy")
        self.copy(l, v, num(l[3]))

    def copy(self, l, v, ln):
        dr, do, dk = self.family(l)
        sr, so, sk = self.family(("data", v[1], v[2], v[3]))
        ks = [[c, d, s] for (c, d), (_, s) in zip(dk, sk) if d.t or s.t]
        # runs
        go = True
        while go:
            go = False
            for k in ks:
                if k[1] == ln and k[2] == ln:
                    ln = ln * k[0]
                    ks.remove(k)
                    go = True
                    break
        self.op("move", dr, do, sr, so, ln, tuple(tuple(k) for k in ks))

    def dataop(self, l, op, r):
        raise Unknown("arithmetic on array data")

    # ---- calls
    def addrstore(self, a, v):
        if isinstance(a, tuple) and a[0] == "lvaddr":
            self.m.store(a[1], v)
        elif isinstance(a, tuple) and a[0] == "arr":
            self.m.store(("elem", a[1], a[2]), v)
        else:
            raise Unknown("result address")

    def places(self, a, n):
        """the lvalues of n numbers at an address"""
        m = self.m
        if isinstance(a, tuple) and a[0] == "lvaddr":
            v = a[1][1][1] if a[1][0] == "var" else None
            if isinstance(v, tuple) and v[0] == "arr":
                a = v
            elif n == 1:
                return [a[1]]
        if isinstance(a, tuple) and a[0] == "arr":
            return [("elem", a[1], a[2] + num(i)) for i in range(n)]
        raise Unknown("address")

    def slot(self, a):
        m = self.m
        if isinstance(a, tuple) and a[0] == "undef":
            raise Bad("unset", "the request array %s is used before it is set" % a[1])
        if isinstance(a, tuple) and a[0] == "arr":
            arr = m.arrays[a[1]]
            if arr["freed"]:
                raise Bad("freed", "a request array is used after it was deleted")
            i = m.concrete(a[2], "request")
            if i < 0 or m.model_lt(arr["n"], i):
                raise Bad("range", "request %d of an array of %s is used" % (i, arr["n"]))
            return (a[1], i)
        if isinstance(a, tuple) and a[0] == "lvaddr":
            return ("lv", id(a[1][1]) if a[1][0] == "var" else a[1][1:])
        raise Unknown("request")

    def comm(self, v):
        if isinstance(v, tuple) and v[0] == "comm":
            if v[1] in self.freed:
                raise Bad("comm", "a communicator is used after it was freed")
            return v
        if isinstance(v, tuple) and v[0] == "undef":
            raise Bad("unset", "the communicator %s is used before it is set" % v[1])
        raise Unknown("communicator")

    def buf(self, v):
        if isinstance(v, tuple) and v[0] == "ptr":
            return v[1], v[2]
        if v == NULL:
            raise Bad("null", "a null buffer is exchanged")
        raise Unknown("buffer")

    def bytes(self, t):
        if isinstance(t, tuple) and t[0] == "opaque":
            for k, n in (("mpi_byte", 1), ("mpi_char", 1), ("mpi_double", 8), ("c_double_complex", 16)):
                if t[1].endswith(k):
                    return num(n)
        raise Unknown("datatype")

    def call(self, m, e, name, obj):
        base = name.split("::")[-1]
        if base.startswith("MPI_"):
            m.trace.append((m.fn, e.get("ln")))
            return self.mpi(base, [m.ev(a) for a in e["args"]])
        if base in ("newAlign", "deleteAlign", "max", "min", "ceilquotient", "memcpy", "memmove", "copy_n", "transpose",
                    "exit", "ArrayExit", "free", "fill", "copy", "swap"):
            m.trace.append((m.fn, e.get("ln")))
        if base == "newAlign":
            l = m.lv(e["args"][0])
            n = m.asnum(m.ev(e["args"][1]))
            m.store(l, self.region("own", n * num(Z), "self"))
            return "void"
        if base in ("deleteAlign", "free") and e.get("obj") is None:
            self.free(m.ev(e["args"][0]))
            return "void"
        if base in ("max", "min") and len(e["args"]) == 2:
            a, b = [m.asnum(m.ev(x)) for x in e["args"]]
            if self.c.ge(a, b):
                return a if base == "max" else b
            if self.c.ge(b, a):
                return b if base == "max" else a
            return sym(base, a, b)
        if base == "ceilquotient" and len(e["args"]) == 2:
            a, b = [m.asnum(m.ev(x)) for x in e["args"]]
            return self.ceil(a, b)
        if base in ("memcpy", "memmove"):
            d, s, n = [m.ev(x) for x in e["args"]]
            (dr, do), (sr, so) = self.buf(d), self.buf(s)
            self.copyrun(dr, do, sr, so, m.asnum(n))
            return "void"
        if base in ("copy", "copy_n") and name.startswith("std::"):
            x, y, z = [m.ev(a) for a in e["args"]]
            if base == "copy_n":
                n = m.asnum(y) * num(x[3])
            else:
                if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "ptr" and x[1] == y[1]):
                    raise Unknown("std::copy")
                n = y[2] - x[2]
            (dr, do), (sr, so) = self.buf(z), self.buf(x)
            self.copyrun(dr, do, sr, so, n)
            return "void"
        if base == "transpose" and isinstance(obj, tuple) and obj[0] == "undef":
            raise Bad("unset", "the local transpose %s is used before it is set" % obj[1])
        if base == "transpose" and obj == NULL:
            raise Bad("null", "a local transpose that was not made is used")
        if base == "transpose" and isinstance(obj, tuple) and obj[0] == "obj" and m.cls[obj] == "fftwpp::Transpose":
            a = [m.ev(x) for x in e["args"]]
            if len(a) < 2 or a[1] == NULL:
                a = [a[0], a[0]]
            h = m.heap[obj]
            if h.get("freed"):
                raise Bad("freed", "a local transpose is used after it was deleted")
            if not (h["rows"].t and h["cols"].t):
                return "void"
            (sr, so), (dr, do) = self.buf(a[0]), self.buf(a[1])
            same = sr == dr and so == do
            if same != h["inplace"]:
                raise Bad("inplace", "a local transpose planned %s place is used %s place" %
                          (("in", "out of") if h["inplace"] else ("out of", "in")))
            self.op("trans", h["rows"], h["cols"], h["len"] * num(Z), sr, so, dr, do)
            return "void"
        if base in ("exit", "ArrayExit"):
            raise Bad("exit", "the transpose gives up")
        if base in ("operator=",) and isinstance(obj, tuple) and obj[0] in ("dataref", "val"):
            l = obj[1] if obj[0] == "dataref" else ("data",) + obj[1:]
            self.datastore(l, m.ev(e["args"][0]))
            return "void"
        if base == "seconds":
            return ("opaque", "number")
        if base in ("operator<<", "endl"):
            return ("opaque", "stream")
        return None

    def copyrun(self, dr, do, sr, so, n):
        dr, do, dk = self.family(("data", dr, do, 1))
        sr, so, sk = self.family(("data", sr, so, 1))
        ln = n
        ks = [[c, d, s] for (c, d), (_, s) in zip(dk, sk) if d.t or s.t]
        for k in list(ks):
            if k[1] == ln and k[2] == ln:
                ln = ln * k[0]
                ks.remove(k)
        self.op("move", dr, do, sr, so, ln, tuple(tuple(k) for k in ks))

    def ceil(self, a, b):
        c = self.c
        if a.isconst() and b.isconst():
            return num(-(-int(a.cval()) // int(b.cval())))
        for X, x0, last in ((c.N, c.n0, c.nlast), (c.M, c.m0, c.mlast)):
            if a == X and b == x0:
                return num(last + 1)
            if a == X and b.isconst() and int(b.cval()) == c.total:
                return x0
        # N and M may be the same polynomial only up to their symbols
        raise Unknown("ceilquotient")

    def external(self, e, name, obj, args):
        b = name.split("::")[-1]
        if b.startswith("operator") or "ostream" in name:
            return ("opaque", name)
        for a in list(args) + [obj]:
            if isinstance(a, tuple) and a and a[0] in ("ptr", "arr", "lvaddr", "comm"):
                raise Unknown("external function %s" % name)
        return ("opaque", name)

    def construct(self, cls, args, e):
        m = self.m
        if cls == "fftwpp::Transpose":
            if len(args) < 4:
                raise Unknown("local transpose")
            o = m.newobj(cls)
            i, out = args[3], args[4] if len(args) > 4 else NULL
            if out == NULL:
                out = i
            m.heap[o].update(rows=m.asnum(args[0]), cols=m.asnum(args[1]), len=m.asnum(args[2]),
                             inplace=self.buf(i) == self.buf(out), freed=False)
            return o
        if cls.endswith("stopWatch"):
            return m.newobj(cls)
        if cls == "utils::mpiOptions" and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "obj":
            o = m.newobj(cls)
            m.heap[o].update(m.heap[args[0]])
            return o
        return None

    def delete(self, v, array):
        m = self.m
        if v == NULL:
            return
        if isinstance(v, tuple) and v[0] == "undef":
            raise Bad("unset", "the member %s is deleted before it is set" % v[1])
        if isinstance(v, tuple) and v[0] == "arr":
            a = m.arrays[v[1]]
            if a["freed"]:
                raise Bad("double-free", "an array is deleted twice")
            a["freed"] = True
            self.op("gone", v[1])
            return
        if isinstance(v, tuple) and v[0] == "obj":
            if m.heap[v].get("freed"):
                raise Bad("double-free", "an object is deleted twice")
            m.heap[v]["freed"] = True
            return
        if isinstance(v, tuple) and v[0] == "ptr":
            return self.free(v)
        raise Unknown("delete")

    def free(self, v):
        if v == NULL:
            return
        if isinstance(v, tuple) and v[0] == "undef":
            raise Bad("unset", "the array %s is released before it is set" % v[1])
        if not (isinstance(v, tuple) and v[0] == "ptr"):
            raise Unknown("free")
        r = self.reg[v[1]]
        if r["owner"] == "caller":
            raise Bad("caller-freed", "an array given by the caller is released")
        if r["freed"]:
            raise Bad("double-free", "an array is released twice")
        r["freed"] = True
        self.op("free", v[1])

    def ptrcall(self, v, args, e):
        raise Unknown("call through a pointer")

    mpcall = ptrcall

    # ---- MPI
    def mpi(self, f, a):
        m = self.m
        if f == "MPI_Comm_size":
            self.addrstore(a[1], num(len(self.comm(a[0])[2])))
        elif f == "MPI_Comm_rank":
            c = self.comm(a[0])
            self.addrstore(a[1], num(c[2].index(self.rank)))
        elif f == "MPI_Comm_split":
            c = self.comm(a[0])
            col = a[1]
            col = m.concrete(m.asnum(col), "colour")
            if col < 0:
                raise Bad("colour", "a communicator is split with the negative colour %d" % col)
            key = m.concrete(m.asnum(a[2]), "key")
            k = self.nsplit.get(c[1], 0)
            self.nsplit[c[1]] = k + 1
            self.op("coll", "split", c)
            t = self.splits.setdefault((c[1], k), {})
            t[self.rank] = (col, key)
            if len(t) < len(c[2]):
                raise Wait()
            mem = tuple(r for _, _, r in sorted((t[r][1], i, r) for i, r in enumerate(c[2]) if t[r][0] == col))
            self.made[(c[1], k, col)] = m.trace[-1]
            self.addrstore(a[3], ("comm", (c[1], k, col), mem))
        elif f == "MPI_Comm_free":
            l = a[0]
            if not (isinstance(l, tuple) and l[0] == "lvaddr"):
                raise Unknown("communicator")
            c = self.comm(m.load(l[1]))
            if c[1] == "world":
                raise Bad("comm", "the communicator of the caller is freed")
            self.op("coll", "free", c)
            self.freed.add(c[1])
        elif f == "MPI_Finalized":
            self.addrstore(a[0], num(0))
        elif f in ("MPI_Isend", "MPI_Irecv", "MPI_Send", "MPI_Recv"):
            r, o = self.buf(a[0])
            n = m.asnum(a[1]) * self.bytes(a[2])
            c = self.comm(a[5])
            p = m.concrete(m.asnum(a[3]), "peer")
            if not 0 <= p < len(c[2]):
                raise Bad("peer", "a message is exchanged with process %d of a communicator of %d" % (p, len(c[2])))
            tag = m.concrete(m.asnum(a[4]), "tag")
            kind = "send" if "send" in f.lower() else "recv"
            s = self.slot(a[6]) if f[4] == "I" else ("now", m.fresh())
            self.op(kind, s, r, o, n, c[2][p], tag, c)
            if f[4] != "I":
                self.op("wait", (s,))
        elif f in ("MPI_Ialltoall", "MPI_Alltoall"):
            inp = isinstance(a[0], Poly)
            s = None if inp else self.buf(a[0])
            r = self.buf(a[3])
            n, n2 = m.asnum(a[1]) * self.bytes(a[2]), m.asnum(a[4]) * self.bytes(a[5])
            c = self.comm(a[6])
            if not inp and n != n2:
                raise Unknown("counts of an all-to-all exchange")
            q = self.slot(a[7]) if f[4] == "I" else ("now", m.fresh())
            self.op("a2a", q, s, r, n2, c)
            if f[4] != "I":
                self.op("wait", (q,))
        elif f == "MPI_Waitall":
            n = m.concrete(m.asnum(a[0]), "number of requests")
            if n < 0:
                raise Bad("range", "%d requests are waited for" % n)
            if n:
                if not (isinstance(a[1], tuple) and a[1][0] == "arr"):
                    raise Bad("unset", "the request array is used before it is set") if a[1] != NULL and a[1][0] == "undef" else Unknown("requests")
                self.op("wait", tuple(self.slot(("arr", a[1][1], a[1][2] + num(i))) for i in range(n)))
        elif f == "MPI_Wait":
            self.op("wait", (self.slot(a[0]),))
        elif f in ("MPI_Barrier",):
            self.op("coll", "barrier", self.comm(a[0]))
        elif f == "MPI_Bcast":
            c = self.comm(a[4])
            self.op("coll", "bcast", c)
            root = m.concrete(m.asnum(a[3]), "root")
            if not 0 <= root < len(c[2]):
                raise Bad("peer", "process %d of a communicator of %d broadcasts" % (root, len(c[2])))
            k = self.nsplit.get(("bcast", c[1]), 0)
            self.nsplit[("bcast", c[1])] = k + 1
            ls = self.places(a[0], m.concrete(m.asnum(a[1]), "count"))
            key = ("bcast", c[1], k)
            if c[2][root] == self.rank:
                for l in ls:
                    if l[0] == "var" and l[1][1] is None:
                        raise Bad("unset", "process %d broadcasts a value that was never set" % self.rank)
                self.splits[key] = [m.load(l) for l in ls]
            elif key not in self.splits:
                raise Wait()
            else:
                v = self.splits[key]
                if len(v) != len(ls):
                    raise Bad("count", "processes broadcast %d values and receive %d" % (len(v), len(ls)))
                for l, x in zip(ls, v):
                    m.store(l, x)
        else:
            raise Unknown(f)
        return num(0)


class Recorder(Model):
    """also notes requests set to MPI_REQUEST_NULL"""


def rankops(prog, ctx, rank, splits):
    mod = Recorder(ctx, rank, splits)
    m = TMachine(prog, mod)
    st = m.store

    def store(l, v):
        st(l, v)
        if l[0] == "elem" and isinstance(v, tuple) and v[0] == "opaque" and "request_null" in v[1]:
            mod.op("null", (l[1], m.concrete(l[2], "request")))
    m.store = store
    ld = m.load

    def load(l):
        if l[0] == "glob":
            if "allowOverlap" in str(l[1]):
                return ctx.overlap
            return ("opaque", str(l[1]))
        return ld(l)
    m.load = load
    try:
        drive(prog, ctx, rank, mod, m)
    except Bad as b:
        if not b.where:
            b.where = m.trace[-1] if m.trace else (m.fn, 0)
        b.ops = mod.ops
        raise
    return mod


def drive(prog, c, rank, mod, m):
    o = m.newobj(CLS)
    mod.obj = o
    world = ("comm", "world", tuple(range(c.total)))
    n, mm = c.rows(rank), c.cols(rank)
    S = size(c, rank)
    A = mod.region("in", S, "caller")
    B = A if c.inplace else mod.region("out", S, "caller")
    W = mod.region("work", S, "caller") if c.work else NULL
    opt = m.newobj("utils::mpiOptions")
    m.heap[opt].update(a=num(c.a), alltoall=num(c.alltoall), threads=num(1), verbose=num(0))
    f = None
    for g in prog.byname.get(CLS + "::<ctor>", []) + [x for x in prog.defs() if x.get("cls") == CLS and x["kind"] == "ctor"]:
        if [q["n"] for q in g["params"]] and len(g["params"]) == (10, 9, 9)[c.form] and g.get("body") is not None and \
                (g["params"][4]["t"].endswith("*")) == (c.form == 2):
            f = g
    if f is None:
        raise Unknown("no constructor")
    m.call(f, [c.N, c.M, n, mm] + ([] if c.form == 2 else [c.L]) + [A] + ([] if c.form == 1 else [W]) + [world, opt, world], o)
    meth = {}
    for g in prog.defs():
        if g.get("cls") == CLS and g.get("body") is not None:
            meth.setdefault(g["base"], g)

    def do(name, *a):
        if name not in meth:
            raise Unknown("no %s" % name)
        m.call(meth[name], list(a), o)
    for turn in range(2):
        if turn == 1:
            # further arrays than the one given to the constructor
            A = mod.region("in", S, "caller")
            B = A if c.inplace else mod.region("out", S, "caller")
        mod.op("mark", "fill", A[1], None)
        for way, src, dst in ((0, A, B), (1, B, A)):
            arg = dst if not c.inplace else NULL
            mod.op("mark", "begin%d" % way, src[1], dst[1])
            if turn == 0 and c.blocking:
                do("localize%d" % way, src, arg)
            else:
                do("ilocalize%d" % way, src, arg)
                if turn == 0:
                    do("wait")
                else:
                    do("wait0")
                    do("wait1")
            if turn:
                do("wait")        # nothing is left to wait for
            mod.op("mark", "end%d" % way, src[1], dst[1])
    for g in prog.defs():
        if g.get("cls") == CLS and g["kind"] == "dtor" and g.get("body") is not None:
            m.call(g, [], o)
    for g, r in mod.reg.items():
        if r["owner"] == "self" and not r["freed"] and r["size"].t:
            raise Bad("leak", "an array the transpose allocated is never released")
    for a in m.arrays.values():
        if a["kind"] == "new" and not a["freed"]:
            raise Bad("leak", "an array the transpose allocated with new is never deleted")
    for k, w in mod.made.items():
        if k not in mod.freed:
            raise Bad("comm", "a communicator made by a split is never freed", w)
    mod.op("mark", "done", None, None)


def size(c, rank):
    a, b = c.rows(rank) * c.M, c.N * c.cols(rank)
    if c.ge(a, b):
        x = a
    elif c.ge(b, a):
        x = b
    else:
        x = sym("max", a, b)
    return x * c.L * num(Z)


def beyond(c, end, cap):
    """end is definitely larger than the capacity"""
    alts = [cap]
    for s in list(cap.syms()):
        if s[0] == "max":
            alts = [x.subst({s: v}) for x in alts for v in s[1:3]]
    return all(c.gt(end, x) for x in alts)


# ---------------------------------------------------------------- playing the processes against each other
class Proc:
    def __init__(self, c, rank, mod):
        self.c, self.rank, self.ops, self.reg = c, rank, mod.ops, mod.reg
        self.pc = 0
        self.mem = {}           # region -> [Piece]
        self.frag = {}          # region -> {(P,Q): True}
        self.slots = {}         # slot -> None (never), "null", or pending operation
        self.fly = {}           # slot -> [(mode, region, offset, bytes)]
        self.expect = None


class World:
    def __init__(self, c, mods):
        self.c = c
        self.p = [Proc(c, r, m) for r, m in enumerate(mods)]
        self.sends, self.recvs = {}, {}
        self.colls = {}         # comm -> {rank: [kind...]}
        self.a2a = {}
        self.stats = dict(messages=0, exchanges=0, copies=0, transposes=0, waits=0, blocks=0, bounds=0)

    def extent(self, x):
        c = self.c
        row = c.cols(x.Q) * c.L * num(Z)
        return x.base, x.base + (self.count(x) - num(1)) * x.ci + row, row

    def count(self, x):
        return num(1) if self.c.fine else self.c.rows(x.P)

    def bad(self, p, op, rule, text):
        raise Bad(rule, text, (op[1], op[2]))

    # ---- pieces
    def relation(self, lo, hi, b, e):
        c = self.c
        if c.ge(b, lo) and c.ge(hi, e):
            return "in"
        if c.ge(lo, e) or c.ge(b, hi):
            return "out"
        return None

    def snapshot(self, p, reg, off, n):
        """the blocks inside a range, relative to its start, and those that straddle it"""
        got, frag = [], set(p.frag.get(reg, ()))
        for x in p.mem.get(reg, []):
            b, e, _ = self.extent(x)
            k = self.relation(off, off + n, b, e)
            if k == "in":
                got.append(Piece(x.P, x.Q, x.base - off, x.ci, x.maybe))
            elif k is None:
                frag.add((x.P, x.Q))
        return got, frag

    def kill(self, p, reg, off, n, rows=None):
        """a range is overwritten"""
        keep = []
        for x in p.mem.get(reg, []):
            b, e, row = self.extent(x)
            k = self.relation(off, off + n, b, e)
            if k == "out":
                keep.append(x)
            elif k == "in" and rows is None:
                pass
            elif rows and len(rows) == 1 and x.ci == rows[0][1] and self.c.ge(x.ci, rows[0][2]):
                # rows of the same pitch: compare within one row
                lo = rows[0][3]
                d = x.base - lo
                k2 = self.relation(num(0), rows[0][2], d, d + row)
                if k2 == "out":
                    keep.append(x)
                elif k2 is None:
                    x.maybe = True
                    keep.append(x)
            elif k is None or rows:
                x.maybe = True
                keep.append(x)
        p.mem[reg] = keep

    def put(self, p, reg, off, got, frag):
        l = p.mem.setdefault(reg, [])
        for x in got:
            l.append(Piece(x.P, x.Q, x.base + off, x.ci, x.maybe))
        if frag:
            p.frag[reg] = set(p.frag.get(reg, ())) | frag

    # ---- hazards
    def overlap(self, a, an, b, bn):
        c = self.c
        return c.gt(a + an, b) and c.gt(b + bn, a)

    def access(self, p, op, mode, reg, off, n):
        r = p.reg[reg]
        if r["freed"] is True and False:
            pass
        self.stats["bounds"] += 1
        if r["size"] is not None and beyond(self.c, off + n, r["size"]):
            self.bad(p, op, "bounds", "process %d %s an array beyond its end" % (p.rank, "reads" if mode == "r" else "writes"))
        if self.c.gt(num(0), off):
            self.bad(p, op, "bounds", "process %d %s an array before its start" % (p.rank, "reads" if mode == "r" else "writes"))
        for s, l in p.fly.items():
            for md, g, o, k in l:
                if g == reg and "w" in (md, mode) and self.overlap(off, n, o, k):
                    self.bad(p, op, "in-flight", "process %d %s data that an exchange not yet waited for is still %s" %
                             (p.rank, "reads" if mode == "r" else "overwrites", "receiving" if md == "w" else "sending"))

    # ---- operations
    def move(self, p, op):
        _, _, _, dr, do, sr, so, ln, ks = op
        if any(not k[0].t for k in ks) or not ln.t:
            return True
        ks = [k for k in ks]
        self.stats["copies"] += 1
        if len(ks) > 1:
            raise Unknown("copy with %d loops" % len(ks))
        if not ks:
            self.access(p, op, "r", sr, so, ln)
            self.access(p, op, "w", dr, do, ln)
            got, frag = self.snapshot(p, sr, so, ln)
            if (dr, do) == (sr, so):
                return True
            self.kill(p, dr, do, ln)
            self.put(p, dr, do, got, frag)
            return True
        cnt, ds, ss = ks[0]
        self.access(p, op, "r", sr, so, ln)
        self.access(p, op, "r", sr, so + (cnt - num(1)) * ss, ln)
        self.access(p, op, "w", dr, do, ln)
        self.access(p, op, "w", dr, do + (cnt - num(1)) * ds, ln)
        got, frag = [], set(p.frag.get(sr, ()))
        hull = (cnt - num(1)) * ss + ln
        for x in p.mem.get(sr, []):
            b, e, row = self.extent(x)
            if x.ci == ss and cnt == self.count(x):
                d = x.base - so
                k = self.relation(num(0), ln, d, d + row)
                if k == "in":
                    got.append(Piece(x.P, x.Q, d, ds, x.maybe))
                    continue
                if k == "out" and self.c.ge(ss, ln) and self.c.ge(d + ss, ln) and self.c.ge(d + row, num(0)):
                    continue
                if k == "out" and self.relation(so, so + hull, b, e) == "out":
                    continue
            elif self.relation(so, so + hull, b, e) == "out":
                continue
            frag.add((x.P, x.Q))
        self.kill(p, dr, do, (cnt - num(1)) * ds + ln, [(cnt, ds, ln, do)])
        self.put(p, dr, do, got, frag)
        return True

    def divmod(self, a, b):
        """a = q b + r with the terms of r not divisible by b"""
        if len(b.t) != 1:
            q = a.divpoly(b)
            if q is None:
                return None
            return q, num(0)
        (mb, cb), = b.t.items()
        q, r = num(0), num(0)
        for mt, ct in a.t.items():
            t = Poly({mt: 1}).divexact(Poly({mb: 1}))
            if t is None:
                r = r + Poly({mt: ct})
            else:
                k = Fraction(ct, cb).__floor__()
                q = q + t * num(k)
                r = r + Poly({mt: ct - cb * k})
        return q, r

    def trans(self, p, op):
        _, _, _, rows, cols, ln, sr, so, dr, do = op
        c = self.c
        if not (rows.t and cols.t and ln.t):
            return True
        self.stats["transposes"] += 1
        n = rows * cols * ln
        self.access(p, op, "r", sr, so, n)
        self.access(p, op, "w", dr, do, n)
        got, frag = [], set(p.frag.get(sr, ()))
        for x in p.mem.get(sr, []):
            b, e, row = self.extent(x)
            if self.relation(so, so + n, b, e) == "out":
                continue
            y = self.turned(x, b - so, row, rows, cols, ln)
            if y is None:
                frag.add((x.P, x.Q))
            else:
                got.append(y)
        self.kill(p, dr, do, n)
        self.put(p, dr, do, got, frag)
        return True

    def turned(self, x, d, row, rows, cols, ln):
        c = self.c
        dm = self.divmod(d, ln)
        if dm is None:
            return None
        q, inb = dm
        if not (c.ge(inb, num(0)) and c.ge(ln, inb + row)):
            return None
        cm = self.divmod(x.ci, ln)
        if cm is None or cm[1].t:
            return None
        pc = cm[0]
        rm = self.divmod(q, cols)
        if rm is None:
            return None
        r0, c0 = rm
        if not (c.ge(c0, num(0)) and c.gt(cols, c0)):
            return None
        pm = self.divmod(pc, cols)
        if pm is None:
            return None
        pr, pcl = pm
        last = self.count(x) - num(1)
        if not pcl.t:
            if not c.gt(rows, r0 + last * pr):
                return None
            ci = pr * ln
        elif not pr.t:
            if not c.gt(cols, c0 + last * pcl):
                return None
            ci = pcl * rows * ln
        else:
            return None
        return Piece(x.P, x.Q, (c0 * rows + r0) * ln + inb, ci, x.maybe)

    def start(self, p, op, slot):
        if isinstance(p.slots.get(slot), tuple):
            self.bad(p, op, "request", "process %d starts an exchange with a request that is still active" % p.rank)

    def send(self, p, op):
        _, _, _, slot, reg, off, n, peer, tag, comm = op
        self.start(p, op, slot)
        if n.t:
            self.access(p, op, "r", reg, off, n)
        got, frag = self.snapshot(p, reg, off, n) if n.t else ([], set())
        l = self.sends.setdefault((comm[1], p.rank, peer, tag), [])
        l.append((n, got, frag, op))
        p.slots[slot] = ("send", (comm[1], p.rank, peer, tag), len(l) - 1, op)
        p.fly[slot] = [("r", reg, off, n)]
        self.stats["messages"] += 1
        return True

    def recv(self, p, op):
        _, _, _, slot, reg, off, n, peer, tag, comm = op
        self.start(p, op, slot)
        if n.t:
            self.access(p, op, "w", reg, off, n)
        l = self.recvs.setdefault((comm[1], peer, p.rank, tag), [])
        l.append((n, op))
        p.slots[slot] = ("recv", (comm[1], peer, p.rank, tag), len(l) - 1, op)
        p.fly[slot] = [("w", reg, off, n)]
        return True

    def coll(self, p, op):
        return self.collective(p, op, op[3], op[4]) or True

    def collective(self, p, op, kind, comm):
        t = self.colls.setdefault(comm[1], {})
        l = t.setdefault(p.rank, [])
        k = len(l)
        l.append(kind)
        for r, o in t.items():
            if len(o) > k and o[k] != kind:
                self.bad(p, op, "collective", "process %d enters the collective operation %s while process %d of the same communicator enters %s" %
                         (p.rank, kind, r, o[k]))
        return k

    def a2a_(self, p, op):
        _, _, _, slot, s, r, n, comm = op
        self.start(p, op, slot)
        k = self.collective(p, op, "all-to-all", comm)
        tot = n * num(len(comm[2]))
        t = self.a2a.setdefault((comm[1], k), {})
        chunks = []
        src = s or r
        if s:
            self.access(p, op, "r", s[0], s[1], tot)
        self.access(p, op, "w", r[0], r[1], tot)
        if s and s[0] == r[0] and self.overlap(s[1], tot, r[1], tot):
            self.bad(p, op, "alias", "process %d exchanges overlapping send and receive buffers" % p.rank)
        for i in range(len(comm[2])):
            chunks.append(self.snapshot(p, src[0], src[1] + n * num(i), n))
        for q, o in t.items():
            if o[0] != n:
                if self.c.gt(o[0], n) or self.c.gt(n, o[0]):
                    self.bad(p, op, "count", "processes %d and %d enter an all-to-all exchange with different counts" % (q, p.rank))
                raise Unknown("counts")
        t[p.rank] = (n, chunks)
        p.slots[slot] = ("a2a", (comm[1], k), comm, op)
        p.fly[slot] = [("w", r[0], r[1], tot)] + ([("r", s[0], s[1], tot)] if s else [])
        self.stats["exchanges"] += 1
        return True

    def ready(self, p, x):
        if x[0] == "send":
            return len(self.recvs.get(x[1], [])) > x[2]
        if x[0] == "recv":
            return len(self.sends.get(x[1], [])) > x[2]
        return len(self.a2a[x[1]]) == len(x[2][2])

    def wait(self, p, op):
        slots = op[3]
        for s in slots:
            if s not in p.slots:
                self.bad(p, op, "request", "process %d waits for a request that was never started" % p.rank)
        pend = [(s, p.slots[s]) for s in slots if isinstance(p.slots[s], tuple)]
        for s, x in pend:
            if not self.ready(p, x):
                return False
        self.stats["waits"] += 1
        for s, x in pend:
            o = x[3]
            p.slots[s] = "null"
            p.fly.pop(s, None)
        for s, x in pend:
            o = x[3]
            if x[0] in ("send", "recv"):
                n, got, frag, so = self.sends[x[1]][x[2]]
                rn, ro = self.recvs[x[1]][x[2]]
                if n != rn:
                    if self.c.gt(n, rn):
                        self.bad(p, ro, "count", "process %d receives at most %s bytes from process %d, which sends %s" %
                                 (x[1][2], rn, x[1][1], n))
                    if not self.c.gt(rn, n):
                        raise Unknown("sizes of a message")
                if x[0] == "recv":
                    _, _, _, _, reg, off, k, _, _, _ = o
                    self.kill(p, reg, off, n)
                    self.put(p, reg, off, got, frag)
            else:
                _, _, _, _, s_, r, n, comm = o
                t = self.a2a[x[1]]
                me = comm[2].index(p.rank)
                self.kill(p, r[0], r[1], n * num(len(comm[2])))
                for i, q in enumerate(comm[2]):
                    got, frag = t[q][1][me]
                    self.put(p, r[0], r[1] + n * num(i), got, frag)
        return True

    def mark(self, p, op):
        _, fn, ln, what, src, dst = op
        c = self.c
        if what == "fill":
            p.mem = {src: self.layout(p.rank, 0)}
            p.frag = {}
        elif what.startswith("begin"):
            p.frag = {}
        elif what.startswith("end"):
            way = int(what[-1])
            for s, x in p.slots.items():
                if isinstance(x, tuple):
                    self.bad(p, x[3], "request", "process %d never waits for an exchange it started" % p.rank)
            self.final(p, op, way, dst, "localize%d" % way)
            if src != dst:
                self.final(p, op, 1 - way, src, None, way)
            # what follows starts from a correct matrix
        elif what == "done":
            pass
        return True

    def layout(self, rank, way):
        """the blocks of an n x M matrix (0) or of an N x m matrix (1)"""
        c = self.c
        out = []
        if c.fine:
            for x in self.layout_(rank, way):
                for i in range(int(c.rows(x.P).cval())):
                    out.append(Piece((x.P, i), x.Q, x.base + x.ci * num(i), num(0)))
            return out
        return self.layout_(rank, way)

    def layout_(self, rank, way):
        c = self.c
        out = []
        if way == 0:
            if c.rows(rank).t:
                for Q in range(c.mlast + 1):
                    out.append(Piece(rank, Q, c.m0 * num(Q) * c.L * num(Z), c.M * c.L * num(Z)))
        else:
            m = c.cols(rank)
            if m.t:
                for P in range(c.nlast + 1):
                    out.append(Piece(P, rank, c.n0 * num(P) * m * c.L * num(Z), m * c.L * num(Z)))
        return out

    def final(self, p, op, way, reg, name, preserved=None):
        c = self.c
        have = p.mem.get(reg, [])
        frag = p.frag.get(reg, ())
        self.undecided = False
        for w in self.layout(p.rank, 1 - way):
            self.stats["blocks"] += 1
            ok = [x for x in have if (x.P, x.Q) == (w.P, w.Q) and x.base == w.base and x.ci == w.ci]
            if any(not x.maybe for x in ok):
                continue
            if ok or (w.P, w.Q) in frag:
                raise Unknown("a block is assembled from parts")
            there = [x for x in have if x.base == w.base and not x.maybe]
            if name is None:
                raise Bad("input", "localize%d out of place does not preserve its input (%s on process %d)" %
                          (preserved, self.show(w), p.rank), (CLS + "::ilocalize%d" % preserved, 0))
            raise Bad("layout", "after %s process %d does not hold %s in its place%s" %
                      (name, p.rank, self.show(w), " (it holds %s there)" % self.show(there[0]) if there else ""),
                      (CLS + "::i" + name, 0))

    def show(self, x):
        if self.c.fine:
            return "row %d of process %d, columns of process %d," % (x.P[1], x.P[0], x.Q)
        return "the block of rows of process %d and columns of process %d" % (x.P, x.Q)

    def gone(self, p, op):
        for s, x in p.slots.items():
            if s[0] == op[3] and isinstance(x, tuple):
                self.bad(p, op, "request", "process %d deletes a request array with an exchange under way" % p.rank)
        return True

    def free(self, p, op):
        for s, l in p.fly.items():
            if any(g == op[3] for _, g, _, _ in l):
                self.bad(p, op, "in-flight", "process %d releases an array that an exchange still uses" % p.rank)
        return True

    def null(self, p, op):
        self.start(p, op, op[3])
        p.slots[op[3]] = "null"
        return True

    def step(self, p):
        op = p.ops[p.pc]
        h = {"move": self.move, "trans": self.trans, "send": self.send, "recv": self.recv, "coll": self.coll, "a2a": self.a2a_,
             "wait": self.wait, "mark": self.mark, "gone": self.gone, "free": self.free, "null": self.null}[op[0]]
        if not h(p, op):
            return False
        p.pc += 1
        return True

    def run(self):
        while True:
            moved = False
            for p in self.p:
                while p.pc < len(p.ops) and self.step(p):
                    moved = True
            left = [p for p in self.p if p.pc < len(p.ops)]
            if not left:
                break
            if not moved:
                p = left[0]
                op = p.ops[p.pc]
                x = next(x for x in (p.slots[s] for s in op[3]) if isinstance(x, tuple) and not self.ready(p, x))
                w = {"send": "for process %d to receive its message" % (x[1][2] if x[0] == "send" else 0),
                     "recv": "for a message from process %d" % (x[1][1] if x[0] == "recv" else 0),
                     "a2a": "for an all-to-all exchange some member does not enter"}[x[0]]
                self.bad(p, op, "deadlock", "process %d waits forever %s" % (p.rank, w))
        for k, l in self.sends.items():
            if len(l) != len(self.recvs.get(k, [])):
                self.bad(None, l[-1][3], "unmatched", "process %d sends a message process %d does not receive" % (k[1], k[2]))
        for k, l in self.recvs.items():
            if len(l) != len(self.sends.get(k, [])):
                self.bad(None, l[-1][1], "unmatched", "process %d expects a message process %d does not send" % (k[2], k[1]))
        for k, t in self.colls.items():
            ls = list(t.items())
            for r, l in ls[1:]:
                if l != ls[0][1]:
                    raise Bad("collective", "processes %d and %d do not enter the same collective operations (%s, %s)" %
                              (ls[0][0], r, ls[0][1], l), (CLS + "::init", 0))


def runctx(prog, c):
    """('ok', stats) | ('bad', Bad) | ('unknown', reason)"""
    s, d = runctx_(prog, c)
    if s == "unknown" and not c.fine and c.nlast + 1 == c.total:
        # the same distribution with few rows, followed one by one
        f = Ctx(fine=True, **{k: getattr(c, k) for k in FIELDS})
        if f.feasible:
            s2, d2 = runctx_(prog, f)
            if s2 == "bad":
                return s2, d2
    return s, d


FIELDS = ("nlast", "mlast", "fulln", "fullm", "extra", "a", "alltoall", "inplace", "work", "blocking", "overlap", "form")


def runctx_(prog, c):
    splits = {}
    mods = [None] * c.total
    fails = {}
    try:
        for it in range(20):
            for r in range(c.total):
                if mods[r] is None:
                    try:
                        mods[r] = rankops(prog, c, r, splits)
                    except Wait:
                        pass
            if all(mods):
                break
        else:
            return "bad", Bad("collective", "a split of a communicator is not entered by all of its processes", (CLS + "::init", 0))
        w = World(c, mods)
        w.run()
        return "ok", w.stats
    except Bad as b:
        return "bad", b
    except Unknown as u:
        return "unknown", str(u)
    except Exit:
        return "unknown", "exit"


def contexts(tier):
    top = 4 if tier == "quick" else 7
    out = []
    for nl in range(top):
        for ml in range(top):
            S = max(nl, ml) + 1
            if S == 1:
                continue
            for fn in (True, False) if nl else (True,):
                for fm in (True, False) if ml else (True,):
                    uni = nl == ml and fn and fm
                    for a in range(1, S):
                        for al in (0, 1, 2) if uni else (0, 1):
                            for ip in (True, False) if al != 2 else (True,):
                                out.append(Ctx(nlast=nl, mlast=ml, fulln=fn, fullm=fm, a=a, alltoall=al, inplace=ip, work=not ip))
    more = []
    if tier == "quick":
        for nl, ml in ((4, 4), (4, 3), (3, 4), (4, 2), (2, 4), (4, 1)):
            for al in (0, 1):
                for a in (1, 2):
                    more.append(Ctx(nlast=nl, mlast=ml, fulln=False, a=a, alltoall=al))
                    more.append(Ctx(nlast=nl, mlast=ml, fullm=False, a=a, alltoall=al))
                    more.append(Ctx(nlast=nl, mlast=ml, fulln=False, fullm=False, a=a, alltoall=al, inplace=False))
    for c in out:
        d = {k: getattr(c, k) for k in ("nlast", "mlast", "fulln", "fullm", "a", "alltoall", "inplace")}
        if c.a <= 2 and c.size <= 3 or c.a == 2 and c.nlast == c.mlast == 3 and (c.fulln or c.fullm):
            more.append(Ctx(extra=1, **d))
            more.append(Ctx(overlap=False, blocking=False, **d))
            more.append(Ctx(form=1, **d))
            more.append(Ctx(form=2, work=c.inplace, **d))
        if c.a <= 2 and c.size <= (3 if tier == "quick" else 5) and c.inplace and c.alltoall == 0:
            # the exchange kind is timed
            d["alltoall"] = -1
            more.append(Ctx(**d))
            more.append(Ctx(extra=1, **d))
    # larger grids
    for S, a in ((6, 2), (6, 3), (8, 4)) if tier == "quick" else ((6, 2), (6, 3), (8, 2), (8, 4), (9, 3), (12, 3)):
        for al in (0, 1, 2):
            more.append(Ctx(nlast=S - 1, mlast=S - 1, a=a, alltoall=al))
        for al in (0, 1):
            for ip in (True, False):
                more.append(Ctx(nlast=S - 1, mlast=S - 1, fulln=False, a=a, alltoall=al, inplace=ip))
                more.append(Ctx(nlast=S - 1, mlast=S - 1, fullm=False, a=a, alltoall=al, inplace=ip))
                more.append(Ctx(nlast=S, mlast=S - 1, a=a, alltoall=al, inplace=ip))
    return [c for c in out + more if c.feasible and not (c.form == 2 and c.m0.isconst())]


_P = _C = None


def _one(i):
    try:
        s, d = runctx(_P, _C[i])
    except RecursionError:
        return "unknown", "recursion"
    except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError) as e:
        import os
        if os.environ.get("TDEBUG"):
            raise
        return "unknown", "internal %s %s" % (type(e).__name__, str(e)[:80])
    if s == "bad":
        fn, ln = d.where if isinstance(d.where, tuple) else (None, 0)
        return s, (d.rule, d.text, fn, ln)
    return s, d


def sweep(p, cs):
    global _P, _C
    import multiprocessing as mp
    import sys
    sys.setrecursionlimit(20000)
    _P, _C = p, cs
    with mp.get_context("fork").Pool(8) as pool:
        return pool.map(_one, range(len(cs)), chunksize=4)
