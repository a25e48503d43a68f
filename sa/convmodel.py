"""The objects the convolution drivers work with: padded transforms, multipliers, work arrays, transposes."""
from fractions import Fraction
from .poly import Poly
from .repo import strip
from .sched import Machine, NULL, Unknown, Bad, Frac, Exit, num, sign, sym, divide

NAMES = {1: ("fft",), 2: ("fftx", "ffty"), 3: ("fftx", "ffty", "fftz")}
CLS = {(1, False): "fftwpp::Convolution", (2, False): "fftwpp::Convolution2", (3, False): "fftwpp::Convolution3",
       (2, True): "fftwpp::Convolution2MPI", (3, True): "fftwpp::Convolution3MPI"}
FFT = "fftwpp::fftBase"


class Ctx:
    """one shape of schedule"""
    def __init__(self, **k):
        self.dim, self.mpi, self.A, self.B = 1, False, 2, 1
        self.sched, self.R, self.n, self.q, self.k0, self.k = [0], 1, 1, 3, 1, 1
        self.inplace, self.needpad, self.overwrite, self.w = True, False, False, 2
        self.bigW = False
        self.user = ""            # subset of "FWV"
        self.dist = self.zdist = True
        self.contig = True
        self.threads = 1
        self.entry = "convolve"
        for a, b in k.items():
            assert hasattr(self, a), a
            setattr(self, a, b)

    def text(self):
        t = "A=%d, B=%d, residue blocks %s" % (self.A, self.B, self.sched)
        if self.q == 1:
            t += ", q=1"
        if self.k > 1 or self.k0 > 1:
            t += ", %d (%d) sub-blocks" % (self.k, self.k0)
        t += ", in place" if self.inplace else ", out of place"
        for f, s in (("overwrite", "overwrite"), ("needpad", "padded workspace"), ("bigW", "workspace larger than an output")):
            if getattr(self, f):
                t += ", " + s
        if self.user:
            t += ", caller gives " + ",".join(self.user)
        if self.mpi:
            t += ", distributed" if self.dist else ", not distributed"
        if self.dim == 3 and not self.contig:
            t += ", strided rows"
        if self.w == 1:
            t += ", real input"
        if self.entry != "convolve":
            t += ", " + self.entry
        return t


class Model:
    """supplies the machine with the fixed objects and the effect of their operations"""
    def __init__(self, ctx):
        self.c = ctx
        self.embedded = {}
        self.obj = None
        self.reg = {}              # region -> dict(size=doubles or None, loc={offset: state}, owner=, freed=)
        self.pads = {}             # region -> padded?
        self.uses = {"F": set(), "W": set(), "V": set()}
        self.events = dict(forward=0, backward=0, mult=0, pad=0, copy=0, scale=0, transpose=0)
        self.accesses = 0

    # ---- set up
    def setup(self, m):
        c = self.c
        self.ffts = {}
        for lev, nm in enumerate(NAMES[c.dim]):
            self.ffts[nm] = self.mkfft(m, nm, lev)
        self.top = self.ffts[NAMES[c.dim][0]]
        self.base = num(0)

    def mkfft(self, m, nm, lev):
        c = self.c
        o = m.newobj(FFT)
        app = m.newobj("fftwpp::Application")
        h = m.heap[o]
        m.heap[app].update(A=num(c.A), B=num(c.B), mult=("fnptr", "mult"), threads=num(c.threads))
        s = lambda x: sym(x, nm)
        top = lev == 0
        h.update(app=app, M=s("M"), l=s("l"), m=s("m"), p=s("p"), D=num(c.k if top else 1), D0=num(c.k0 if top else 1),
                 inplace=c.inplace if top else True, overwrite=c.overwrite if top else False,
                 threads=num(c.threads if top else 1), centered=False,
                 Forward=("memfn", ("Forward", o)), Backward=("memfn", ("Backward", o)), Pad=("memfn", ("Pad", o)))
        if top:
            h.update(q=num(c.q), n=num(c.n), R=num(c.R))
        else:
            h.update(q=num(1), n=num(1), R=num(1))
        Lx, Ly, Lz, Ly0 = sym("Lx"), sym("Ly"), sym("Lz"), sym("Ly0")
        if c.dim == 1:
            h.update(L=sym("L"), C=num(1), S=num(1), ilen=sym("inputLength"))
        elif c.dim == 2:
            if lev == 0:
                h.update(L=Lx, C=Ly, S=Ly + sym("xpad"), ilen=Lx)
            else:
                h.update(L=Ly0, C=num(1), S=num(1), ilen=Ly)
        else:
            Sy = Lz if c.contig else Lz + sym("ypad")
            cont = c.contig or c.w == 1
            if lev == 0:
                h.update(L=Lx, C=Ly * Sy if cont else Lz, S=Ly * Sy + sym("xpad"), ilen=Lx)
            elif lev == 1:
                h.update(L=Ly, C=Lz, S=Sy, ilen=Ly)
            else:
                h.update(L=sym("Lz0"), C=num(1), S=num(1), ilen=Lz)
        h["b"] = h["S"] * h["l"]
        h["dr"] = num(c.k)
        h["OS"] = s("outputSize")
        h["WS"] = num(0) if h["inplace"] else h["OS"] + (s("moreW") if c.bigW and top else num(0))
        h["VS"] = s("inputWords")
        h["norm"] = h["M"]
        return o

    def blocks(self, r):
        return self.c.k0 if r == 0 else self.c.k

    def isfft(self, o):
        return isinstance(o, tuple) and o[0] == "obj" and self.m.cls.get(o) == FFT

    def whole(self, o):
        """an object all of whose construction is interpreted"""
        return o == self.obj

    def field(self, o, f):
        return None

    def setfield(self, o, f, v):
        return False

    def region(self, name, size, owner):
        self.reg[name] = dict(size=size, loc={}, owner=owner, freed=False, by=self.m.owner)
        self.pads[name] = False
        return ("ptr", name, num(0), 2)

    # ---- calls
    def call(self, m, e, name, obj):
        base = name.split("::")[-1]
        c = self.c
        if self.isfft(obj):
            h = m.heap[obj]
            args = lambda: [m.ev(a) for a in e["args"]]
            if base in ("outputSize",):
                return h["OS"]
            if base == "workSizeW":
                return h["WS"]
            if base == "residueBlocks":
                return h["R"]
            if base == "increment":
                r = m.concrete(m.asnum(args()[0]), "residue")
                if obj != self.top:
                    return num(1)
                s = c.sched
                if r not in s:
                    raise Bad("residue", "the increment of residue block %d is asked for; the blocks are %s" % (r, s))
                i = s.index(r)
                return num((s[i + 1] if i + 1 < len(s) else max(c.R, r + 1)) - r)
            if base == "blocksize":
                args()
                return h["l"]
            if base == "noutputs":
                r = m.concrete(m.asnum(args()[0]), "residue")
                return h["l"] * num(self.blocks(r) if obj == self.top else 1)
            if base == "span":
                r = m.concrete(m.asnum(args()[0]), "residue")
                return h["b"] * num(self.blocks(r) if obj == self.top else 1)
            if base == "inputLength":
                return h["ilen"]
            if base == "wordSize":
                return num(c.w)
            if base == "doubles":
                return h["VS"] * num(2)
            if base == "paddedSize":
                return h["m"] * h["q"]
            if base == "conjugates":
                return False
            if base == "index":
                a = args()
                return sym("index", obj, m.asnum(a[0]), m.asnum(a[1]))
            return None
        if base in ("ceilquotient",) and len(e["args"]) == 2:
            a, b = [m.asnum(m.ev(x)) for x in e["args"]]
            if b.isconst() and b.cval() == 2:
                h = a * num(Fraction(1, 2))
                if all(Fraction(v).denominator == 1 for v in h.t.values()):
                    return h
            if a.isconst() and b.isconst():
                return num(-(-a.cval() // b.cval()))
            return sym("cdiv", a, b)
        if base in ("max", "min") and len(e["args"]) == 2:
            a, b = [m.asnum(m.ev(x)) for x in e["args"]]
            lt = m.rel("<", a, b)
            return (b if lt else a) if base == "max" else (a if lt else b)
        if base == "ComplexAlign":
            a = [m.asnum(m.ev(x)) for x in e["args"]]
            if len(a) == 1:
                if sign(a[0]) == "0":
                    return NULL
                return self.region(("own", m.fresh()), a[0] * num(2), "self")
            n = m.concrete(a[0], "count")
            if n == 0 or sign(a[1]) == "0":
                return NULL
            g = m.fresh()
            return m.newarr(num(n), "align", {i: self.region(("own", g, i), a[1] * num(2), "self") for i in range(n)})
        if base == "deleteAlign" or base == "free":
            v = m.ev(e["args"][0])
            self.free(v)
            return "void"
        if base == "outputSplit":
            return self.split(m, e)
        if base == "get_thread_num":
            return m.asnum(m.ev(e["args"][0])) - num(1)
        if base == "exit":
            raise Exit()
        if base == "convolveRaw" and isinstance(obj, tuple) and obj[0] == "obj" and obj != self.obj:
            self.child(obj, [m.ev(a) for a in e["args"]], e)
            return "void"
        if isinstance(obj, tuple) and obj[0] == "obj" and "mpitranspose" in (m.cls.get(obj) or ""):
            return self.transpose(obj, base, [m.ev(a) for a in e["args"]])
        if base in ("memcpy", "memmove", "copy", "copy_n") and e.get("obj") is None:
            return self.bulk(base, [m.ev(a) for a in e["args"]])
        if base in ("operator=", "operator*=") and isinstance(obj, tuple) and obj[0] in ("dataref", "val"):
            l = obj[1] if obj[0] == "dataref" else ("data",) + obj[1:]
            v = m.ev(e["args"][0])
            if base == "operator=":
                self.datastore(l, v)
            else:
                self.dataop(l, "*=", v)
            return "void"
        return None

    def external(self, e, name, obj, args):
        for a in args + [obj]:
            if isinstance(a, tuple) and a and a[0] in ("ptr", "arr") and a != NULL:
                raise Unknown("external function %s" % name)
        return ("opaque", name)

    def construct(self, cls, args, e):
        m = self.m
        if "mpitranspose" in cls:
            self.dimensions(args)
            o = m.newobj(cls)
            m.heap[o]["pending"] = None
            m.heap[o]["freed"] = False
            return o
        if cls.startswith("std::") or cls in ("utils::mpiOptions", "utils::split", "utils::split3", "Complex"):
            if len(args) == 1:
                return args[0]
            return ("opaque", cls)
        return None

    def dimensions(self, args):
        """the transposes of an object turn the split of its own transforms"""
        m = self.m
        t = m.heap.get(m.this, {})
        key = tuple(t[x] for x in NAMES[3] if self.isfft(t.get(x)))
        o = getattr(self, "splits", {}).get(key)
        if o is None or len(args) < 5 or not all(isinstance(a, Poly) for a in args[:5]):
            return
        d = m.heap[o]
        k = d if len(key) == 2 else m.heap[d["xy"]]
        want = [k["X"], k["Y"], k["x"], k["y"], num(1) if len(key) == 2 else d["z"]]
        for i, (a, w) in enumerate(zip(args, want)):
            if (a - w).t:
                raise Bad("transpose", "a transpose is set up with %s=%r instead of %r" % (("X", "Y", "x", "y", "Z")[i], a, w))

    def split(self, m, e):
        """the decomposition of a transform's output; cached per pair of transforms"""
        a = [m.ev(x) for x in e["args"]]
        key = tuple(x for x in a if self.isfft(x))
        if not hasattr(self, "splits"):
            self.splits = {}
        if key in self.splits:
            return self.splits[key]
        c = self.c
        lev = str(len(self.splits))
        fx = m.heap[key[0]]
        o = m.newobj("utils::split")
        X = fx["l"] * fx["D"]
        y = sym("d.y", lev) if not (c.mpi and key[0] == self.top) else sym("dist.y")
        dist = c.dist if key[0] == self.top else False
        Y = y + sym("d.yrest", lev) if dist else y
        x = sym("d.x", lev)
        comm = ("opaque", "comm" + lev)
        if len(key) == 2:
            m.heap[o].update(X=X, Y=Y, x=x, y=y, x0=sym("d.x0", lev), y0=sym("d.y0", lev), n=sym("d.n", lev), communicator=comm)
        else:
            xy, yz = m.newobj("utils::split"), m.newobj("utils::split")
            z = sym("d.z", lev)
            Z = z + sym("d.zrest", lev) if c.zdist else z
            m.heap[xy].update(X=X, Y=Y, x=x, y=y, n=sym("d.xyn", lev), communicator=("opaque", "comm.xy"))
            m.heap[yz].update(X=Y, Y=Z, x=y, y=z, n=sym("d.yzn", lev), communicator=("opaque", "comm.yz"))
            m.heap[o].update(X=X, Y=Y, Z=Z, x=x, y=y, z=z, xy=xy, yz=yz, n=sym("d.n", lev), n2=sym("d.n2", lev), communicator=comm)
        self.splits[key] = o
        return o

    # ---- memory
    def free(self, v):
        if v == NULL:
            return
        if not (isinstance(v, tuple) and v[0] == "ptr"):
            raise Unknown("free of %r" % (v,))
        g = v[1]
        if self.reg[g]["owner"] == "caller":
            raise Bad("caller-freed", "%s, given by the caller, is released" % self.name(g))
        if v[2].t:
            raise Bad("bad-free", "a pointer into the middle of a work array is released")
        if len(g) == 3 and g[2] != 0:
            raise Bad("bad-free", "element %d of a block of work arrays is released, not its start" % g[2])
        grp = [k for k in self.reg if k[:2] == g[:2]]
        for k in grp:
            if self.reg[k]["freed"]:
                raise Bad("double-free", "a work array is released twice")
            self.reg[k]["freed"] = True

    def delete(self, v, array):
        m = self.m
        if v == NULL:
            return
        if isinstance(v, tuple) and v[0] == "arr":
            a = m.arrays[v[1]]
            if a["kind"] == "caller":
                raise Bad("caller-freed", "the array of work arrays given by the caller is released")
            if a["freed"]:
                raise Bad("double-free", "an array is deleted twice")
            if not array and a["kind"] == "new":
                raise Bad("bad-free", "an array from new[] is released by delete without []")
            a["freed"] = True
            return
        if isinstance(v, tuple) and v[0] == "obj":
            if m.heap[v].get("freed") is True:
                raise Bad("double-free", "an object is deleted twice")
            if array:
                raise Bad("bad-free", "a single object is released by delete[]")
            m.heap[v]["freed"] = True
            return
        raise Unknown("delete of %r" % (v,))

    def name(self, g):
        if g[0] == "f":
            return "input %d" % g[1]
        if g[0] == "caller":
            return "work array %s" % "".join(str(x) for x in g[1:])
        return "a work array"

    def at(self, ptr, what):
        """(region, base offset, loop part) of a pointer"""
        if ptr == NULL:
            raise Bad("null", "%s is null" % what)
        if not (isinstance(ptr, tuple) and ptr[0] == "ptr"):
            raise Unknown("%s: %r" % (what, ptr))
        g, off = ptr[1], ptr[2]
        if self.reg[g]["freed"]:
            raise Bad("freed", "%s was released before" % what)
        base, loop = {}, {}
        for mm, v in off.t.items():
            (loop if any(s[0] == "it" for s, _ in mm) else base)[mm] = v
        return g, Poly(base), Poly(loop)

    def rows(self, loop):
        """footprint of a loop part: list of (stride, count) in doubles"""
        out = []
        rest = loop
        for it, cnt in self.m.loops:
            s = next(iter(it.syms()))
            k = loop.coeff(s)
            if loop.degree(s) > 1:
                raise Unknown("nonlinear subscript")
            if k.t:
                out.append((k, cnt))
                rest = rest - k * it
        if rest.t:
            raise Unknown("subscript of a finished loop")
        return merge(out)

    def grows(self, rows):
        c = self.c
        if c.dim < 3 or c.contig or c.w == 1:
            return merge([])
        h = self.m.heap[self.ffts["ffty"]]
        return merge([(h["S"] * num(2), h["L"])])

    def fits(self, g, base, need, what):
        s = self.reg[g]["size"]
        if s is None:
            return
        d = s - base - need
        if sign(d) == "-":
            raise Bad("small", "%s (%r doubles) is smaller than needed (%r)" % (what, s, need + base))
        self.accesses += 1

    # ---- the transforms
    def mpcall(self, o, f, args, e):
        if not (isinstance(f, tuple) and f[0] == "memfn"):
            raise Unknown("call through %r" % (f,))
        if not self.isfft(o):
            raise Unknown("transform object")
        n = f[1]
        if isinstance(n, tuple) and n[0] == "named":
            if n[1].split("(")[0].endswith("padNone"):
                return None
            raise Unknown("member function %s" % n[1])
        kind, owner = n
        if owner != o:
            raise Bad("mixed", "a routine chosen by one transform object is run on another")
        if o != self.top:
            if kind == "Pad" and self.m.this != self.obj:
                return None
            raise Unknown("inner transform used directly")
        if kind == "Pad":
            return self.dopad(args[0])
        if kind == "Forward":
            return self.forward(*args)
        return self.backward(*args)

    def dopad(self, W):
        self.events["pad"] += 1
        if not self.c.needpad:
            return
        if W == NULL:
            raise Bad("null", "the zero padding of a null workspace is written")
        g, base, loop = self.at(W, "the workspace to be padded")
        self.reg[g]["loc"].clear()
        self.pads[g] = True

    def residue(self, r):
        r = self.m.concrete(self.m.asnum(r), "residue")
        if r not in self.c.sched:
            raise Bad("residue", "residue block %d does not exist; the blocks are %s" % (r, self.c.sched))
        return r

    def workspace(self, W, other, write, what):
        c = self.c
        h = self.m.heap[self.top]
        if c.inplace:
            if W != NULL:
                raise Bad("workspace", "an in-place transform is handed a separate workspace by %s" % what)
            return None
        if W == NULL:
            if write and c.overwrite:
                return None
            raise Bad("workspace", "an out-of-place transform gets no workspace in %s" % what)
        g, base, loop = self.at(W, "the workspace")
        if g == other:
            raise Bad("workspace", "the workspace of %s is the array being transformed" % what)
        self.fits(g, base, h["WS"] * num(2), "the workspace")
        return g

    def forward(self, f, F, r, W=NULL):
        c = self.c
        self.events["forward"] += 1
        h = self.m.heap[self.top]
        r = self.residue(r)
        gi, bi, li = self.at(f, "the input of a forward transform")
        go, bo, lo = self.at(F, "the output of a forward transform")
        st = self.reg[gi]["loc"].get(bi)
        if gi[0] != "f":
            raise Bad("input", "a forward transform reads a work array instead of an input")
        if (bi - self.base).t and st is None:
            raise Bad("offset", "a forward transform reads input %d at offset %r instead of %r" % (gi[1], bi, self.base))
        if st is None or st[0] != "in":
            raise Bad("overwritten", "the transform of input %d at residue block %d is taken after the input was overwritten" % (gi[1], r))
        if gi == go:
            raise Bad("input", "a forward transform overwrites its own input")
        a = st[1]
        want = self.grows(None)
        for l in (li, lo):
            if self.rows(l) != want:
                raise Bad("rows", "a forward transform covers the rows %s instead of %s" % (show(self.rows(l)), show(want)))
        g = self.workspace(W, go, False, "a forward transform")
        if g is not None:
            self.uses["W"].add(g)
            if c.needpad and not self.pads[g]:
                raise Bad("unpadded", "the transform of input %d at residue block %d runs in a workspace whose zero padding was overwritten" % (a, r))
            self.reg[g]["loc"].clear()
        if bo.t:
            raise Unknown("transform into the middle of a work array")
        if go[0] == "f":
            raise Bad("output", "a forward transform writes over input %d" % go[1])
        self.fits(go, bo, h["OS"] * num(2), "the output of a forward transform")
        self.uses["F"].add(go)
        loc = self.reg[go]["loc"]
        loc.clear()
        self.pads[go] = False
        if c.overwrite:
            if r != 0:
                raise Bad("residue", "an overwriting transform is asked for residue %d" % r)
            for rr in range(c.n - 1):
                self.reg[gi]["loc"][bi + h["b"] * num(2 * rr)] = self.T(a, rr, 0)
            loc[num(0)] = self.T(a, c.n - 1, 0)
        else:
            for d in range(self.blocks(r)):
                loc[h["b"] * num(2 * d)] = self.T(a, r, d)

    def T(self, a, r, d):
        return ["T", a, r, d, "x", None]

    def dist(self):
        return self.c.mpi and self.c.dist

    def product(self, ptrs, bl, n):
        """A transforms become B products; returns the residue and sub-block"""
        c = self.c
        sts = []
        for a in range(c.A):
            g, base, loop = ptrs[a]
            st = self.reg[g]["loc"].get(base)
            if st is None:
                raise Bad("product", "the product reads, as transform %d, an array that holds no transform" % a)
            if st[0] != "T":
                raise Bad("product", "the product reads, as transform %d, an array that holds %s" % (a, self.state(st)))
            if st[1] != a:
                raise Bad("product", "the product takes the transform of input %d as that of input %d" % (st[1], a))
            if st[5] is not None:
                raise Bad("pending", "the product reads transform %d while its transpose is in flight" % a)
            if self.dist() and st[4] != "y":
                raise Bad("layout", "the product reads transform %d before it is transposed" % a)
            sts.append(st)
        rs = {(s[2], s[3]) for s in sts}
        if len(rs) != 1:
            raise Bad("product", "the product mixes transforms of different residues %s" % sorted(rs))
        (r, d), = rs
        seen = set()
        for b in range(max(c.A, c.B)):
            g, base, loop = ptrs[b]
            if (g, base) in seen:
                raise Bad("product", "two operands of the product share an array")
            seen.add((g, base))
            if b < c.B:
                self.reg[g]["loc"][base] = ["P", b, r, d, "y" if self.dist() else "x", None]
            else:
                self.reg[g]["loc"].pop(base, None)
        self.events["mult"] += 1
        return r, d

    def state(self, st):
        return {"T": "the transform of input %d at residue block %d", "P": "product %d at residue block %d",
                "in": "input %d", "acc": "output %d"}[st[0]] % tuple(st[1:3 if st[0] in "TP" else 2])

    def operands(self, arr, extra=None):
        c = self.c
        if not (isinstance(arr, tuple) and arr[0] == "arr"):
            raise Unknown("operands %r" % (arr,))
        out = []
        for i in range(max(c.A, c.B)):
            p = self.m.load(("elem", arr[1], arr[2] + num(i)))
            if extra is not None and isinstance(p, tuple) and p[0] == "ptr":
                p = ("ptr", p[1], p[2] + extra, p[3])
            out.append(self.at(p, "operand %d of the product" % i))
        return out

    def ptrcall(self, f, args, e):
        m, c = self.m, self.c
        if f != ("fnptr", "mult"):
            raise Unknown("call through %r" % (f,))
        h = m.heap[self.top]
        arr, n, ind = args[0], m.asnum(args[1]), args[2]
        ops = self.operands(arr)
        for g, b, l in ops:
            if l.t:
                raise Unknown("product inside a loop over data")
        r, d = self.product(ops, None, n)
        if (n - h["l"]).t:
            raise Bad("length", "the multiplier is told %r values instead of %r" % (n, h["l"]))
        if not (isinstance(ind, tuple) and ind[0] == "obj"):
            raise Bad("indices", "the multiplier gets no index object")
        I = m.heap[ind]
        if I.get("fft") != self.top:
            raise Bad("indices", "the multiplier's index object does not name this transform")
        if c.q > 1:
            if "r" not in I:
                raise Bad("indices", "the multiplier's index object has no residue")
            if (m.asnum(I["r"]) - num(r)).t:
                raise Bad("indices", "the multiplier is told residue %r for the transforms at residue %d" % (I["r"], r))
            want = h["S"] * h["l"] * num(self.blocks(0) * d)
            if "offset" not in I or (m.asnum(I["offset"]) - want).t:
                raise Bad("indices", "the multiplier is told offset %r for sub-block %d instead of %r" % (I.get("offset"), d, want))

    def child(self, obj, args, e):
        """the inner convolution of one row: A transforms in, B products out"""
        m, c = self.m, self.c
        kids = self.kids()
        if obj not in kids:
            raise Bad("child", "an inner convolution object of another level is used")
        if m.heap[obj].get("freed") is True:
            raise Bad("freed", "an inner convolution object is used after it was deleted")
        arr = args[0]
        off, ind = num(0), NULL
        for a in args[1:]:
            if isinstance(a, Poly):
                off = a
            elif a != NULL:
                ind = a
        ops = self.operands(arr, off * num(2))
        loops = {l for _, _, l in ops}
        if len(loops) != 1:
            raise Bad("rows", "the inner convolution mixes rows")
        loop, = loops
        h = m.heap[self.top]
        if c.mpi:
            d = m.heap[self.splits[tuple(self.ffts[x] for x in NAMES[c.dim])]]
            stride = d["Y"] * d["z"] if c.dim == 3 else d["Y"]
            cnt = d["x"]
        else:
            stride, cnt = h["S"], h["l"]
        want = merge([(stride * num(2), cnt)])
        if self.rows(loop) != want:
            raise Bad("rows", "the inner convolutions cover the rows %s instead of %s" % (show(self.rows(loop)), show(want)))
        it = next(iter(s for s in loop.syms() if s[0] == "it"))
        r, d = self.product(ops, None, None)
        if ind == NULL:
            raise Bad("indices", "the inner convolution gets no index object")
        if ind != m.heap[obj].get("indices"):
            raise Unknown("index object of the inner convolution")
        I = m.heap[ind]
        ix = I.get("index")
        if not (isinstance(ix, tuple) and ix[0] == "arr"):
            raise Bad("indices", "the inner convolution's index object has no index array")
        v = m.arrays[ix[1]]["v"]
        pos = c.dim - 2
        w = sym("index", self.top, num(r), Poly.sym(it))
        if v.get(pos) != w:
            raise Bad("indices", "the inner convolution of row i at residue %d is told index %r" % (r, v.get(pos)))
        if c.dim == 2 and "indices" in c.entry and v.get(1) != sym("outerindex"):
            raise Bad("indices", "the outer index is lost on the way to the inner convolution")
        size = m.asnum(I["size"])
        need = 2 if c.dim == 3 or "indices" in c.entry else 1
        if sign(size - num(need)) == "-":
            raise Bad("indices", "the inner convolution is told %r indices; %d are set" % (size, need))

    def kids(self):
        m = self.m
        out = set()
        for f in ("convolvey", "convolveyz"):
            a = m.heap[self.obj].get(f)
            if isinstance(a, tuple) and a[0] == "arr":
                out |= {v for v in m.arrays[a[1]]["v"].values() if isinstance(v, tuple)}
        return out

    def backward(self, F, f, r, W0=NULL):
        c = self.c
        self.events["backward"] += 1
        h = self.m.heap[self.top]
        r = self.residue(r)
        gi, bi, li = self.at(F, "the argument of a backward transform")
        go, bo, lo = self.at(f, "the result of a backward transform")
        want = self.grows(None)
        for l in (li, lo):
            if self.rows(l) != want:
                raise Bad("rows", "a backward transform covers the rows %s instead of %s" % (show(self.rows(l)), show(want)))
        loc = self.reg[gi]["loc"]

        def get(lc, off, rr, d):
            st = lc.get(off)
            if st is None or st[0] != "P":
                raise Bad("not-product", "a backward transform at residue block %d reads an array that holds %s" %
                          (rr, "nothing" if st is None else self.state(st)))
            if st[2] != rr or st[3] != d:
                raise Bad("residue", "a backward transform at residue %d is given product %d of residue %d" % (rr, st[1], st[2]))
            if st[5] is not None:
                raise Bad("pending", "a backward transform reads product %d while its transpose is in flight" % st[1])
            if self.dist() and st[4] != "x":
                raise Bad("layout", "a backward transform reads product %d before it is transposed back" % st[1])
            return st[1]
        if c.overwrite:
            if r != 0:
                raise Bad("residue", "an overwriting transform is asked for residue %d" % r)
            bs = {get(loc, bi, c.n - 1, 0)}
            for rr in range(c.n - 1):
                bs.add(get(self.reg[go]["loc"], bo + h["b"] * num(2 * rr), rr, 0))
            done = set(range(c.n))
        else:
            bs = {get(loc, bi + h["b"] * num(2 * d), r, d) for d in range(self.blocks(r))}
            done = {r}
        if len(bs) != 1:
            raise Bad("product", "a backward transform mixes products %s" % sorted(bs))
        b, = bs
        g = self.workspace(W0, gi, True, "a backward transform")
        out = self.reg[go]["loc"]
        if go[0] == "f":
            if go[1] != b:
                raise Bad("output", "product %d is added to output %d" % (b, go[1]))
            if (bo - self.base).t:
                raise Bad("offset", "output %d is written at offset %r instead of %r" % (b, bo, self.base))
        else:
            need = h["VS"] * num(2)
            self.uses["V"].add(go)
            self.fits(go, bo, need, "the accumulation array of output %d" % b)
            size = self.reg[go]["size"]
            if go[0] == "caller" and size is not None and bo.t and not (set(bo.syms()) & set(need.syms())) and sign(size - bo - need) not in ("+", "0", ">="):
                raise Bad("small", "the accumulation array of output %d starts at %r of a work array of %r doubles" % (b, bo, size))
            for o2, st in list(out.items()):
                dd = o2 - bo
                if dd.t and (sign(need - dd) == "+" and sign(dd) in ("+", ">=") or sign(need + dd) == "+" and sign(dd) in ("-", "<=")):
                    raise Bad("overlap", "the accumulation arrays of two outputs overlap")
        if g is not None:
            if g == go:
                raise Bad("workspace", "the workspace of a backward transform is its result")
            self.reg[g]["loc"].clear()
            self.pads[g] = False
        loc.clear()
        if r == 0:
            st = out.get(bo)
            if st is not None and st[0] == "acc" and st[1] != b:
                raise Bad("output", "outputs %d and %d share an accumulation array" % (st[1], b))
            if c.overwrite:
                out.clear()
            out[bo] = ["acc", b, set(done), 0]
        else:
            st = out.get(bo)
            if st is None or st[0] != "acc":
                raise Bad("no-start", "residue block %d of output %d is added to an array that does not hold residue block 0" % (r, b))
            if st[1] != b:
                raise Bad("output", "product %d is added to output %d" % (b, st[1]))
            if r in st[2]:
                raise Bad("twice", "residue block %d of output %d is added twice" % (r, b))
            st[2].add(r)

    # ---- transposes
    def transpose(self, T, base, args):
        m = self.m
        h = m.heap[T]
        if h.get("freed") is True:
            raise Bad("freed", "a transpose is used after it was deleted")
        self.events["transpose"] += 1
        if base in ("wait", "wait0", "wait1", "wait2"):
            if h["pending"] is not None:
                st, to = h["pending"]
                if st[5] is T:
                    st[4], st[5] = to, None
                h["pending"] = None
            return "void"
        async_ = base.startswith("i")
        n = base[1:] if async_ else base
        if n not in ("localize0", "localize1"):
            raise Unknown("transpose operation %s" % base)
        if len(args) > 1 and args[1] != NULL:
            raise Unknown("out-of-place transpose")
        if h["pending"] is not None:
            raise Bad("pending", "a transpose is started while its previous one is in flight")
        g, off, loop = self.at(args[0], "the array to transpose")
        if loop.t:
            raise Unknown("transpose in a loop over data")
        size = self.reg[g]["size"]
        if size is not None:
            need = m.heap[self.splits[tuple(self.ffts[x] for x in NAMES[self.c.dim])]]["n"]
            if (size - need * num(2)).t and not any(need.t.keys() & x.t.keys() for k in m.conds for x in k if isinstance(x, Poly)) \
                    and not need.t.keys() & size.t.keys():
                raise Bad("small", "an array of %r doubles is transposed; the transpose needs %r" % (size, need * num(2)))
        st = self.reg[g]["loc"].get(off)
        if st is None or st[0] not in ("T", "P"):
            raise Bad("transpose", "an array that holds %s is transposed" % ("no transform" if st is None else self.state(st)))
        if st[5] is not None:
            raise Bad("pending", "an array is transposed while its previous transpose is in flight")
        to = "y" if n == "localize1" else "x"
        if st[4] == to:
            raise Bad("layout", "%s is transposed to the layout it already has" % self.state(st))
        if async_:
            st[5] = T
            h["pending"] = (st, to)
        else:
            st[4] = to
        return "void"

    # ---- element accesses
    def expected(self):
        c = self.c
        h = self.m.heap[self.top]
        w = num(c.w)
        if c.dim == 1:
            return merge([(num(1), w * h["ilen"])])
        if c.mpi:
            d = self.m.heap[self.splits[tuple(self.ffts[x] for x in NAMES[c.dim])]]
        if c.dim == 2:
            ly = d["y"] if c.mpi else self.m.heap[self.ffts["ffty"]]["ilen"]
            return merge([(w * h["S"], h["L"]), (num(1), w * ly)])
        y = self.m.heap[self.ffts["ffty"]]
        ly = self.m.heap[d["xy"]]["y"] if c.mpi else y["ilen"]
        lz = d["z"] if c.mpi else self.m.heap[self.ffts["fftz"]]["ilen"]
        return merge([(w * h["S"], h["L"]), (w * y["S"], ly), (num(1), w * lz)])

    def foot(self, l):
        g, base, loop = self.at(("ptr", l[1], l[2], l[3]), "the data")
        rows = []
        rest = loop
        for it, cnt in self.m.loops:
            s = next(iter(it.syms()))
            k = loop.coeff(s)
            if k.t:
                rows.append((k, cnt))
                rest = rest - k * it
        if rest.t:
            raise Unknown("subscript of a finished loop")
        if l[3] == 2:
            rows.append((num(1), num(2)))
        return g, base, merge(rows)

    def datastore(self, l, v):
        if isinstance(v, tuple) and v[0] == "val":
            self.copied(self.foot(l), self.foot(v))
        elif isinstance(v, tuple) and v[0] == "valop" and v[1] in ("*", "/"):
            a, b = v[2], v[3]
            if isinstance(b, tuple) and b[0] == "val" and v[1] == "*":
                a, b = b, a
            if not (isinstance(a, tuple) and a[0] == "val" and a[1:3] == l[1:3]):
                raise Unknown("scaled copy")
            self.dataop(l, v[1] + "=", b)
        else:
            raise Unknown("value written to the data: %r" % (v,))

    def bulk(self, base, a):
        m = self.m
        if isinstance(a[0], tuple) and a[0][0] == "arr":
            if base == "copy":
                if a[1][:2] != a[0][:2]:
                    raise Unknown("copy")
                src, dst, n = a[0], a[2], a[1][2] - a[0][2]
            elif base == "copy_n":
                src, dst, n = a[0], a[2], m.asnum(a[1])
            else:
                src, dst, n = a[1], a[0], divide(m.asnum(a[2]), num(8))
            if not (isinstance(dst, tuple) and dst[0] == "arr"):
                raise Unknown("copy")
            for i in range(m.concrete(n, "count")):
                m.store(("elem", dst[1], dst[2] + num(i)), m.load(("elem", src[1], src[2] + num(i))))
            return "void"
        if base == "copy_n":
            a = [a[2], a[0], m.asnum(a[1])]
        elif base == "copy":
            if not (isinstance(a[1], tuple) and a[1][0] == "ptr" and a[1][1] == a[0][1]):
                raise Unknown("copy")
            n = divide(a[1][2] - a[0][2], num(a[0][3]))
            a = [a[2], a[0], n]
        else:
            n = divide(m.asnum(a[2]), num(8))
            a = [("ptr",) + a[0][1:3] + (1,), ("ptr",) + a[1][1:3] + (1,), n]
        it = sym("it", m.fresh())
        m.loops.append((it, a[2]))
        try:
            l = ("data", a[0][1], a[0][2] + it * num(a[0][3]), a[0][3])
            s = ("val", a[1][1], a[1][2] + it * num(a[1][3]), a[1][3])
            self.copied(self.foot(l), self.foot(s))
        finally:
            m.loops.pop()
        return "void"

    def copied(self, dst, src):
        self.events["copy"] += 1
        gd, bd, rd = dst
        gs, bs, rs = src
        st = self.reg[gs]["loc"].get(bs)
        if st is None or st[0] != "acc":
            raise Bad("copy", "an array that holds no result is copied")
        if rd != rs:
            raise Bad("copy", "the result is copied from the rows %s to the rows %s" % (show(rs), show(rd)))
        if rd != self.expected():
            raise Bad("copy", "the copy of the result covers %s instead of %s" % (show(rd), show(self.expected())))
        if gd[0] == "f":
            if gd[1] != st[1]:
                raise Bad("output", "the result of output %d is copied to output %d" % (st[1], gd[1]))
            if (bd - self.base).t:
                raise Bad("offset", "output %d is copied to offset %r instead of %r" % (gd[1], bd, self.base))
        self.reg[gd]["loc"][bd] = ["acc", st[1], set(st[2]), st[3]]

    def dataop(self, l, op, v):
        if op in ("+=", "-=") and isinstance(v, tuple) and v[0] == "val":
            g, b, rows = self.foot(l)
            st = self.reg[g]["loc"].get(b)
            if g[0] == "f" and st is not None and st[0] == "in":
                raise Bad("copy", "the result is added to the input instead of replacing it")
        if op not in ("*=", "/="):
            raise Unknown("operator %s on the data" % op)
        f = v if isinstance(v, Frac) else Frac(self.m.asnum(v), num(1))
        if op == "/=":
            f = Frac(f.d, f.n)
        self.events["scale"] += 1
        g, b, rows = self.foot(l)
        st = self.reg[g]["loc"].get(b)
        if st is None or st[0] != "acc":
            raise Bad("scale", "an array that holds no result is scaled")
        if rows != self.expected():
            raise Bad("scale", "the scaling of output %d covers %s instead of %s" % (st[1], show(rows), show(self.expected())))
        w = num(1)
        for x in NAMES[self.c.dim]:
            w = w * self.m.heap[self.ffts[x]]["norm"]
        if not f.same(Frac(num(1), w)):
            raise Bad("scale", "output %d is scaled by (%r)/(%r) instead of 1/(%r)" % (st[1], f.n, f.d, w))
        st[3] += 1

    # ---- one use of the object
    def inputs(self, m, base):
        """fresh data"""
        self.base = base * num(2)
        v = {}
        for i in range(max(self.c.A, self.c.B)):
            p = self.region(("f", i), None, "caller")
            self.reg[("f", i)]["loc"][self.base] = ["in", i]
            v[i] = p
        return m.newarr(num(len(v)), "caller", v)

    def finished(self, scaled):
        c = self.c
        want = set(range(c.n)) if c.overwrite else set(c.sched)
        for b in range(c.B):
            st = self.reg[("f", b)]["loc"].get(self.base)
            if st is None or st[0] != "acc":
                raise Bad("missing", "output %d is never written" % b)
            if st[1] != b or st[2] != want:
                raise Bad("missing", "output %d lacks the residue blocks %s" % (b, sorted(want - st[2])))
            if st[3] != scaled:
                raise Bad("scale", "output %d is scaled %d times instead of %d" % (b, st[3], scaled))
        for o, k in self.m.cls.items():
            if "mpitranspose" in (k or "") and self.m.heap[o].get("pending"):
                raise Bad("pending", "a transpose is still in flight when the convolution returns")


def merge(rows):
    """canonical footprint"""
    rows = [(s, n) for s, n in rows if not (n.isconst() and n.cval() == 1)]
    again = True
    while again:
        again = False
        for i in range(len(rows)):
            for j in range(len(rows)):
                if i != j and rows[i][0] == rows[j][0] * rows[j][1]:
                    n = (rows[j][0], rows[i][1] * rows[j][1])
                    rows = [x for k, x in enumerate(rows) if k not in (i, j)] + [n]
                    again = True
                    break
            if again:
                break
    return frozenset(rows)


def show(rows):
    return ", ".join("%r at stride %r" % (n, s) for s, n in sorted(rows, key=repr)) or "one"


def runctx(prog, ctx, limit=64):
    """all paths of one context: list of ("ok"|"bad"|"unknown", detail, model)"""
    out, todo = [], [[]]
    while todo:
        ch = todo.pop()
        mod = Model(ctx)
        m = Machine(prog, mod)
        m.choices = list(ch)
        try:
            use(m, mod, ctx)
            out.append(("ok", None, mod))
        except Bad as b:
            b.where = b.where or (m.fn, m.trace[-1] if m.trace else None)
            out.append(("bad", b, mod))
        except Unknown as u:
            out.append(("unknown", "%s in %s" % (u, m.fn), mod))
        except Exit:
            out.append(("exit", None, mod))
        for i in range(len(ch), len(m.choices)):
            todo.append(m.choices[:i] + [not m.choices[i]])
        if len(out) > limit:
            out.append(("unknown", "too many paths", mod))
            break
    return out


def use(m, mod, c):
    p = m.p
    mod.setup(m)
    cls = CLS[(c.dim, c.mpi)]
    h = m.heap[mod.top]
    N = max(c.A, c.B)
    ctors = [f for f in p.byname.get(cls + "::<ctor>", []) if f["isdef"] and len(f["params"]) >= c.dim + 3]
    if len(ctors) != 1:
        raise Unknown("constructors of %s" % cls)
    f = ctors[0]
    F = W = V = NULL
    if "F" in c.user:
        size = (sym("d.n", "0") if c.mpi else h["OS"]) * num(2)
        F = m.newarr(num(N), "caller", {i: mod.region(("caller", "F", i), size if not c.mpi else None, "caller") for i in range(N)})
    if "W" in c.user:
        W = mod.region(("caller", "W"), (h["WS"] if not c.inplace else sym("anyW")) * num(2), "caller")
    given = {}
    mod.obj = o = m.newobj(cls)
    mod.kvs = None
    if "V" in c.user:
        n = len(c.sched)
        vs = num(0) if n == 1 or n == 2 and c.A > c.B and not c.overwrite else h["VS"]
        V = mod.region(("caller", "V"), vs * num(2 * c.B), "caller")
    args = []
    for q in f["params"]:
        t, n = q["t"], q["n"]
        if "fftBase" in t:
            i = sum(1 for a in args if mod.isfft(a))
            args.append(mod.ffts[NAMES[c.dim][i]])
        elif t.replace(" ", "") == "Complex**":
            args.append(F)
        elif t.replace(" ", "") == "Complex*":
            args.append(V if "W" in given else W)
            given["W"] = 1
        elif t == "bool":
            args.append(m.ev(q["def"]) if q.get("def") else False)
        else:
            args.append(("opaque", n))
    m.call(f, args, o)
    E = c.entry
    meth = {}
    for g in p.defs():
        if g.get("cls") in p.bases(cls) and g["base"] in ("convolve", "convolveRaw"):
            meth.setdefault((g["base"], tuple(kindof(q["t"]) for q in g["params"])), g)

    def invoke(name, kinds, args):
        g = meth.get((name, kinds))
        if g is None:
            # a method with further defaulted parameters
            for (b, ks), x in sorted(meth.items(), key=lambda y: len(y[0][1])):
                if b == name and ks[:len(kinds)] == kinds and all(q.get("def") is not None for q in x["params"][len(kinds):]):
                    g = x
                    break
        if g is None:
            raise Unknown("no %s%r" % (name, kinds))
        m.call(g, args, o)
    off = sym("off", "o")
    for turn in range(2):
        if E == "convolve":
            arr = mod.inputs(m, num(0))
            invoke("convolve", ("F",), [arr])
            mod.finished(1)
        elif E == "convolve at an offset":
            arr = mod.inputs(m, off)
            invoke("convolve", ("F", "n"), [arr, off])
            mod.finished(1)
        else:
            ind = m.newobj("fftwpp::Indices")
            sz = 1 if c.dim == 1 else 2
            m.heap[ind].update(fft=("opaque", "outer"), index=m.newarr(num(sz), "new", {0: sym("index0"), 1: sym("outerindex")} if sz == 2 else {0: sym("outerindex")}),
                               size=num(sz), maxsize=num(sz), r=num(0), offset=num(0))
            if E == "convolveRaw with indices":
                arr = mod.inputs(m, num(0))
                invoke("convolveRaw", ("F", "I"), [arr, ind])
            else:
                arr = mod.inputs(m, off)
                invoke("convolveRaw", ("F", "n", "I"), [arr, off, ind])
            mod.finished(0)
    checkuse(m, mod, c, o)
    for k in [cls] + [b for b in p.bases(cls) if b != cls]:
        for d in p.byname.get(k + "::<dtor>", []):
            if d.get("body") is not None:
                m.call(d, [], o)
    for g, r in mod.reg.items():
        if r["owner"] == "self" and not r["freed"] and r["by"] == o:
            raise Bad("leak", "a work array the object allocated is never released")


def checkuse(m, mod, c, o):
    """the arrays the caller gave are the ones that are used; nothing is allocated in their place"""
    for k in "FWV":
        gs = mod.uses[k]
        mine = {g for g in gs if mod.reg[g]["owner"] == "self"}
        if k in c.user and mine:
            raise Bad("not-used", "the caller gave the work array %s but another one is used in its place" % k, ("", (m.fn or CLS[(c.dim, c.mpi)] + "::init", 0)))
    if c.user == "FWV" or c.inplace and c.user == "FV":
        if any(r["owner"] == "self" and r["by"] == o for r in mod.reg.values()):
            raise Bad("not-used", "the caller gave every work array but the object allocates further ones")


def kindof(t):
    t = t.replace(" ", "")
    return "F" if t == "Complex**" else "I" if "Indices*" in t else "n" if t in ("unsignedlong", "size_t") else t


ENTRIES = {1: ["convolve at an offset", "convolveRaw with indices at an offset", "convolveRaw with indices"],
           2: ["convolve at an offset", "convolveRaw with indices at an offset"],
           3: ["convolve at an offset", "convolveRaw with indices at an offset"]}


def contexts(tier="quick"):
    """the shapes of schedule that are analysed"""
    out = []
    M = 4 if tier == "quick" else 6
    AB = [(a, b) for a in range(1, M + 1) for b in range(1, M + 1)]
    S = [dict(sched=[0], R=1, n=1), dict(sched=[0, 1], R=2, n=2), dict(sched=[0, 1, 2], R=3, n=3)]
    if tier != "quick":
        S.append(dict(sched=[0, 1, 2, 3], R=4, n=4))
    MEM = [dict(inplace=True), dict(inplace=False, needpad=True), dict(inplace=False)]
    for dim, mpi in ((1, False), (2, False), (3, False), (2, True), (3, True)):
        base = dict(dim=dim, mpi=mpi)
        for a, b in AB:
            for s in S:
                for mem in MEM:
                    out.append(Ctx(A=a, B=b, **base, **s, **mem))
        two = [(2, 1), (3, 1), (2, 2), (3, 2), (1, 2), (5, 2)]
        for a, b in two:
            # sub-blocks
            if dim == 1:
                for s in (dict(sched=[0], R=2, n=2, k0=2, k=2), dict(sched=[0, 1, 3], R=5, n=5, k0=1, k=2),
                          dict(sched=[0, 2], R=5, n=5, k0=2, k=3), dict(sched=[0, 1], R=3, n=3, k0=1, k=2)):
                    for mem in MEM:
                        out.append(Ctx(A=a, B=b, **base, **s, **mem))
            # overwriting transforms
            if a >= b:
                for n in (2, 3, 4):
                    out.append(Ctx(A=a, B=b, **base, sched=[0], R=n, n=n, overwrite=True, inplace=True))
                    if mpi:
                        out.append(Ctx(A=a, B=b, **base, sched=[0], R=n, n=n, overwrite=True, inplace=True, dist=False))
                    for e in ENTRIES[dim]:
                        out.append(Ctx(A=a, B=b, **base, sched=[0], R=n, n=n, overwrite=True, inplace=True, entry=e))
                    out.append(Ctx(A=a, B=b, **base, sched=[0], R=n, n=n, overwrite=True, inplace=True, user="F"))
            # explicit transforms
            for mem in (dict(inplace=True), dict(inplace=False)):
                out.append(Ctx(A=a, B=b, **base, sched=[0], R=1, n=1, q=1, **mem))
                for e in ENTRIES[dim]:
                    out.append(Ctx(A=a, B=b, **base, sched=[0], R=1, n=1, q=1, **mem, entry=e))
                for u in ("F", "W", "FW"):
                    out.append(Ctx(A=a, B=b, **base, sched=[0], R=1, n=1, q=1, **mem, user=u))
            for s in S:
                for mem in MEM:
                    for u in ("F", "W", "V", "FW", "FV", "WV", "FWV"):
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, user=u))
                    if not mem["inplace"]:
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, bigW=True))
                    if mpi:
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, dist=False))
                    if mpi and dim == 3:
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, zdist=False))
                    if not mpi:
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, w=1))
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, threads=2))
                    if dim == 3 and not mpi:
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, contig=False))
                    for e in ENTRIES[dim]:
                        out.append(Ctx(A=a, B=b, **base, **s, **mem, entry=e))
    return out


_P = None


def _one(i):
    c = _C[i]
    out = []
    try:
        rs = runctx(_P, c)
    except RecursionError:
        return [("unknown", "recursion", None, None)]
    except (KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError) as e:
        return [("unknown", "internal %s %s" % (type(e).__name__, str(e)[:80]), None, None)]
    for s, d, m in rs:
        ev = m.events
        if s == "bad":
            fn, tr = d.where if isinstance(d.where, tuple) else (None, None)
            out.append((s, (d.rule, d.text, fn or (tr[0] if tr else None), tr[1] if tr else 0), ev, m.accesses))
        else:
            out.append((s, d, ev, m.accesses))
    return out


def sweep(p, cs):
    """results of all contexts, computed in parallel"""
    global _P, _C
    import multiprocessing as mp
    import sys
    sys.setrecursionlimit(20000)
    _P, _C = p, cs
    with mp.get_context("fork").Pool(8) as pool:
        return pool.map(_one, range(len(cs)), chunksize=32)
