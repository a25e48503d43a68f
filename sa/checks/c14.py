"""C14: array objects free exactly the storage they allocated."""
from ..common import load
from ..algebra import R, Undecided, toR, P, Poly
from ..arrays import Arrays, const, RECORD

EXPLANATION = """Typestate analysis of the Array.h classes (release and debug instantiation).  The state of an object
is (what its pointer refers to: nothing, the caller's memory, storage of its own from new[] or from the aligned
allocator, released storage) x (its flag word).  The effect of every constructor, method and the destructor on that
state is computed from its body, and the states reachable by any sequence of operations are enumerated."""
RULE = """violation: in some reachable state an operation releases storage that is not the object's own (the caller's,
another object's, already released, uninitialised), or with the deallocator of the other allocator; the flags claim
ownership of storage the object does not own; the destructor, Deallocate, Reallocate or an assignment loses storage the
object owns; a copy or a view (A[i], A+i) claims ownership; swaparray/leftshiftarray/rightshiftarray lose it."""
ASSUMPTIONS = ["Set, Dimension with a pointer, Activate, Freeze, Hold and (release builds) Allocate on an array that already owns storage are the application's decision to give that storage up"]
TECHNIQUE = "typestate analysis, exhaustive over reachable states"
NOTE = "States are finite, so any sequence of operations is covered."

GIVEUP = {"Set", "Dimension", "Activate", "Freeze", "Hold", "Allocate", "CheckActivate"}
GIVEUP_DBG = {"Set", "Dimension", "Activate", "Freeze", "Hold"}


def sym(n):
    return R(Poly.sym(n))


def kind(m, v, frees, who="A"):
    """abstraction of a pointer value"""
    if not (isinstance(v, tuple) and v[0] == "ptr"):
        return "undef"
    if v[1] in frees:
        return "freed"
    if v[1] == "null":
        return "null"
    if isinstance(v[1], tuple) and v[1][0] == "own":
        return "own:" + v[1][1] if v[1][2] == who else "foreign"
    if isinstance(v[1], tuple) and v[1][0] == "heap":
        for e in m.events:
            if e[0] == "alloc" and e[1] == v[1][1]:
                return "own:" + e[2]
    return "caller"


class Mach:
    def __init__(self, rep, p, debug):
        self.rep, self.p, self.debug = rep, p, debug
        self.A = Arrays(p, record=RECORD)
        self.tag = "debug" if debug else "release"

    def make(self, cls, st, who="A"):
        """an object of class cls in abstract state st"""
        A = self.A
        o = A.obj(cls)
        f = A.st().f
        k, flags = st
        if k == "null":
            f[(o[1], "v")] = ("ptr", "null", P(0))
        elif k.startswith("own:"):
            f[(o[1], "v")] = ("ptr", ("own", k[4:], who), P(0))
        elif k == "freed":
            f[(o[1], "v")] = ("ptr", ("gone", who), P(0))
        elif k != "undef":
            f[(o[1], "v")] = ("ptr", ("mem", who), P(0))
        f[(o[1], "state")] = toR(flags)
        f[(o[1], "size")] = sym("size" + who)
        for x in "xyzwv":
            f[(o[1], "n" + x)] = sym("n" + x + who)
            f[(o[1], "o" + x)] = sym("o" + x + who)
        for x in ("nyz", "nzw", "nyzw", "nwv", "nzwv", "nyzwv"):
            f[(o[1], x)] = sym(x + who)
        for x in ("voff", "vtemp"):
            f[(o[1], x)] = ("ptr", ("off", x, who), P(0))
        return o

    def finish(self, cls, f, st, o, m, others, giveup):
        """judge the events of one operation; returns the new abstract state"""
        rep = self.rep
        name = f["name"].split("::")[-1]
        nm = "%s::%s(%s)" % (cls.split("::")[1].split("<")[0], name, ",".join(p["t"].replace("unsigned long", "size_t").replace("Array::", "") for p in f["params"]))
        where = (f["file"], f["ln"])
        frees = set()
        for e in m.events:
            if e[0] != "free":
                continue
            v = e[1]
            rep.count("releases")
            what = None
            if not (isinstance(v, tuple) and v[0] == "ptr"):
                what = "an uninitialised pointer"
            elif v[1] in frees or isinstance(v[1], tuple) and v[1][0] == "gone":
                what = "storage that has already been released"
            elif isinstance(v[1], tuple) and v[1][0] == "own":
                if v[1][2] != "A":
                    what = "the storage of the array passed to it"
                elif v[1][1] != e[2]:
                    what = "storage from %s with the deallocator of %s" % (ALLOC[v[1][1]], ALLOC[e[2]])
            elif isinstance(v[1], tuple) and v[1][0] == "heap":
                a = [x for x in m.events if x[0] == "alloc" and x[1] == v[1][1]]
                if a and a[0][2] != e[2]:
                    what = "storage from %s with the deallocator of %s" % (ALLOC[a[0][2]], ALLOC[e[2]])
            elif v[1] == "null":
                if e[2] == "aligned" and False:
                    what = "NULL"
            else:
                what = "memory that belongs to the application"
            if what:
                rep.bad("release:%s:%s" % (nm, what), where[0], e[4] or where[1], "%s (%s build) releases %s (state before: %s)" % (nm, self.tag, what, show(st)))
            if isinstance(v, tuple) and v[0] == "ptr":
                frees.add(v[1])
        for b, bst in others:
            k2 = kind(m, m.f.get((b[1], "v")), frees, "B")
            fl2 = const(m.f.get((b[1], "state")))
            if bst[0].startswith("own:") and (k2 != bst[0] or fl2 is None or not fl2 & 1):
                if not (k2 == "freed" or fl2 is not None and (fl2 & 2 or bst[1] & 2)):
                    rep.bad("other:" + nm, where[0], where[1], "%s (%s build) takes the ownership of the array passed to it away (%s -> %s,%s)" % (nm, self.tag, show(bst), k2, fl2))
        if o is None:
            return None
        k = kind(m, m.f.get((o[1], "v")), frees)
        fl = const(m.f.get((o[1], "state")))
        if fl is None:
            fv = m.f.get((o[1], "state"))
            if fv is None:
                rep.bad("flags:" + nm, where[0], where[1], "%s (%s build) leaves the ownership flags unset" % (nm, self.tag))
            else:
                rep.undecided.append("%s: flags %s" % (nm, fv))
            return None
        new = (k, fl)
        if fl & 1 and not k.startswith("own:"):
            rep.bad("claims:" + nm, where[0], where[1], "%s (%s build) leaves an object that claims ownership of storage that is %s (%s -> %s)" %
                    (nm, self.tag, {"caller": "not its own", "foreign": "another array's", "freed": "released", "null": "NULL", "undef": "uninitialised"}[k], show(st), show(new)))
            return None
        if fl & 1 and bool(fl & 4) != (k == "own:aligned"):
            rep.bad("flavour:" + nm, where[0], where[1], "%s (%s build) records the wrong allocator for the storage it owns (%s -> %s)" % (nm, self.tag, show(st), show(new)))
            return None
        held = st is not None and st[0].startswith("own:") and st[1] & 1
        lost = held and ("own", st[0][4:], "A") not in frees and not (k == st[0] and fl & 1 and m.f.get((o[1], "v"))[1][0] == "own")
        for e in m.events:
            if e[0] == "alloc" and ("heap", e[1]) not in frees:
                v = m.f.get((o[1], "v"))
                if not (isinstance(v, tuple) and v[0] == "ptr" and v[1] == ("heap", e[1]) and fl & 1):
                    rep.bad("leak:" + nm, where[0], e[4] or where[1], "%s (%s build) loses the storage it allocates" % (nm, self.tag))
        if lost and not giveup:
            rep.bad("leak:" + nm, where[0], where[1], "%s (%s build) loses the storage the array owns (%s -> %s)" % (nm, self.tag, show(st), show(new)))
        return new

    def args(self, f):
        """argument lists: every array parameter in each of its own states"""
        out = [([], [])]
        for q in f["params"]:
            t = q["t"].replace("const ", "").strip()
            c = t.rstrip("& ").strip()
            if c.startswith("Array::") and not c.endswith("*"):
                out = [(a + [("make", c, s)], None) for a, _ in out for s in (("caller", 0), ("own:new", 1), ("own:aligned", 5))]
            elif t.endswith("*"):
                out = [(a + [("ptr", ("mem", "arg"), P(0))], None) for a, _ in out]
            elif t in ("unsigned long", "long", "int", "double"):
                out = [(a + [sym("a" + q["n"])], None) for a, _ in out]
            else:
                return []
        return [a for a, _ in out]

    def transit(self, cls, f, st):
        """new states of f executed in state st (None: constructor)"""
        res = []
        rep = self.rep
        name = f["name"].split("::")[-1]
        giveup = name in (GIVEUP_DBG if self.debug else GIVEUP)
        for args in self.args(f):
            box = {}

            def steps(A):
                o = A.obj(cls) if st is None else self.make(cls, st)
                others, av = [], []
                for a in args:
                    if isinstance(a, tuple) and a[0] == "make":
                        b = self.make(a[1], a[2], "B")
                        others.append((b, a[2]))
                        av.append(b)
                    else:
                        av.append(a)
                box["o"], box["others"] = o, others
                r = A.call(f, av, o)
                return (o, others, r)
            try:
                paths = self.A.paths(steps)
            except Undecided as e:
                if name not in ("operator+=", "operator-=", "operator*=", "operator/=", "Min", "Max", "L1", "Abs2", "L2", "LInfinity", "LMinusInfinity", "Identity"):
                    rep.undecided.append("%s %s: %s" % (self.tag, f["name"], e))
                continue
            for r, m, err in paths:
                if err:
                    if err.startswith("uninit") and not err.endswith(("voff", "vtemp")):
                        rep.undecided.append("%s %s: %s" % (self.tag, f["name"], err))
                    continue
                rep.count("transitions")
                o, others, val = r
                if f["kind"] == "dtor":
                    m.f[(o[1], "v")] = m.f.get((o[1], "v"))
                    m.f[(o[1], "state")] = m.f.get((o[1], "state"))
                n = self.finish(cls, f, st, o, m, others, giveup)
                v = self.A.val(val) if isinstance(val, tuple) and val[0] not in ("fld",) else val
                if isinstance(v, tuple) and v[0] == "obj" and v[1] != o[1] and not any(b[1] == v[1] for b, _ in others):
                    fl = const(m.f.get((v[1], "state")))
                    rep.count("views")
                    if fl is None or fl & 1:
                        rep.bad("view:%s" % f["name"], f["file"], f["ln"], "%s (%s build) returns a view that claims to own the storage (flags %s)" % (f["name"], self.tag, fl))
                if n:
                    res.append(n)
        return res

    def run(self, cls):
        A, rep = self.A, self.rep
        meth, seen = {}, set()
        for c in A.chain(cls):
            for n, fs in A.byname.items():
                if not n.startswith(c + "::") or "::" in n[len(c) + 2:]:
                    continue
                for f in fs:
                    k = (f["base"], tuple(p["t"] for p in f["params"]))
                    if f["kind"] not in ("method", "dtor") or f["base"] in RECORD or not f.get("body"):
                        continue
                    # hidden: a name redeclared in a derived class hides the base's (unless re-exported by using)
                    if k in seen or f.get("acc") not in (None, "public") or f["base"] in ("set", "clear", "test"):
                        continue
                    seen.add(k)
                    meth[k] = f
        states = set()
        for f in A.byname.get(cls + "::<ctor>", []):
            if not f.get("body"):
                continue
            for s in self.transit(cls, f, None):
                states.add(s)
        if not states:
            rep.undecided.append("no constructor of %s" % cls)
            return
        todo = list(states)
        while todo:
            s = todo.pop()
            rep.count("states")
            for k, f in meth.items():
                for n in self.transit(cls, f, s):
                    if f["kind"] == "dtor":
                        continue
                    if n not in states:
                        states.add(n)
                        todo.append(n)
        for c in A.chain(cls):
            if any(f["kind"] == "dtor" for f in A.byname.get(c + "::<dtor>", [])):
                rep.count("destructors")
                break
        # implicit copy
        for s in sorted(states):
            def steps(A):
                o = self.make(cls, s)
                return o, A.clone(o, cls)
            if any(len(f["params"]) == 1 and f["params"][0]["t"] == "const %s &" % cls for f in A.byname.get(cls + "::<ctor>", [])):
                continue
            try:
                for r, m, err in A.paths(steps):
                    if err:
                        continue
                    rep.count("copies")
                    fl = const(m.f.get((r[1][1], "state")))
                    if fl is None or fl & 1:
                        rep.bad("copy:%s" % cls, "Array.h", 0, "a copy of a %s claims to own the original's storage" % cls)
            except Undecided as e:
                rep.undecided.append("copy of %s: %s" % (cls, e))


ALLOC = {"new": "new[]", "aligned": "the aligned allocator", "scalar": "new"}


def show(s):
    if s is None:
        return "construction"
    fl = [n for b, n in ((1, "allocated"), (2, "temporary"), (4, "aligned")) if s[1] & b]
    return "%s,%s" % (s[0], "|".join(fl) or "unallocated")


def run(rep, tier):
    for unit, debug in (("stub_array", False), ("stub_array_dbg", True)):
        p = load([unit])
        M = Mach(rep, p, debug)
        for kd in ("array", "Array"):
            for dim in range(1, 6):
                M.run("Array::%s%d<double>" % (kd, dim))
        exchange(rep, M)
    rep.need("transitions", 500)
    rep.need("exchanges", 9)
    rep.need("destructors", 10)
    rep.need("releases", 10)


def exchange(rep, M):
    """swaparray and the shifts: the storage and its ownership move together"""
    A = M.A
    S = [("caller", 0), ("own:new", 1), ("own:aligned", 5)]
    import itertools
    for name in ("swaparray", "leftshiftarray", "rightshiftarray"):
        for f in A.byname.get("Array::" + name, []):
            n = len(f["params"])
            for combo in itertools.product(S, repeat=n):
                def steps(A):
                    os_ = [M.make("Array::array1<double>", s, "ABC"[i]) for i, s in enumerate(combo)]
                    A.call(f, list(os_), None)
                    return os_
                try:
                    res = A.paths(steps)
                except Undecided as e:
                    rep.undecided.append("%s: %s" % (name, e))
                    continue
                for r, m, err in res:
                    if err:
                        continue
                    rep.count("exchanges")
                    frees = {e[1][1] for e in m.events if e[0] == "free" and isinstance(e[1], tuple) and e[1][0] == "ptr"}
                    owners = {}
                    for o in r:
                        v, fl = m.f.get((o[1], "v")), const(m.f.get((o[1], "state")))
                        if fl is None or not isinstance(v, tuple):
                            continue
                        if fl & 1:
                            owners[v[1]] = owners.get(v[1], 0) + 1
                            want = isinstance(v[1], tuple) and v[1][0] == "own"
                            if not want:
                                rep.bad("exchange:%s:claims" % name, f["file"], f["ln"], "%s makes an array own memory of the application" % name)
                            elif bool(fl & 4) != (v[1][1] == "aligned"):
                                rep.bad("exchange:%s:flavour" % name, f["file"], f["ln"], "%s mixes up aligned and unaligned storage" % name)
                    for i, s in enumerate(combo):
                        if s[0].startswith("own:"):
                            k = ("own", s[0][4:], "ABC"[i])
                            c = owners.get(k, 0) + (k in frees)
                            if c != 1:
                                rep.bad("exchange:%s:%s" % (name, "lost" if not c else "shared"), f["file"], f["ln"],
                                        "%s: %s" % (name, "storage owned by one of the arrays has no owner afterwards" if not c else "two arrays own the same storage afterwards"))
