"""C13: array indexing is row-major and, in debug builds, checked."""
import re
from ..common import load
from ..algebra import R, Undecided, toR, P, Poly, fn
from ..arrays import Arrays, const

EXPLANATION = """Every class of Array.h is instantiated for double in a release and in a debug translation unit.  A view
of caller memory is constructed symbolically (extents, offsets and pointer are parameters) and every access path is
evaluated: A(i,j,..), A(i) and chains A[i][j]..  The address reached is compared, as a polynomial, with the row-major
one; in the debug unit the bounds checks met on the way are compared with the extents and offsets of the dimensions."""
RULE = """violation: an access expression reaches another address than v0 + row-major((i-ox),(j-oy),..); in the debug
build some index is not checked against its own extent and offset before the element is returned; assignment between
arrays does not compare every extent (and offset) of one side with the same one of the other, or compares others."""
ASSUMPTIONS = ["the classes are analysed for element type double; templates do not specialise on the element type"]
TECHNIQUE = "value numbering of constructor and accessor bodies; polynomial identity"
NOTE = "All extents, offsets and indices are symbols, so a passed obligation holds for every value."

NAMES = "xyzwv"


def sym(n):
    return R(Poly.sym(n))


def ctors(A, cls, dim, off):
    for f in A.byname.get(cls + "::<ctor>", []):
        t = [p["t"] for p in f["params"]]
        if len(t) > dim and all(x == "unsigned long" for x in t[:dim]) and t[dim] == "double *":
            yield f
    return


def view(A, f, cls, dim):
    """an array over caller memory with symbolic extents and offsets"""
    args = [sym("n" + NAMES[k]) for k in range(dim)] + [("ptr", "v0", P(0))] + \
           [sym("o" + NAMES[k]) for k in range(len(f["params"]) - dim - 1)]
    o = A.obj(cls)
    A.call(f, args, o)
    return o


def expected(dim, off):
    e = toR(0)
    for k in range(dim):
        i = sym("i" + NAMES[k]) - (sym("o" + NAMES[k]) if off else toR(0))
        e = (e * sym("n" + NAMES[k]) if k else toR(0)) + i
    return e


def method(A, cls, name, n, t="long"):
    for c in A.chain(cls):
        r = [f for f in A.byname.get(c + "::" + name, []) if len(f["params"]) == n and all(p["t"] == t for p in f["params"])]
        if r:
            return r[0]
    return None


def locate(A, v):
    """(base, offset polynomial) of an element lvalue"""
    if isinstance(v, tuple) and v[0] == "cell":
        return v[1], toR(v[2])
    return None


def access(A, o, dim, how):
    if how == "call":
        f = method(A, o[2], "operator()", dim)
        if not f:
            return None
        return A.callref(f, [sym("i" + NAMES[k]) for k in range(dim)], o)
    if how == "flat":
        f = method(A, o[2], "operator()", 1)
        return A.callref(f, [sym("i")], o) if f else None
    v = o
    for k in range(dim):
        i = sym("i" + NAMES[k])
        if A.isobj(v):
            f = method(A, v[2], "operator[]", 1)
            if not f:
                return None
            v = A.callref(f, [i], v)
        else:
            v = A.deref(A.add(v, i, "double *", "double"), "double")
    return v


class Acc(Arrays):
    def callref(self, f, args, o):
        """call whose result is an lvalue"""
        from ..algebra import Ret
        self.refret = f["ret"] if "ret" in f else ""
        return self.call(f, args, o)

    def stmt(self, s):
        if s.get("k") == "return" and s.get("e"):
            from ..algebra import Ret
            v = self.ev(s["e"])
            raise Ret(v)
        return super().stmt(s)

    def decay(self, v):
        return v


def run(rep, tier):
    for unit, debug in (("stub_array", False), ("stub_array_dbg", True)):
        p = load([unit])
        A = Acc(p)
        for kind in ("array", "Array"):
            for dim in range(1, 6):
                cls = "Array::%s%d<double>" % (kind, dim)
                off = kind == "Array"
                fs = list(ctors(A, cls, dim, off))
                if not fs:
                    rep.undecided.append("%s: no view constructor" % cls)
                    continue
                for how in ("call", "index", "flat"):
                    one(rep, A, fs[0], cls, dim, off, how, debug)
                if debug:
                    assign(rep, A, fs[0], cls, dim, off)
        if debug:
            guard(rep, A)
    rep.need("addresses", 40)
    rep.need("checked_indices", 40)
    rep.need("assignments", 8)


def one(rep, A, f, cls, dim, off, how, debug):
    try:
        res = A.paths(lambda A: access(A, view(A, f, cls, dim), dim, how))
    except Undecided as e:
        rep.undecided.append("%s %s: %s" % (cls, how, e))
        return
    file, ln = "Array.h", f["ln"]
    m0 = method(A, cls, {"call": "operator()", "flat": "operator()", "index": "operator[]"}[how], dim if how == "call" else 1)
    if m0:
        ln = m0["ln"]
    want = sym("i") if how == "flat" else expected(dim, off)
    if how == "flat" and dim == 1:
        want = sym("i")
    if how == "call" and dim == 1:
        want = sym("ix")             # operator() of a one-dimensional array is the flat accessor
    tag = "%s:%s:%s" % (cls.split("::")[1].split("<")[0], how, "debug" if debug else "release")
    for v, m, err in res:
        if err == "exit":
            continue
        if err:
            rep.bad("uninit:" + tag, file, ln, "%s %s reads %s before it is set" % (cls, how, err[7:]))
            continue
        a = locate(A, v)
        if a is None:
            rep.undecided.append("%s: %s" % (tag, "not an element"))
            continue
        rep.count("addresses")
        if a[0] != "v0" or not (a[1] - want).iszero():
            rep.bad("address:" + tag, file, ln, "%s of a %s reaches element %s of its storage, not the row-major %s" %
                    ({"call": "A(i,..)", "flat": "A(i)", "index": "A[i].."}[how], cls, a[1], want))
        if not debug:
            continue
        checks = []
        for ev in m.events:
            if ev[0] == "call" and ev[1] == "Check":
                ar = ev[3]
                checks.append((ar[0], ar[1]))
        if how == "flat" or dim == 1 and how == "call":
            n = toR(1)
            for k in range(dim):
                n = n * sym("n" + NAMES[k])
            goal = [(sym("i") if how == "flat" else sym("ix"), n, "i")]
        else:
            goal = [(sym("i" + NAMES[k]) - (sym("o" + NAMES[k]) if off else toR(0)), sym("n" + NAMES[k]), "i" + NAMES[k])
                    for k in range(dim)]
        for i, n, nm in goal:
            rep.count("checked_indices")
            if not any(isinstance(x, R) and isinstance(y, R) and (x - i).iszero() and (y - n).iszero() for x, y in checks):
                rep.bad("unchecked:%s:%s" % (tag, nm), file, ln,
                        "debug build: %s of a %s does not check index %s against extent %s" % (how, cls, nm, n))


def assign(rep, A, f, cls, dim, off):
    """operator= between arrays: every extent and offset is compared with its counterpart"""
    for g in A.byname.get(cls + "::operator=", []):
        t = g["params"][0]["t"] if len(g["params"]) == 1 else ""
        mm = re.match(r"const Array::([aA]rray\d)<double> &$", t)
        if not mm or cls == "Array::array1<double>":
            continue
        c2 = "Array::%s<double>" % mm.group(1)
        d2 = int(c2.split("<")[0][-1])
        f2 = list(ctors(A, c2, d2, None))
        if not f2:
            continue

        def steps(A):
            o = view(A, f, cls, dim)
            a2 = [sym("N" + NAMES[k]) for k in range(d2)] + [("ptr", "w0", P(0))] + \
                 [sym("O" + NAMES[k]) for k in range(len(f2[0]["params"]) - d2 - 1)]
            b = A.obj(c2)
            A.call(f2[0], a2, b)
            A.call(g, [b], o)
            return o
        try:
            res = A.paths(steps)
        except Undecided as e:
            rep.undecided.append("%s operator=: %s" % (cls, e))
            continue
        for o, m, err in res:
            if err:
                rep.undecided.append("%s operator=(%s): %s" % (cls, t, err))
                continue
            rep.count("assignments")
            got = [(e[3][0], e[3][1]) for e in m.events if e[0] == "call" and e[1] == "CheckEqual"]
            want = [(sym("n" + c), sym("N" + c), "extent " + c) for c in NAMES[:dim]]
            if off:
                want += [(sym("o" + c), sym("O" + c) if len(f2[0]["params"]) - d2 - 1 > 0 else toR(0), "offset " + c)
                         for c in NAMES[:dim]]
            same = lambda a, b, x, y: (a - x).iszero() and (b - y).iszero()
            ok = lambda g, w: same(g[0], g[1], w[0], w[1]) or same(g[1], g[0], w[0], w[1])
            tag = "%s:%s" % (cls.split("::")[1].split("<")[0], mm.group(1))
            for w in want:
                if not any(ok(x, w) for x in got if isinstance(x[0], R) and isinstance(x[1], R)):
                    rep.bad("assign:%s:%s" % (tag, w[2]), "Array.h", g["ln"],
                            "debug build: assigning a %s to a %s does not compare the %s of both" % (c2, cls, w[2]))
            for x in got:
                if isinstance(x[0], R) and isinstance(x[1], R) and not any(ok(x, w) for w in want) and not (x[0] - x[1]).iszero():
                    rep.bad("assign:%s:compares" % tag, "Array.h", g["ln"],
                            "debug build: assigning a %s to a %s compares %s with %s, which differ for conforming arrays" %
                            (c2, cls, x[0], x[1]))
            if not any(e[0] == "call" and e[1] == "Load" and isinstance(e[3][0], tuple) and e[3][0][:2] == ("ptr", "w0") for e in m.events):
                rep.undecided.append("%s: assignment does not load the other array's data directly" % tag)


def guard(rep, A):
    """Check exits for an index outside [0,n)"""
    A2 = Acc(A.p, record=())
    for f in A.byname.get("Array::array1<double>::Check", []):
        for i, n, must in ((-1, 3, True), (-7, 3, True), (3, 3, True), (4, 3, True), (0, 0, True), (0, 3, False), (2, 3, False), (0, 1, False)):
            rep.count("guard_cases")
            r = reach(f["body"], f, {f["params"][0]["id"]: i, f["params"][1]["id"]: n})
            if r is None:
                rep.undecided.append("Check(%d,%d)" % (i, n))
            elif r != must:
                rep.bad("guard:%d:%d" % (i, n), "Array.h", f["ln"], "the bounds check %s index %d of an extent of %d" %
                        ("accepts" if must else "rejects", i, n))


def fold(e, env):
    from ..repo import strip
    e = strip(e)
    k = e.get("k")
    if k in ("rv", "icast", "cast", "paren"):
        return fold(e["e"], env)
    if k == "int":
        return int(e["v"])
    if k == "ref":
        return env.get(e["id"])
    if k == "un" and e["op"] in ("!", "-"):
        v = fold(e["e"], env)
        return None if v is None else (not v if e["op"] == "!" else -v)
    if k == "bin":
        a, b = fold(e["l"], env), fold(e["r"], env)
        op = e["op"]
        if op == "||":
            return True if a or b else (None if a is None or b is None else False)
        if op == "&&":
            return False if (a is not None and not a) or (b is not None and not b) else (None if a is None or b is None else True)
        if a is None or b is None:
            return None
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b, "+": a + b, "-": a - b}.get(op)
    return None


def reach(s, f, env):
    """does executing s exit the program?  True / False / None"""
    from ..repo import walk
    k = s.get("k")
    if k == "block":
        for x in s["s"]:
            r = reach(x, f, env)
            if r is not False:
                return r
            if x.get("k") == "return":
                return False
        return False
    if k == "if":
        c = fold(s["c"], env)
        if c is None:
            a, b = reach(s["then"], f, env), reach(s["else"], f, env) if s.get("else") else False
            return a if a == b else None
        if c:
            return reach(s["then"], f, env)
        return reach(s["else"], f, env) if s.get("else") else False
    if k == "return":
        return False
    return any(n.get("k") == "call" and n.get("name", "").split("::")[-1] in ("ArrayExit", "exit", "abort") for n in walk(s))
