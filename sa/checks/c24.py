"""C24: origin shift, Nyquist zeroing and Hermitian symmetrization change exactly the documented elements."""
import itertools
from fractions import Fraction
from ..common import load
from ..algebra import R, Undecided, toR, P, Poly
from ..wrapctor import Unknown, ev_r, ev_cond, ev_poly
from ..xform import Xf, clean
from .c07 import guard, short

EXPLANATION = """Abstract interpretation (value numbering) of fftw::Shift and the Shift and deNyquist members of the transform classes (serial and
MPI), and of HermitianSymmetrize, HermitianSymmetrizeX and the serial HermitianSymmetrizeXY: every path yields the
ordered stores with their loop ranges; composed for small sizes (and for every local slice in the MPI classes) they give
the final array as a function of the initial one, which is compared with the documented map."""
RULE = """violation: on some path and for some small size an element ends with another value than documented (negated, zeroed,
made the conjugate of its mirror image, or unchanged), something outside the array is written, or an unsupported odd size does
not end in an exit with nonzero status."""
ASSUMPTIONS = ["padding elements of real rows may hold anything", "serial order of loop iterations (C03 covers races)"]
TECHNIQUE = "value numbering of stores with generic loop indices; the composed store maps compared with the documented map"
NOTE = "Expressions are extracted symbolically; comparison is by instances of the sizes up to 4 per dimension, both parities, all local slices."

A = ("f",)


def run(rep, tier):
    p = load(["stub_fftw", "mpifftw", "mpiconvolve"])
    for f in p.defs():
        b, c = f["base"], (f.get("cls") or "").split("::")[-1]
        t = [clean(q["t"]) for q in f["params"]]
        spec = None
        if b == "Shift" and t and t[0] in ("Complex *", "double *"):
            spec = shift(f, c, t)
        elif b == "deNyquist" and t == ["Complex *"]:
            spec = nyquist(c)
        elif b.startswith("HermitianSymmetrize") and not c:
            spec = hermitian(f, b, t)
        if spec:
            guard(rep, short(f), one, p, rep, f, c, spec)
    rep.need("routines", 9)
    rep.need("instances", 200)


# ---------------------------------------------------------------- documented maps
# a spec yields (environment, expected map or None for an exit, size in doubles, don't-care offsets)
def neg(rows, real, row):
    """negate the first `real` doubles of the listed rows of `row` doubles"""
    return {r * row + j: (-1, r * row + j) for r in rows for j in range(real)}


def shift(f, c, t):
    n = [q["n"] for q in f["params"][1:] if q["n"] != "threads"]
    if c == "fftw":
        if len(n) not in (2, 3):
            return None

        def serial():
            for d in itertools.product(*[range(1, 5)] * len(n)):
                env = {("arg", k): v for k, v in zip(n, d)}
                last = d[-1]
                row = 2 * (last // 2 + 1) if t[0] == "Complex *" else last
                lead = d[:-1]
                ok = all(x % 2 == 0 for x in lead)
                R_ = list(itertools.product(*[range(x) for x in lead]))
                rows = [k for k, i in enumerate(R_) if sum(i) % 2]
                N = len(R_) * row
                yield env, neg(rows, last, row) if ok else None, N, {r * row + j for r in range(len(R_)) for j in range(last, row)}
        return serial
    if c == "rcfft2dMPI":
        def mpi2():
            for X, Y, pad in itertools.product((2, 3, 4), (1, 2, 3), (0, 2)):
                for x0 in range(X + 1):
                    for x in range(X - x0 + 1):
                        row = Y + pad
                        env = F_({"dr.X": X, "dr.Y": Y, "dr.x0": x0, "dr.x": x, "rdist": row})
                        yield env, neg([i for i in range(x) if (x0 + i) % 2], Y, row) if X % 2 == 0 else None, x * row, \
                            {i * row + j for i in range(x) for j in range(Y, row)}
        return mpi2
    if c == "rcfft3dMPI":
        def mpi3():
            for X, Y, Z in itertools.product((2, 3), (2, 3, 4), (1, 2)):
                for x0, x, y0, y in itertools.product(range(X), range(3), range(Y), range(4)):
                    if x0 + x > X or y0 + y > Y:
                        continue
                    row = Z + 1
                    env = F_({"dr.X": X, "dr.Y": Y, "dr.Z": Z, "dr.x0": x0, "dr.x": x, "dr.yz.x": y, "dr.yz.x0": y0, "rdist": row})
                    rows = [i * y + j for i in range(x) for j in range(y) if (x0 + i + y0 + j) % 2]
                    yield env, neg(rows, Z, row) if X % 2 == 0 and Y % 2 == 0 else None, x * y * row, \
                        {r * row + Z for r in range(x * y)}
        return mpi3
    return None


def F_(d):
    return {("fld", k): v for k, v in d.items()}


def zero(elems):
    return {2 * e + b: (0, None) for e in elems for b in (0, 1)}


def nyquist(c):
    if c in ("rcfft2d", "crfft2d"):
        def g2():
            for nx, ny in itertools.product(range(1, 5), range(1, 5)):
                h = ny // 2 + 1
                z = {i * h + j for i in range(nx) for j in range(h) if nx % 2 == 0 and i == 0 or ny % 2 == 0 and j == h - 1}
                yield F_({"nx": nx, "ny": ny}), zero(z), 2 * nx * h, set()
        return g2
    if c in ("rcfft3d", "crfft3d"):
        def g3():
            for nx, ny, nz in itertools.product(range(1, 4), range(1, 5), range(1, 5)):
                h = nz // 2 + 1
                z = {(i * ny + j) * h + k for i in range(nx) for j in range(ny) for k in range(h)
                     if nx % 2 == 0 and i == 0 or ny % 2 == 0 and j == 0 or nz % 2 == 0 and k == h - 1}
                yield F_({"nx": nx, "ny": ny, "nz": nz}), zero(z), 2 * nx * ny * h, set()
        return g3
    if c == "rcfft2dMPI":
        def m2():
            for X, Y in itertools.product((1, 2, 3), (1, 2, 3, 4)):
                h = Y // 2 + 1
                for y0 in range(h + 2):
                    for y in range(1, h - y0 + 1) if y0 < h else (0,):
                        z = {i * y + j for i in range(X) for j in range(y) if X % 2 == 0 and i == 0 or Y % 2 == 0 and y0 + j == h - 1}
                        yield F_({"dr.X": X, "dr.Y": Y, "dc.X": X, "dc.Y": h, "dc.y": y, "dc.y0": y0}), zero(z), 2 * X * y, set()
        return m2
    if c == "rcfft3dMPI":
        def m3():
            for X, Y, Z in itertools.product((1, 2), (2, 3), (1, 2, 4)):
                h = Z // 2 + 1
                for y0, y, z0, zl in itertools.product(range(Y + 2), range(Y + 1), range(h + 2), range(h + 1)):
                    if not (y0 + y <= Y and y or y == 0 and y0 >= Y) or not (z0 + zl <= h and zl or zl == 0 and z0 >= h):
                        continue
                    z = {(i * y + j) * zl + k for i in range(X) for j in range(y) for k in range(zl)
                         if X % 2 == 0 and i == 0 or Y % 2 == 0 and y0 + j == 0 or Z % 2 == 0 and z0 + k == h - 1}
                    yield F_({"dr.X": X, "dr.Y": Y, "dr.Z": Z, "dc.X": X, "dc.Y": Y, "dc.Z": h, "dc.xy.y": y, "dc.xy.y0": y0,
                              "dc.z": zl, "dc.z0": z0, "dc.y": y, "dc.y0": y0}), zero(z), 2 * X * y * zl, set()
        return m3
    return None


def mirror(m, d, s):
    """element d becomes the conjugate of element s"""
    m[2 * d], m[2 * d + 1] = (1, 2 * s), (-1, 2 * s + 1)


def hermitian(f, b, t):
    n = [q["n"] for q in f["params"]]
    if b == "HermitianSymmetrize" and t == ["Complex *"]:
        return lambda: iter([({}, {1: (0, None)}, 8, set())])
    if b == "HermitianSymmetrizeX":
        if t[:3] == ["unsigned long"] * 3 and t[3] == "Complex *":
            def x():
                for Hx, Hy, e in itertools.product((1, 2, 3, 4), (1, 2, 3), (0, 1)):
                    if e and len(t) < 5:
                        continue
                    for x0 in (Hx - 1, Hx):
                        S = Hy + e
                        env = dict(zip([("arg", k) for k in n], (Hx, Hy, x0, None, S)))
                        env.pop(("arg", n[3]))
                        yield env, hx(Hx, Hy, x0, S), 2 * (x0 + Hx) * S, set()
            return x
        if "split" in t[0]:
            def ms():
                for X, y, y0 in itertools.product((1, 2, 3, 4, 5), (0, 1, 2, 3), (0, 1, 2)):
                    if y == 0 and y0 == 0:
                        continue
                    H = (X + 1) // 2
                    d = n[0]
                    env = F_({d + ".X": X, d + ".y": y, d + ".y0": y0})
                    if y0 == 0:
                        m = hx(H, y, X // 2, y)
                    else:
                        m = zero(range(y)) if X // 2 == H else {}
                    yield env, m, 2 * X * y, set()
            return ms
        return None
    if b == "HermitianSymmetrizeXY" and t[:5] == ["unsigned long"] * 5:
        def xy():
            for Hx, Hy, Hz, e in itertools.product((1, 2, 3), (1, 2, 3), (1, 2), ((0, 0), (1, 1), (2, 0))):
                if e != (0, 0) and len(t) < 7:
                    continue
                for x0, y0 in itertools.product((Hx - 1, Hx), (Hy - 1, Hy)):
                    Sy = Hz + e[1]
                    Sx = (y0 + Hy) * Sy + e[0]
                    env = dict(zip([("arg", k) for k in n], (Hx, Hy, Hz, x0, y0, None, Sx, Sy)))
                    env.pop(("arg", n[5]))
                    m = {}
                    for i, j in itertools.product(range(-Hx + 1, Hx), range(Hy)):
                        if j > 0 or i > 0:
                            mirror(m, (x0 - i) * Sx + (y0 - j) * Sy, (x0 + i) * Sx + (y0 + j) * Sy)
                    m[2 * (x0 * Sx + y0 * Sy) + 1] = (0, None)
                    if x0 == Hx:
                        m.update(zero({j * Sy + k for j in range(y0 + Hy) for k in range(Hz)}))
                    if y0 == Hy:
                        m.update(zero({i * Sx + k for i in range(x0 + Hx) for k in range(Hz)}))
                    yield env, m, 2 * ((x0 + Hx - 1) * Sx + (y0 + Hy) * Sy), set()
        return xy
    return None


def hx(Hx, Hy, x0, S):
    m = {}
    for i in range(1, Hx):
        mirror(m, (x0 - i) * S, (x0 + i) * S)
    m[2 * x0 * S + 1] = (0, None)
    if x0 == Hx:
        m.update(zero(range(Hy)))
    return m


# ---------------------------------------------------------------- comparison
class Ev(Xf):
    def follow(self, f):
        return True


def one(p, rep, f, c, spec):
    args = []
    for q in f["params"]:
        t = clean(q["t"])
        args.append(("ptr", A, P(0)) if t in ("Complex *", "double *") else
                    R(Poly.sym(("arg", q["n"]))) if "unsigned" in t or t in ("int", "size_t") else ("sym", q["n"]))
    I = Ev(p, f.get("cls") or "none", record=())
    paths = I.runall(f, args)
    rep.count("routines")
    rep.count("paths", len(paths))
    groups = {}
    for r, m, ex in paths:
        inner = [(k, b) for k, b in m.conds if loopsyms(k)]
        outer = [(k, b) for k, b in m.conds if not loopsyms(k)]
        groups.setdefault(repr(outer), (outer, []))[1].append((inner, m, ex))
    bad = None
    seen = set()
    for outer, parts in groups.values():
        for env, want, size, free in spec():
            env = {k: Fraction(v) for k, v in env.items()}
            env.setdefault(("arg", "threads"), Fraction(2))
            if not possible(outer, env):
                continue
            rep.count("instances")
            ex = any(e for _, _, e in parts)
            exits = [e[1] for _, m, x in parts if x for e in m.events if e[0] == "exit"]
            if want is None:
                if not ex or any(isinstance(s, R) and s.iszero() for s in exits):
                    bad = "does not exit with nonzero status"
                elif any(s[0] == A for _, m, _ in parts for s in m.stores):
                    bad = "changes the array before it exits"
            elif ex:
                bad = "exits"
            else:
                try:
                    got = compose(parts, env, size)
                except Unknown:
                    raise Undecided("stores")
                for o in sorted(set(got) | set(want)):
                    if o in free and 0 <= o < size:
                        continue
                    w = want.get(o, (1, o))
                    g = got.get(o, (1, o))
                    if not 0 <= o < size:
                        bad = "writes outside the array (offset %d of %d doubles)" % (o, size)
                    elif g != w:
                        bad = "leaves %s %d %s instead of %s" % ("double", o, word(g, o), word(w, o))
                    if bad:
                        break
            if bad:
                rep.bad("map:%s::%s(%s)" % (c, f["base"], ",".join(clean(q["t"]) for q in f["params"])), f["file"], f["ln"],
                        "%s %s, for example %s" % (short(f), bad, ", ".join("%s=%s" % (k[-1], v) for k, v in env.items() if k[-1] != "threads")))
                return


def word(v, o):
    if v[0] == 0:
        return "zero"
    if v == (1, o):
        return "unchanged"
    return "%s %d" % ("minus" if v[0] < 0 else "equal to", v[1])


def loopsyms(k):
    return "('loop'," in repr(k)


def possible(conds, env):
    for c, b in conds:
        try:
            if ev_cond(c, env) != b:
                return False
        except (Unknown, KeyError, TypeError, IndexError):
            continue
    return True


def compose(parts, env, size):
    """final value of every double: (coefficient, initial offset)"""
    mem = {}
    first = parts[0][1]
    items = []
    for k, (inner, m, ex) in enumerate(parts):
        for s in m.stores:
            if s[0] == A:
                items.append((k, inner, s))
            elif not (isinstance(s[0], tuple) and s[0] and s[0][0] == "tmp"):
                raise Unknown
    # one program order: stores of the first path, then guarded alternatives of the others
    if len(parts) > 1:
        if any(not s[3] for _, _, s in items):
            raise Unknown
    steps = [0]

    def value(v, e):
        if not isinstance(v, R) or not v.d.isconst():
            raise Unknown
        if v.iszero():
            return (0, None)
        out = None
        for mono, k in v.n.t.items():
            if len(mono) != 1 or mono[0][1] != 1 or mono[0][0][0] != "m" or mono[0][0][1] != A or out is not None:
                raise Unknown
            co = Fraction(k) / v.d.cval()
            ks = mono[0][0][2]
            from ..wrapctor import ev_key
            o = ev_poly(ks, e) if isinstance(ks, Poly) else ev_key(ks, e)
            c0, o0 = mem.get(int(o), (1, int(o)))
            out = (co * c0, o0) if c0 else (0, None)
        return out

    def sym(v):
        return next(iter(next(iter(v.n.t))))[0]

    def block(items, d, e):
        i = 0
        while i < len(items):
            k, inner, s = items[i]
            if len(s[3]) == d:
                # the two halves of one element are stored together
                grp = [s]
                if guard_ok(inner, e):
                    o = ev_r(R(s[1]), e)
                    v = value(s[2], e)
                    nxt = items[i + 1] if i + 1 < len(items) else None
                    if nxt and nxt[0] == k and len(nxt[2][3]) == d and nxt[2][4] == s[4] and \
                            isinstance(nxt[2][1] - s[1], Poly) and (nxt[2][1] - s[1]).isconst() and (nxt[2][1] - s[1]).cval() == 1:
                        o2 = ev_r(R(nxt[2][1]), e)
                        v2 = value(nxt[2][2], e)
                        mem[int(o2)] = v2
                        i += 1
                    mem[int(o)] = v
                elif i + 1 < len(items) and False:
                    pass
                i += 1
                continue
            L = s[3][d]
            j = i
            while j < len(items) and len(items[j][2][3]) > d and repr(items[j][2][3][d]) == repr(L):
                j += 1
            v, lo, hi, st = L
            x, h, dd = ev_r(lo, e), ev_r(hi, e), ev_r(st, e)
            if dd == 0:
                raise Unknown
            while (x < h if dd > 0 else x > h):
                steps[0] += 1
                if steps[0] > 20000:
                    raise Unknown
                e2 = dict(e)
                e2[sym(v)] = x
                block(items[i:j], d + 1, e2)
                x += dd
            i = j
    block(items, 0, env)
    return mem


def guard_ok(inner, e):
    for c, b in inner:
        try:
            if ev_cond(c, e) != b:
                return False
        except (Unknown, KeyError):
            raise Unknown
    return True
