"""Path-sensitive ownership and definite-initialisation dataflow.

An abstract state is (variables, object fields, resource typestates, branch
facts).  States that agree on everything but branch facts and plain integers
are merged at every join (property simulation), so only branches that change
what is owned, initialised or selected stay apart.  Functions that touch the
analysed object or own resources are inlined; every other call is replaced by
its inferred write effects."""
from .poly import P, Poly
from .facts import Facts, INF
from .repo import walk, strip
from .effects import isptr, isref

UI = ("ui",)
NULLV = ("n",)


class Limit(Exception):
    pass


class St:
    __slots__ = ("env", "mem", "res", "F", "tr", "ver", "cnt")

    def __init__(self):
        self.env, self.mem, self.res = {}, {}, {}
        self.F = Facts()
        self.tr = ()
        self.cnt = {}

    def copy(self):
        s = St.__new__(St)
        s.env, s.mem, s.res = dict(self.env), dict(self.mem), dict(self.res)
        s.F, s.tr, s.cnt = self.F, self.tr, dict(self.cnt)
        return s

    def withF(self, F, note=None):
        s = self.copy()
        s.F = F
        if note:
            s.tr = s.tr + (note,)
        return s


def mentions(k, rid):
    if k == rid:
        return True
    return isinstance(k, tuple) and any(mentions(x, rid) for x in k)


class Res:
    """static description of a resource"""
    __slots__ = ("rid", "kind", "what", "file", "ln", "fn", "fam", "owner", "fams")

    def __init__(self, rid, kind, what, file, ln, fn, fam, owner):
        self.rid, self.kind, self.what, self.file, self.ln, self.fn, self.fam, self.owner = rid, kind, what, file, ln, fn, fam, owner
        self.fams = []


def isint(t):
    t = t.replace("const ", "").rstrip("& ").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short",
                 "unsigned short", "char", "unsigned char", "size_t", "ptrdiff_t", "signed char")


def signed(t):
    t = t.replace("const ", "").rstrip("& ").strip()
    return t in ("int", "long", "long long", "short", "ptrdiff_t", "signed char", "char")


def isbool(t):
    return t.replace("const ", "").rstrip("& ").strip() == "bool"


def ismfp(t):
    return "::*" in t or "(*" in t


FREE = {"fftw_destroy_plan": "plan", "fftw_free": "fftw", "free": "malloc"}
EXITS = {"exit", "abort", "_exit", "quick_exit", "MPI_Abort", "std::exit", "std::abort", "std::terminate"}
ALLOCEXT = {"fftw_export_wisdom_to_string": "malloc", "fftw_malloc": "fftw", "malloc": "malloc", "calloc": "malloc",
            "strdup": "malloc"}
COMPAT = {("align", "malloc"), ("malloc", "fftw"), ("malloc", "align"), ("fftw", "fftw")}


class Life:
    def __init__(self, prog, E, hooks=None):
        self.p, self.E = prog, E
        self.hooks = hooks
        self.resources = {}
        self.problems = {}
        self.notes = {}
        self.maxstates = 5000
        self.guards = []
        self.inert_memo = {}
        self.deep = False
        self.maxdepth = 9
        self.budget = 4000000
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.dyn = None
        self.tracked = set()      # objects whose unset fields are uninitialised
        self.relevant_memo = {}
        self.uninit_mode = True
        self.reads = None
        self.plansites = {}
        self.callhook = None
        self.nfun = 0
        self.simple_memo = {}

    # -- reporting -----------------------------------------------------------
    def problem(self, rule, ident, fn, ln, msg, st):
        k = (rule, ident)
        if k not in self.problems:
            self.problems[k] = dict(rule=rule, ident=ident, fn=fn["name"] if fn else "", file=fn["file"] if fn else "",
                                    ln=ln, msg=msg, path=trace(st))

    def here(self):
        return self.stack[-1] if self.stack else None

    # -- resources -----------------------------------------------------------
    def alloc(self, st, kind, what, ln, loops=True):
        f = self.here()
        site = tuple((g["id"], l) for g, l in self.sites()) + ((f["id"], ln),)
        fam = self.loopctx[-1] if self.loopctx and loops else None
        if fam is None:
            site = site[-1:] if kind == "plan" else site[-3:]
            n = 0
            while (site, what, n) in st.res:
                n += 1
        else:
            n = st.cnt.get((site, what), 0)
            st.cnt[(site, what)] = n + 1
        rid = (site, what, n)
        if rid not in self.resources:
            self.resources[rid] = Res(rid, kind, what, f["file"], ln, f["name"], fam, None)
        if fam is not None:
            self.resources[rid].fams.append(fam)
        if fam is None:
            bad = [k for k in st.F.b if k == ("nn", ("res", rid)) or k[0] == "fm" and mentions(k, rid)]
            if bad:
                F = st.F.copy()
                for k in bad:
                    del F.b[k]
                st.F = F
        st.res[rid] = "live"
        idx = Poly.sym(fam["sym"]) if fam else None
        return ("p", rid, P(0), idx)

    def sites(self):
        return self.callsites

    def release(self, st, v, kind, ln, what):
        f = self.here()
        t = v[0]
        if t == "n" or v == NULLV:
            return
        if t == "ui":
            self.problem("free-uninit", "%s:%s" % (f["name"], what), f, ln,
                         "%s releases %s, which was never set on this path" % (f["name"], what), st)
            return
        if t == "x" and v[1][0] == "nulloff":
            return
        if t == "x":
            if v[1][0] == "param" and v[1][2] in self.ownparams:
                self.problem("free-foreign", "%s:%s" % (f["name"], what), f, ln,
                             "%s releases %s, which the caller supplied (%s)" % (f["name"], what, v[1][1]), st)
            return
        if t != "p":
            return
        rid, off, idx = v[1], v[2], v[3]
        R = self.resources[rid]
        s = st.res.get(rid)
        if s is None:
            return
        if off is not None and not (off.isconst() and off.cval() == 0) and R.kind != "obj":
            o = st.F.sub(off)
            if o.isconst() and o.cval() != 0:
                self.problem("free-interior", "%s:%s:%s" % (f["name"], what, R.what), f, ln,
                             "%s releases %s at offset %r of the block allocated at %s:%s" % (f["name"], what, o, R.file, R.ln), st)
                return
        # element of a family: must be freed over the same index range
        if R.fam is not None:
            if idx is None or self.loopctx and self.samefam(st, R, idx):
                pass
            elif idx is not None:
                r = self.famrange(st, R, idx)
                if r == "partial":
                    self.problem("free-range", "%s:%s:%s" % (f["name"], what, R.what), f, ln,
                                 "%s releases %s over a different index range than it was allocated with (%s:%s)" % (f["name"], what, R.file, R.ln), st)
                    st.res[rid] = "freed"
                    return
                if r == "unknown":
                    st.res[rid] = "esc"
                    return
        if s == "freed":
            self.problem("double-free", "%s:%s:%s" % (f["name"], what, R.what), f, ln,
                         "%s releases %s again (allocated at %s:%s)" % (f["name"], what, R.file, R.ln), st)
            return
        if R.kind != kind and (R.kind, kind) not in COMPAT:
            self.problem("mismatch", "%s:%s:%s" % (f["name"], what, R.what), f, ln,
                         "%s releases %s with %s although it was allocated with %s at %s:%s" %
                         (f["name"], what, DEAL.get(kind, kind), ALLO.get(R.kind, R.kind), R.file, R.ln), st)
        if R.fam is None and self.loopctx and self.loopctx[-1].get("many") and rid not in self.loopctx[-1]["born"]:
            if st.F.query(self.loopctx[-1]["hi"] - self.loopctx[-1]["lo"] - 1, "<=") is not True and not self.loopctx[-1].get("brk"):
                self.problem("free-in-loop", "%s:%s:%s" % (f["name"], what, R.what), f, ln,
                             "%s releases %s once per loop iteration" % (f["name"], what), st)
        st.res[rid] = "freed"

    def samefam(self, st, R, idx):
        c = self.loopctx[-1]
        if idx == Poly.sym(c["sym"]):
            if c is R.fam or c["sym"] == R.fam["sym"] or any(c is x for x in R.fams):
                return True
            return self.rangeeq(st, c, R.fam) is True
        return False

    def famrange(self, st, R, idx):
        if not self.loopctx:
            # a single element: the family must have exactly one
            q = st.F.query(R.fam["hi"] - R.fam["lo"] - 1, "==")
            return "ok" if q else "unknown"
        c = self.loopctx[-1]
        if idx != Poly.sym(c["sym"]):
            return "unknown"
        e = self.rangeeq(st, c, R.fam)
        if e is True:
            return "ok"
        return "partial" if e is False else "unknown"

    def rangeeq(self, st, a, b):
        """are the index ranges equal: True / False (differ for some values) / None"""
        r = True
        for x in ("lo", "hi"):
            d = st.F.sub(a[x] - b[x])
            if d.isconst() and d.cval() == 0:
                continue
            q = st.F.query(d, "==")
            if q is True:
                continue
            if q is False:
                return False
            if all(isinstance(s, tuple) and s[0] in ("f", "a") for s in d.syms()):
                r = False
            else:
                return None
        return r

    # -- values -----------------------------------------------------------------
    def fresh(self, name, t):
        self.nfresh += 1
        return self.opaque(("u", name, self.nfresh), t)

    def opaque(self, key, t):
        """unknown but stable value of type t"""
        t = (t or "").strip()
        if isref(t):
            t = t.rstrip("& ")
        if isbool(t):
            return ("b", ("atom", key))
        if isint(t):
            if signed(t):
                return ("i", Poly.sym(("s", key)))
            if isinstance(key, tuple) and key[0] in ("f", "a"):
                return ("i", Poly.sym(key))
            return ("i", Poly.sym(("q", key)))
        if isptr(t):
            return ("x", key)
        return ("u", key)

    def truth(self, v, st):
        k = v[0]
        if k in ("b", "bi"):
            return v[1]
        if k == "i":
            return ("cmp", v[1], "!=")
        if k == "n":
            return False
        if k == "p":
            return ("nn", ("res", v[1]))
        if k == "x":
            if v[1][0] == "nulloff":
                return ("cmp", v[1][1], "!=")
            return ("nn", v[1])
        if k in ("o", "f"):
            return True
        if k == "u":
            return ("atom", v[1])
        return None

    def branch(self, c, st, note=None):
        """[(state, bool)] for formula c"""
        if c is True or c is False:
            return [(st, c)]
        if c is None:
            return [(st, True), (st.copy(), False)]
        k = c[0]
        if k == "not":
            return [(s, not b) for s, b in self.branch(c[1], st, note)]
        if k in ("and", "or"):
            key = ("fm", c)
            v = st.F.b.get(key)
            out = []
            for s, b in self.branch(c[1], st, note):
                if (k == "and") == b:
                    out += self.branch(c[2], s, note)
                else:
                    out.append((s, b))
            r = []
            for s, b in self.dedup(out):
                if v is not None and b != v:
                    continue
                F = s.F.copy()
                F.b[key] = b
                s = s.copy()
                s.F = F
                r.append((s, b))
            return r
        if k == "cmp":
            out = []
            for b, op in ((True, c[2]), (False, NEGOP[c[2]])):
                F = st.F.assume(c[1], op)
                if F is not None:
                    out.append((st.withF(F, note and (note[0], note[1], b)), b))
            return out
        if k in ("atom", "nn"):
            key = c
            if k == "nn" and c[1][0] == "res":
                rid = c[1][1]
                R = self.resources[rid]
                if R.kind != "plan" and R.kind != "malloc" and not self.maynull.get(rid):
                    return [(st, True)]
                if st.res.get(rid) in ("freed",):
                    return [(st, True)]
            v = st.F.b.get(key)
            if v is not None:
                return [(st, v)]
            out = []
            for b in (True, False):
                F = st.F.copy()
                F.b[key] = b
                s = st.withF(F, note and (note[0], note[1], b))
                if not b and k == "nn":
                    if c[1][0] == "res":
                        s.res.pop(c[1][1], None)
                        self.nullify(s, c[1][1])
                out.append((s, b))
            return out
        return [(st, True), (st.copy(), False)]

    def nullify(self, s, rid):
        for d in (s.env, s.mem):
            for k, v in list(d.items()):
                if isinstance(v, tuple) and v[0] == "p" and v[1] == rid:
                    d[k] = NULLV

    def dedup(self, out):
        seen, r = set(), []
        for s, b in out:
            k = (id(s), b)
            if k not in seen:
                seen.add(k)
                r.append((s, b))
        return r

    # -- expression evaluation: returns list of (value, state) ---------------------
    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Limit("step budget")
        if e is None:
            return [(("u", ("none",)), st)]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            r = [st]
            for a in e.get("args", []) or []:
                if isinstance(a, dict) and "k" in a:
                    r = [s2 for s in r for _, s2 in self.ev(a, s)]
            return [(self.fresh(e["k"], e.get("t")), s) for s in r]
        return m(e, st)

    def ev1(self, e, st):
        """evaluation that must not fork (forks are merged to the first)"""
        return self.ev(e, st)

    def e_int(self, e, st):
        return [(("i", P(int(e["v"]))), st)]

    def e_char(self, e, st):
        return [(("i", P(int(e["v"]))), st)]

    def e_bool(self, e, st):
        return [(("b", bool(e["v"])), st)]

    def e_null(self, e, st):
        return [(NULLV, st)]

    def e_zeroinit(self, e, st):
        t = e.get("t", "")
        if isptr(t):
            return [(NULLV, st)]
        if isbool(t):
            return [(("b", False), st)]
        if isint(t):
            return [(("i", P(0)), st)]
        return [(("u", ("zero",)), st)]

    def e_str(self, e, st):
        return [(("o", ("str", e.get("v"))), st)]

    def e_float(self, e, st):
        return [(("u", ("float", e.get("v"))), st)]

    def e_sizeof(self, e, st):
        if "v" in e:
            return [(("i", P(int(e["v"]))), st)]
        return [(self.opaque(("a", "sizeof " + str(e.get("t"))), "unsigned long"), st)]

    def e_fnptr(self, e, st):
        return [(("f", e["fn"]), st)]

    def e_this(self, e, st):
        return [(("o", self.thisobj), st)]

    def e_defarg(self, e, st):
        return self.ev(e["e"], st)

    def e_rv(self, e, st):
        out = []
        for l, s in self.lv(e["e"], st):
            out.append((self.load(l, s, e["e"].get("t", ""), e.get("ln")), s))
        return out

    def e_ref(self, e, st):
        if e.get("vk") in ("func",):
            return [(("f", e["id"]), st)]
        if e.get("vk") == "enum":
            v = e.get("v")
            return [(("i", P(int(v))) if v is not None else self.opaque(("a", e["n"]), "unsigned long"), st)]
        return [(self.addr(l), s) for l, s in self.lv(e, st)]

    def e_mem(self, e, st):
        return [(self.addr(l), s) for l, s in self.lv(e, st)]

    def e_idx(self, e, st):
        return [(self.addr(l), s) for l, s in self.lv(e, st)]

    def addr(self, l):
        if l[0] == "m":
            return ("o", ("sub", l[1], l[2]))
        if l[0] == "v":
            return ("o", ("loc", l[1]))
        if l[0] == "o":
            return ("o", l[1])
        if l[0] == "e":
            return self.padd(l[1], l[2])
        return ("u", ("addr", str(l)))

    def e_icast(self, e, st):
        out = []
        for v, s in self.ev(e["e"], st):
            out.append((self.conv(v, e.get("t", ""), e.get("ck"), s), s))
        return out

    e_cast = None

    def conv(self, v, t, ck, s):
        if v[0] == "ui":
            return v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            return ("b", self.truth(v, s))
        if v[0] == "b" and isint(t):
            if v[1] is True or v[1] is False:
                return ("i", P(int(v[1])))
            return ("bi", v[1])
        if v[0] == "bi" and isbool(t):
            return ("b", v[1])
        if ck == "FloatingToIntegral":
            return self.opaque(("conv", v), t) if hashable(v) else self.fresh("conv", t)
        if ck in ("IntegralToFloating",):
            return ("u", ("fl", v)) if hashable(v) else self.fresh("fl", t)
        return v

    def e_cond(self, e, st):
        out = []
        for c, s in self.cond(e["c"], st):
            for s2, b in self.branch(c, s, (e.get("ln"), e["c"])):
                out += self.ev(e["l"] if b else e["r"], s2)
        return self.mergevals(out)

    def mergevals(self, out):
        if len(out) <= 1:
            return out
        groups = []
        for v, s in out:
            for g in groups:
                if g[0] == v and samestate(g[1], s):
                    g[1] = joinF(g[1], s)
                    break
            else:
                groups.append([v, s])
        if len(groups) > 4:
            by = {}
            for v, s in groups:
                self.collect(s, v)
                by.setdefault(v, []).append(s)
            return [(v, s) for v, ss in by.items() for s in self.merge(ss)]
        return [(v, s) for v, s in groups]

    def cond(self, e, st):
        """[(formula, state)]"""
        e0 = e
        while e.get("k") in ("defarg",):
            e = e["e"]
        k = e.get("k")
        if k == "un" and e["op"] == "!":
            return [(neg(c), s) for c, s in self.cond(e["e"], st)]
        if k == "icast" and e.get("ck") in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "NoOp", "IntegralCast"):
            return [(self.truth(v, s), s) for v, s in self.ev(e["e"], st)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for c, s in self.cond(e["l"], st):
                if c is True or c is False:
                    if (e["op"] == "&&") == c:
                        out += self.cond(e["r"], s)
                    else:
                        out.append((c, s))
                    continue
                if sideeffects(e["r"]):
                    for s2, b in self.branch(c, s, (e.get("ln"), e["l"])):
                        if (e["op"] == "&&") == b:
                            out += self.cond(e["r"], s2)
                        else:
                            out.append((b, s2))
                    continue
                # evaluate the right side under the left one without losing facts
                for s2, b in self.branch(c, s, None):
                    if (e["op"] == "&&") == b:
                        rs = self.cond(e["r"], s2)
                        break
                else:
                    rs = None
                if rs is None:
                    out.append((e["op"] == "||", s))
                elif len(rs) == 1:
                    out.append((("and" if e["op"] == "&&" else "or", c, rs[0][0]), s))
                else:
                    for s2, b in self.branch(c, s, (e.get("ln"), e["l"])):
                        if (e["op"] == "&&") == b:
                            out += self.cond(e["r"], s2)
                        else:
                            out.append((b, s2))
            return out
        return [(self.truth(v, s), s) for v, s in self.ev(e0, st)]

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            return [(("b", c), s) for c, s in self.cond(e, st)]
        if op == ",":
            return [x for _, s in self.ev(e["l"], st) for x in self.ev(e["r"], s)]
        out = []
        for a, s in self.ev(e["l"], st):
            for b, s2 in self.ev(e["r"], s):
                out.append((self.binop(op, a, b, e, s2), s2))
        return out

    def toint(self, v):
        if v[0] == "i":
            return v[1]
        if v[0] == "bi" or v[0] == "b":
            if v[1] is True or v[1] is False:
                return P(int(v[1]))
        return None

    def binop(self, op, a, b, e, st):
        t = e.get("t", "")
        if a[0] == "ui" or b[0] == "ui":
            return UI if op not in ("==", "!=", "<", "<=", ">", ">=") else ("b", None)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            x, y = self.toint(a), self.toint(b)
            if x is not None and y is not None:
                d = st.F.sub(x - y)
                if d.isconst():
                    return ("b", cmpc(d.cval(), op))
                return ("b", ("cmp", d, op))
            if op in ("==", "!="):
                eq = None
                for u, v in ((a, b), (b, a)):
                    if u[0] == "n":
                        tv = self.truth(v, st)
                        eq = neg(tv)
                        break
                else:
                    if a == b and a[0] in ("p", "x", "o", "f"):
                        eq = True
                    elif a[0] == "p" and b[0] == "p" and a[1] != b[1]:
                        eq = False
                    elif a[0] == "p" and b[0] in ("x", "o") and a[0] != b[0]:
                        eq = False if b[0] == "o" or st.res.get(a[1]) == "live" and b[0] == "x" and b[1][0] == "param" else ("atom", ("eq", sk(a), sk(b)))
                    elif b[0] == "p" and a[0] in ("x", "o"):
                        eq = False if a[0] == "o" or a[1][0] == "param" else ("atom", ("eq", sk(a), sk(b)))
                    elif a[0] in ("f",) and b[0] in ("f",):
                        eq = a == b
                    else:
                        k = tuple(sorted((sk(a), sk(b)), key=repr))
                        eq = ("atom", ("eq",) + k)
                return ("b", eq if op == "==" else neg(eq))
            return ("b", ("atom", ("rel", op, sk(a), sk(b))))
        x, y = self.toint(a), self.toint(b)
        if x is not None and y is not None and (isint(t) or isbool(t)):
            if op == "+":
                return ("i", x + y)
            if op == "-":
                return ("i", x - y)
            if op == "*":
                return ("i", x * y)
            if op in ("/", "%"):
                x, y = st.F.sub(x), st.F.sub(y)
                if x.isconst() and y.isconst() and y.cval():
                    q = abs(x.cval()) // abs(y.cval()) * (1 if (x.cval() < 0) == (y.cval() < 0) else -1)
                    return ("i", P(q) if op == "/" else P(x.cval() - q * y.cval()))
                d = x.divpoly(y) if y.t and not y.isconst() else x.divexact(y) if y.isconst() and y.cval() else None
                if d is not None:
                    return ("i", d if op == "/" else P(0))
                # ceil quotient idiom (x+b-1)/b
                z = x - y + 1
                if op == "/" and y.t and not y.isconst() and not any(s in y.syms() for s in z.syms()):
                    return ("i", Poly.sym(("cdiv", z, y)))
                q = Poly.sym(("div", x, y))
                return ("i", q if op == "/" else x - y * q)
            if op == "&" and (x.isconst() and x.cval() == 0 or y.isconst() and y.cval() == 0):
                return ("i", P(0))
            if x.isconst() and y.isconst():
                u, v = x.cval(), y.cval()
                if op == "<<" and 0 <= v < 64:
                    return ("i", P(u << v))
                if op == ">>" and 0 <= v < 64:
                    return ("i", P(u >> v))
                if op == "&":
                    return ("i", P(u & v))
                if op == "|":
                    return ("i", P(u | v))
                if op == "^":
                    return ("i", P(u ^ v))
            return self.opaque(("op", op, x, y), t)
        # pointer arithmetic
        if a[0] == "n" and y is not None and op in ("+", "-") and isptr(t):
            y = st.F.sub(y)
            if y.isconst() and y.cval() == 0:
                return NULLV
            return ("x", ("nulloff", y if op == "+" else -y))
        if a[0] in ("p", "x", "o", "pp") and y is not None and op in ("+", "-"):
            return self.padd(a, y if op == "+" else -y)
        if b[0] in ("p", "x", "o") and x is not None and op == "+":
            return self.padd(b, x)
        if a[0] in ("b", "bi") and b[0] in ("b", "bi") and op == "^":
            return ("b", ("atom", ("xor", sk(a), sk(b))))
        if hashable(a) and hashable(b):
            return self.opaque(("op", op, sk(a), sk(b)), t)
        return self.fresh("op", t)

    def padd(self, a, y):
        if y.isconst() and y.cval() == 0:
            return a
        if a[0] == "p":
            return ("p", a[1], a[2] + y if a[2] is not None else None, a[3])
        if a[0] == "x":
            if a[1][0] == "at":
                return ("x", ("at", a[1][1], a[1][2] + y))
            return ("x", ("at", a[1], y))
        return ("u", ("padd", sk(a), y))

    def e_un(self, e, st):
        op = e["op"]
        if op == "!":
            return [(("b", c), s) for c, s in self.cond(e, st)]
        if op == "&":
            return [(self.addr(l), s) for l, s in self.lv(e["e"], st)]
        if op == "*":
            return [(self.addr(l), s) for l, s in self.lv(e, st)]
        if op in ("++", "--"):
            out = []
            for l, s in self.lv(e["e"], st):
                v = self.load(l, s, e.get("t", ""), e.get("ln"))
                d = P(1 if op == "++" else -1)
                if v[0] == "i":
                    n = ("i", v[1] + d)
                elif v[0] in ("p", "x"):
                    n = self.padd(v, d)
                else:
                    n = self.fresh("inc", e.get("t"))
                s = s.copy()
                self.store(l, n, s, e.get("ln"))
                out.append((v if e.get("post") else n, s))
            return out
        out = []
        for v, s in self.ev(e["e"], st):
            x = self.toint(v)
            if op == "-" and x is not None:
                out.append((("i", -x), s))
            elif op == "+":
                out.append((v, s))
            elif op == "~" and x is not None and s.F.sub(x).isconst():
                out.append((("i", P(~s.F.sub(x).cval())), s))
            else:
                out.append((self.opaque(("un", op, sk(v)), e.get("t", "")) if hashable(v) else self.fresh("un", e.get("t", "")), s))
        return out

    def e_asg(self, e, st):
        op = e["op"]
        out = []
        for v, s in self.ev(e["r"], st):
            for l, s2 in self.lv(e["l"], s):
                if op != "=":
                    o = self.load(l, s2, e["l"].get("t", ""), e.get("ln"))
                    v2 = self.binop(op[:-1], o, v, {"t": e["l"].get("t", "")}, s2)
                else:
                    v2 = v
                s2 = s2.copy()
                self.store(l, v2, s2, e.get("ln"))
                out.append((v2, s2))
        return out

    def e_new(self, e, st):
        if e.get("placement"):
            pl = e["placement"]
            r = [(None, st)]
            for a in pl:
                r = [(v, s2) for _, s in r for v, s2 in self.ev(a, s)]
            return [(v if v else self.fresh("pnew", e.get("t", "") + " *"), s) for v, s in r]
        sts = [st]
        if e.get("array"):
            sts = [s2 for s in sts for _, s2 in self.ev(e["size"], s)]
        argv = [(None, s) for s in sts]
        i = e.get("init")
        ctor = strip(i) if isinstance(i, dict) else None
        if ctor is not None and ctor.get("k") == "ctor" and not e.get("array"):
            argv = [(a, s2) for s in sts for a, s2 in self.evargs(ctor.get("args", []), s, ctor.get("fn"))]
        elif i is not None:
            argv = [((), s2) for s in sts for _, s2 in self.ev(i, s)]
        out = []
        for a, s in argv:
            s = s.copy()
            kind = "arr" if e.get("array") else "obj"
            v = self.alloc(s, kind, e.get("t", "?"), e.get("ln"))
            if ctor is not None and ctor.get("k") == "ctor" and a is not None:
                s.mem[(("res", v[1]), "<args>")] = ("args", ctor.get("fn"), tuple(a))
                self.escargs(ctor, a, s)
                if self.callhook:
                    self.callhook("new", ctor, a, s, e)
            out.append((v, s))
        return out

    def e_delete(self, e, st):
        out = []
        for v, s in self.ev(e["e"], st):
            s = s.copy()
            self.release(s, v, "arr" if e.get("array") else "obj", e.get("ln"), txt(e["e"]))
            if v[0] == "p" and not e.get("array"):
                R = self.resources[v[1]]
                self.vdtor(e, R, s)
            out.append((("u", ("void",)), s))
        return out

    def vdtor(self, e, R, st):
        """deleting through a base needs a virtual destructor"""
        base = e.get("t", "")
        if not base or base == R.what or base not in self.p.classes or R.what not in self.p.classes:
            return
        if base not in self.p.bases(R.what):
            return
        for c in self.p.bases(base):
            for f in self.p.byname.get(c + "::<dtor>", []):
                if f.get("virt"):
                    return
        f = self.here()
        self.problem("vdtor", "%s:%s:%s" % (f["name"], base, R.what), f, e.get("ln"),
                     "%s deletes a %s through %s, which has no virtual destructor" % (f["name"], R.what, base), st)

    def e_ctor(self, e, st):
        """construction of a local/temporary object: not followed"""
        out = []
        for a, s in self.evargs(e.get("args", []), st, e.get("fn")):
            s = s.copy()
            self.escargs(e, a, s)
            if e.get("cls", "").endswith("std::"):
                pass
            out.append((("obj", e.get("cls"), e.get("fn"), tuple(x if hashable(x) else None for x in a)), s))
        return out

    def e_initlist(self, e, st):
        r = [st]
        for a in e.get("args", []):
            r = [s2 for s in r for _, s2 in self.ev(a, s)]
        return [(self.fresh("init", e.get("t")), s) for s in r]

    def e_throw(self, e, st):
        raise Limit("throw")

    def e_lambda(self, e, st):
        return [(self.fresh("lambda", ""), st)]

    def e_memfn(self, e, st):
        return [(("f", e.get("fn")), st)]

    def e_ptrmem(self, e, st):
        out = []
        for b, s in self.ev(e["b"], st):
            for p, s2 in self.ev(e["p"], s):
                out.append((("pm", b, p), s2))
        return out

    # -- lvalues -----------------------------------------------------------------
    def lv(self, e, st):
        k = e.get("k")
        if k in ("icast", "cast", "defarg") and k != "rv":
            if e.get("ck") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "LValueBitCast", None, "BaseToDerived", "ReinterpretMemberPointer"):
                return self.lv(e["e"], st)
            return [(("t", v), s) for v, s in self.ev(e, st)]
        if k == "ref":
            vk = e.get("vk")
            b = st.env.get(e["id"])
            if isinstance(b, tuple) and b and b[0] == "&":
                return [(b[1], st)]
            if vk in ("global", "slocal"):
                return [(("g", e["id"], e.get("t", "")), st)]
            return [(("v", e["id"], e.get("t", ""), e.get("n")), st)]
        if k == "mem":
            out = []
            if e.get("arrow"):
                for b, s in self.ev(e["b"], st):
                    out.append((("m", self.objof(b, s, e), e["f"], e.get("t", ""), e.get("c")), s))
            else:
                for l, s in self.lv(e["b"], st):
                    out.append((("m", self.lobj(l, s), e["f"], e.get("t", ""), e.get("c")), s))
            return out
        if k == "this":
            return [(("o", self.thisobj), st)]
        if k == "idx":
            out = []
            for b, s in self.ev(e["b"], st):
                for i, s2 in self.ev(e["i"], s):
                    self.deref(b, s2, e)
                    x = self.toint(i)
                    out.append((("e", b, x, e.get("t", "")), s2))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for b, s in self.ev(e["e"], st):
                self.deref(b, s, e)
                if b[0] == "o":
                    if b[1][0] == "loc":
                        out.append((("v", b[1][1], e.get("t", ""), "?"), s))
                    elif b[1][0] == "sub":
                        out.append((("m", b[1][1], b[1][2], e.get("t", ""), None), s))
                    else:
                        out.append((("o", b[1]), s))
                else:
                    out.append((("e", b, P(0), e.get("t", "")), s))
            return out
        if k == "un" and e["op"] in ("++", "--"):
            return [(l, s) for v, s in self.ev(e, st) for l, s in self.lv(e["e"], s)]
        if k == "asg":
            return [(l, s) for v, s in self.ev(e, st) for l, s in self.lv(e["l"], s)]
        if k == "rv":
            return [(("t", v), s) for v, s in self.ev(e, st)]
        if k == "cond":
            out = []
            for c, s in self.cond(e["c"], st):
                for s2, b in self.branch(c, s, (e.get("ln"), e["c"])):
                    out += self.lv(e["l"] if b else e["r"], s2)
            return out
        return [(("t", v), s) for v, s in self.ev(e, st)]

    def deref(self, v, st, e):
        f = self.here()
        if v[0] == "ui" and self.uninit_mode:
            w = txt(e.get("b") or e.get("e") or e.get("obj") or e)
            self.problem("use-uninit", "%s:%s" % (f["name"], w), f, e.get("ln"),
                         "%s uses %s, which is not set up on this path" % (f["name"], w), st)
        elif v[0] == "p" and st.res.get(v[1]) == "freed":
            R = self.resources[v[1]]
            w = txt(e.get("b") or e.get("e") or e.get("obj") or e)
            self.problem("use-freed", "%s:%s:%s" % (f["name"], w, R.what), f, e.get("ln"),
                         "%s uses %s after it was released (allocated at %s:%s)" % (f["name"], w, R.file, R.ln), st)
        elif v == NULLV and self.uninit_mode:
            w = txt(e.get("b") or e.get("e") or e.get("obj") or e)
            self.problem("use-null", "%s:%s" % (f["name"], w), f, e.get("ln"),
                         "%s dereferences %s, which is NULL on this path" % (f["name"], w), st)

    def objof(self, b, st, e):
        self.deref(b, st, e)
        if b[0] == "o":
            return b[1]
        if b[0] == "p":
            return ("res", b[1])
        if b[0] == "x":
            return ("ext", b[1])
        return ("ext", ("val", sk(b)))

    def lobj(self, l, st):
        if l[0] == "o":
            return l[1]
        if l[0] == "v":
            return ("loc", l[1])
        if l[0] == "m":
            return ("sub", l[1], l[2])
        if l[0] == "t":
            v = l[1]
            if v[0] == "o":
                return v[1]
            return ("ext", ("val", sk(v)))
        if l[0] == "g":
            return ("glob", l[1])
        if l[0] == "e":
            return ("elem", sk(l[1]), l[2])
        return ("ext", ("?",))

    def load(self, l, st, t, ln=None):
        k = l[0]
        if k == "t":
            return l[1]
        if k == "o":
            return ("o", l[1])
        if k == "v":
            v = st.env.get(l[1])
            if v is None:
                return self.opaque(("a", l[3], l[1]), l[2])
            if v[0] == "&":
                return self.load(v[1], st, t, ln)
            if v == UI:
                self.uread(("v", l[3]), ln, st)
            return v
        if k == "m":
            return self.loadm(l[1], l[2], l[3] or t, st, ln)
        if k == "g":
            v = st.mem.get(("g", l[1]))
            if v is not None:
                return v
            return self.opaque(("f", ("g",), l[1], 0), l[2])
        if k == "e":
            return self.loade(l, st, t)
        return self.fresh("load", t)

    def uread(self, what, ln, st):
        if not self.uninit_mode:
            return
        f = self.here()
        self.problem("read-uninit", "%s:%s" % (f["name"], what[1]), f, ln,
                     "%s reads %s before it is set on this path" % (f["name"], what[1]), st)

    def loadm(self, obj, fld, t, st, ln):
        v = st.mem.get((obj, fld))
        if v is None:
            if obj in self.tracked and (obj, "<open>") not in st.mem:
                v = UI
            elif obj[0] == "sub" and obj[1] in self.tracked and (obj[1], obj[2]) in st.mem:
                b = st.mem[(obj[1], obj[2])]
                if b[0] == "obj":
                    return self.opaque(("f", obj, fld, 0), t)
                return self.opaque(("f", obj, fld, 0), t)
            else:
                n = st.mem.get((obj, "<ver>"), 0)
                return self.opaque(("f", obj, fld, n), t)
        if v == UI:
            if not isptr(t) and not ismfp(t) and (isint(t) or isbool(t) or t in ("double",)):
                self.uread(("m", fld), ln, st)
                return self.opaque(("f", obj, fld, "ui"), t)
            return UI
        return v

    def loade(self, l, st, t):
        b, i = l[1], l[2]
        if b[0] == "p":
            off = (b[2] + i) if (b[2] is not None and i is not None) else None
            key = ("elems", b[1])
            recs = st.mem.get(key, ())
            if off is not None:
                for (lo, hi, sym, val) in reversed(recs):
                    if sym is None:
                        d = st.F.sub(off - lo)
                        if d.isconst() and d.cval() == 0:
                            return val
                        if d.isconst():
                            continue
                        break
                    inside = self.inrange(st, off, lo, hi)
                    if inside is True:
                        return substval(val, sym, off)
                    if inside is None:
                        break
            return self.opaque(("el", sk(b), i, st.mem.get(("ev", b[1]), 0)), t) if isptr(t) or isint(t) else self.fresh("el", t)
        if b[0] == "x":
            base = b[1]
            off = i
            if base[0] == "at":
                off = base[2] + i if i is not None else None
                base = base[1]
            n = st.mem.get((("ext", base), "<ver>"), 0)
            v = st.mem.get((("ext", base), ("el", off)))
            if v is not None:
                return v
            return self.opaque(("el", base, off, n), t)
        if b[0] == "o" and b[1][0] == "loc":
            v = st.mem.get((b[1], ("el", i)))
            if v is not None:
                return v
            return self.opaque(("el", b[1], i, st.mem.get((b[1], "<ver>"), 0)), t)
        return self.fresh("el", t)

    def inrange(self, st, off, lo, hi):
        for c in self.loopctx[::-1]:
            if off == Poly.sym(c["sym"]):
                a = st.F.query(c["lo"] - lo, ">=")
                b = st.F.query(hi - c["hi"], ">=")
                if a and b:
                    return True
                return None
        a = st.F.query(off - lo, ">=")
        b = st.F.query(hi - off - 1, ">=")
        if a and b:
            return True
        if a is False or b is False:
            return False
        # assume a nonempty family contains its first element
        if off == lo:
            return True
        return None

    def store(self, l, v, st, ln=None):
        k = l[0]
        if v[0] == "bi":
            v = ("b", v[1])
        if k == "v":
            o = st.env.get(l[1])
            if isinstance(o, tuple) and o and o[0] == "&":
                return self.store(o[1], v, st, ln)
            st.env[l[1]] = v
        elif k == "m":
            st.mem[(l[1], l[2])] = v
            if l[1] != self.thisobj or not self.owning:
                if l[1][0] not in ("loc", "res", "this") and not (l[1][0] == "sub" and self.rootobj(l[1])[0] in ("loc", "this")):
                    self.escape(v, st)
        elif k == "g":
            st.mem[("g", l[1])] = v
            self.escape(v, st)
        elif k == "e":
            b, i = l[1], l[2]
            if b[0] == "p":
                off = (b[2] + i) if (b[2] is not None and i is not None) else None
                key = ("elems", b[1])
                if off is None:
                    self.escape(v, st)
                    st.mem[key] = ()
                    st.mem[("ev", b[1])] = st.mem.get(("ev", b[1]), 0) + 1
                    return
                recs = st.mem.get(key, ())
                if v[0] in ("p", "x", "n", "o", "f", "i", "b") and hashable(v):
                    c = next((c for c in self.loopctx[::-1] if off == Poly.sym(c["sym"])), None)
                    if c is not None:
                        recs = tuple(r for r in recs if not (r[0] == c["lo"] and r[1] == c["hi"])) + ((c["lo"], c["hi"], c["sym"], v),)
                    else:
                        recs = tuple(r for r in recs if not (r[2] is None and r[0] == off)) + ((off, off + 1, None, v),)
                    st.mem[key] = recs[-8:]
            elif b[0] == "x":
                base, off = b[1], i
                if base[0] == "at":
                    off = base[2] + i if i is not None else None
                    base = base[1]
                self.escape(v, st)
                st.mem[(("ext", base), "<ver>")] = st.mem.get((("ext", base), "<ver>"), 0) + 1
                for kk in [kk for kk in st.mem if kk[0] == ("ext", base) and isinstance(kk[1], tuple)]:
                    del st.mem[kk]
                if off is not None and hashable(v) and not self.loopctx:
                    st.mem[(("ext", base), ("el", off))] = v
            elif b[0] == "o" and b[1][0] == "loc":
                if i is not None and hashable(v):
                    st.mem[(b[1], ("el", i))] = v
            else:
                self.escape(v, st)

    def rootobj(self, o):
        while o[0] == "sub":
            o = o[1]
        return o

    def escape(self, v, st):
        if v[0] == "p" and st.res.get(v[1]) == "live":
            st.res[v[1]] = "esc"
            for (lo, hi, sym, x) in st.mem.get(("elems", v[1]), ()):
                self.escape(x, st)

    # -- calls -------------------------------------------------------------------
    def evargs(self, args, st, fn=None):
        """[(values, state)]; reference parameters become ('&', lvalue)"""
        g = self.p.funcs.get(fn)
        params = g["params"] if g else []
        out = [([], st)]
        for i, a in enumerate(args):
            nxt = []
            byref = i < len(params) and isref(params[i]["t"])
            for vs, s in out:
                if byref and a.get("k") in ("ref", "mem", "idx", "un", "icast", "cast"):
                    for l, s2 in self.lv(a, s):
                        nxt.append((vs + [("&", l)], s2))
                else:
                    for v, s2 in self.ev(a, s):
                        nxt.append((vs + [v], s2))
            out = nxt
        return out

    def e_call(self, e, st):
        f0 = self.here()
        name = e.get("name") or ""
        out = []
        objs = [(None, st)]
        if e.get("obj") is not None:
            if e.get("arrow"):
                objs = [(self.objof(b, s, e), s) for b, s in self.ev(e["obj"], st)]
            else:
                objs = [(self.lobj(l, s), s) for l, s in self.lv(e["obj"], st)]
        for o, s in objs:
            for a, s2 in self.evargs(e.get("args", []), s, e.get("fn")):
                out += self.docall(e, o, a, s2)
        return self.cap(out)

    def cap(self, out):
        if len(out) > 4:
            out = self.mergevals(out)
        if len(out) > self.maxstates:
            raise Limit("too many abstract states")
        return out

    def e_mpcall(self, e, st):
        out = []
        for c, s in self.ev(e["callee"], st):
            for a, s2 in self.evargs(e.get("args", []), s):
                g = None
                o = None
                if c[0] == "pm":
                    if c[2][0] == "ui" and self.uninit_mode:
                        f = self.here()
                        self.problem("use-uninit", "%s:%s" % (f["name"], txt(e["callee"])), f, e.get("ln"),
                                     "%s calls through %s, which is not set up on this path" % (f["name"], txt(e["callee"])), s2)
                    if c[1][0] == "o":
                        o = c[1][1]
                    if c[2][0] == "f":
                        g = self.p.funcs.get(c[2][1])
                if g is not None and o == self.thisobj and g["isdef"] is not None:
                    e2 = {"k": "call", "fn": g["id"], "name": g["name"], "virt": True, "ln": e.get("ln"), "t": e.get("t"), "args": e.get("args", [])}
                    out += self.docall(e2, o, a, s2)
                    continue
                self.havoccall(e, None, o, a, s2 := s2.copy())
                out.append((self.fresh("mpcall", e.get("t")), s2))
        return self.cap(out)

    def target(self, e, o):
        fn = e.get("fn")
        f = self.p.funcs.get(fn)
        if f is None:
            return None
        if e.get("virt") and f.get("virt"):
            if o == self.thisobj and self.dyn:
                return self.p.override_in(fn, self.dyn)
            if o and o[0] == "res":
                R = self.resources.get(o[1])
                if R is not None and R.what in self.p.classes:
                    return self.p.override_in(fn, R.what)
            if len(self.p.overriders(fn)) > 1:
                return None
        return f

    def docall(self, e, o, a, st):
        name = e.get("name") or ""
        ln = e.get("ln")
        if self.callhook:
            self.callhook("call", e, a, st, o)
        base = name.split("::")[-1]
        if name in EXITS:
            return []
        if "fn" not in e and e.get("callee") is not None:
            # through a function pointer
            out = []
            for c, s in self.ev(e["callee"], st):
                g = None
                if c[0] == "f":
                    g = self.p.funcs.get(c[1])
                elif c[0] in ("x", "u"):
                    g = self.gfun(e["callee"])
                if g is not None and g["isdef"] and self.wants(g, o):
                    out += self.inline(e, g, o, a, s)
                else:
                    s = s.copy()
                    if c[0] == "ui" and self.uninit_mode:
                        f = self.here()
                        self.problem("use-uninit", "%s:%s" % (f["name"], txt(e["callee"])), f, ln,
                                     "%s calls through %s, which is not set up on this path" % (f["name"], txt(e["callee"])), s)
                    self.havoccall(e, None, o, a, s)
                    out.append((self.result(e, None, o, a, s), s))
            return out
        # primitives
        if base == "newAlign" and name.startswith("Array::") and a:
            st = st.copy()
            v = self.alloc(st, "align", "aligned buffer", ln)
            if a[0][0] == "&":
                self.store(a[0][1], v, st, ln)
            return [(("u", ("void",)), st)]
        if base == "deleteAlign" and a:
            st = st.copy()
            v = self.val(a[0], st)
            self.release(st, v, "align", ln, txt(e["args"][0]))
            return [(("u", ("void",)), st)]
        if name in FREE and a:
            st = st.copy()
            self.release(st, self.val(a[0], st), FREE[name], ln, txt(e["args"][0]))
            return [(("u", ("void",)), st)]
        if name in ALLOCEXT:
            st = st.copy()
            return [(self.alloc(st, ALLOCEXT[name], name, ln), st)]
        if name.startswith(("fftw_plan_", "fftw_mpi_plan_")) and "fftw_plan_s" in (e.get("t") or ""):
            st = st.copy()
            v = self.alloc(st, "plan", "FFTW plan", ln)
            return [(v, st)]
        if name in ("posix_memalign",) and a:
            st = st.copy()
            v = self.alloc(st, "malloc", name, ln)
            return [(("i", P(0)), st)]
        if name in ("std::max", "std::min") and len(a) == 2:
            x, y = (self.toint(self.byaddr(v, st, e.get("t", ""))) for v in a)
            if x is not None and y is not None:
                q = st.F.query(x - y, ">=")
                if q is not None:
                    return [(("i", x if q == (base == "max") else y), st)]
                k = tuple(sorted((x, y), key=repr))
                return [(("i", Poly.sym(("q", (base,) + k))), st)]
        g = self.target(e, o)
        if g is None:
            st = st.copy()
            self.havoccall(e, None, o, a, st)
            return [(self.result(e, None, o, a, st), st)]
        if not g["isdef"] or not self.wants(g, o):
            st = st.copy()
            self.havoccall(e, g, o, a, st)
            return [(self.result(e, g, o, a, st), st)]
        return self.inline(e, g, o, a, st)

    def gfun(self, callee):
        c = strip(callee)
        while c.get("k") == "un" and c["op"] == "*":
            c = strip(c["e"])
        if c.get("k") == "ref" and c.get("vk") in ("global",):
            g = self.p.globals.get(c["id"])
            if g is not None and g.get("init"):
                i = strip(g["init"])
                while i.get("k") == "un" and i["op"] in ("&", "*"):
                    i = strip(i["e"])
                return self.p.funcs.get(i.get("fn") or i.get("id"))
        return None

    def val(self, a, st):
        if a[0] == "&":
            return self.load(a[1], st, a[1][3] if a[1][0] in ("m", "e") else (a[1][2] if a[1][0] in ("v", "g") else ""), None)
        return a

    def byaddr(self, v, st, t):
        """value of an argument passed by reference to an unexported function"""
        t = t.replace("const ", "").rstrip("& ")
        if v[0] == "o" and v[1][0] == "sub":
            return self.loadm(v[1][1], v[1][2], t, st, None)
        if v[0] == "o" and v[1][0] == "loc":
            return self.load(("v", v[1][1], t, "?"), st, t)
        return self.val(v, st)

    def wants(self, g, o):
        if self.depth >= self.maxdepth or any(x is g for x in self.stack):
            return False
        if o is not None and o[0] in ("ext", "res", "sub", "loc", "elem", "glob") and o != self.thisobj:
            return self.simple(g)
        if o == self.thisobj and not g.get("static") and g.get("cls"):
            return not self.inert(g)
        return self.simple(g) or self.relevant(g["id"])

    def simple(self, g):
        """a side-effect free function made of a single return"""
        r = self.simple_memo.get(g["id"])
        if r is None:
            b = g.get("body") or {}
            s = [x for x in b.get("s", []) if x.get("k") != "nop"]
            r = g["kind"] not in ("ctor", "dtor") and 0 < len(s) <= 3 and s[-1].get("k") == "return" and \
                all(x.get("k") in ("if", "decl", "return") for x in s) and \
                not any(n.get("k") in ("new", "delete", "for", "while", "do", "omp") or n.get("k") == "asg" for n in walk(b))
            self.simple_memo[g["id"]] = r
        return r

    def inert(self, g):
        """a member function (with everything it may dispatch to) that neither
        acquires or releases anything nor changes a member"""
        if self.deep:
            return False
        r = self.inert_memo.get(g["id"])
        if r is None:
            self.inert_memo[g["id"]] = False
            r = False
            ef = self.E.eff.get(g["id"])
            if ef is not None and g["kind"] not in ("ctor", "dtor") and not isptr(g["ret"]) and not self.simple(g) \
                    and not any(w[0] == ("this",) and len(w[1]) <= 1 for w in ef.writes) \
                    and not any(isref(q["t"]) and not q["t"].startswith("const") for q in g["params"]) \
                    and self.quiet(g["id"], set()):
                r = True
            self.inert_memo[g["id"]] = r
        return r

    def quiet(self, fid, seen):
        if fid in seen:
            return True
        seen.add(fid)
        f = self.p.funcs.get(fid)
        if f is None or not f["isdef"]:
            return True
        for n in walk(f.get("body")):
            k = n.get("k")
            if k == "delete" or k == "new" and not n.get("placement"):
                return False
            if k == "call":
                nm = n.get("name") or ""
                b = nm.split("::")[-1]
                if b in ("deleteAlign", "newAlign") or nm in FREE or nm in ALLOCEXT or nm.startswith(("fftw_plan_", "fftw_mpi_plan_")):
                    return False
                t = n.get("fn")
                if t in self.p.funcs:
                    ts = [self.p.funcs[t]]
                    if n.get("virt"):
                        ts = self.p.overriders(t)
                    for x in ts:
                        if not self.quiet(x["id"], seen):
                            return False
        return True

    def relevant(self, fid, seen=None):
        """does fid allocate/release resources or store through reference parameters (transitively)"""
        r = self.relevant_memo.get(fid)
        if r is not None:
            return r
        self.relevant_memo[fid] = False
        f = self.p.funcs.get(fid)
        if f is None or not f["isdef"]:
            return False
        r = any(isref(p["t"]) and not p["t"].startswith("const") and (isint(p["t"]) or isptr(p["t"].rstrip("& "))) for p in f["params"]) and \
            sum(1 for _ in walk(f["body"])) < 400
        if not r:
            for n in walk(f.get("body")):
                k = n.get("k")
                if k == "delete" or k == "new" and not n.get("placement"):
                    r = True
                elif k == "call":
                    nm = n.get("name") or ""
                    b = nm.split("::")[-1]
                    if b in ("deleteAlign", "newAlign") or nm in FREE or nm in ALLOCEXT or nm.startswith("fftw_plan_"):
                        r = True
                    elif n.get("fn") and not n.get("virt") and n.get("fn") in self.p.funcs and self.relevant(n["fn"]):
                        r = True
                if r:
                    break
        self.relevant_memo[fid] = r
        return r

    def result(self, e, g, o, a, st):
        t = e.get("t") or ""
        if "fftw_plan_s" in t and isptr(t):
            return self.alloc(st, "plan", "FFTW plan", e.get("ln"))
        pure = False
        if g is not None:
            ef = self.E.eff.get(g["id"])
            pure = ef is not None and not ef.writes
        if pure:
            av = tuple(sk(self.val(x, st)) for x in a)
            ver = st.mem.get((o, "<ver>"), 0) if o is not None else 0
            try:
                hash(av)
                return self.opaque(("call", g["id"], o, ver, av), t)
            except TypeError:
                pass
        return self.fresh(e.get("name") or "call", t)

    def havoccall(self, e, g, o, a, st):
        """forget what the callee may write"""
        nm = e.get("name") or ""
        if g is None and nm.startswith("std::") and nm.split("::")[-1] not in ("swap", "getline", "operator>>", "copy", "fill"):
            return
        if g is None and e.get("ext"):
            # an address handed to an external function receives a value
            for x, v in zip(e.get("args") or [], a):
                x = strip(x)
                if x.get("k") == "un" and x["op"] == "&" and v[0] == "o" and v[1][0] in ("sub", "loc"):
                    ob = v[1]
                    t = (strip(x["e"]).get("t") or "")
                    if ob[0] == "sub":
                        old = st.mem.get((ob[1], ob[2]))
                        if old is None or old[0] != "p":
                            st.mem[(ob[1], ob[2])] = self.fresh("out", t)
                    else:
                        st.env[ob[1]] = self.fresh("out", t)
        # by-reference locals
        writes = None
        if g is not None:
            ef = self.E.eff.get(g["id"])
            if ef is not None:
                writes = ef.writes
        for i, v in enumerate(a):
            if v[0] == "&":
                w = writes is None or any(r[0] == ("p", i) for r in writes)
                pt = g["params"][i]["t"] if g is not None and i < len(g["params"]) else ""
                if w and not pt.startswith("const"):
                    l = v[1]
                    if l[0] in ("v", "m"):
                        t = l[2] if l[0] == "v" else l[3]
                        old = self.load_quiet(l, st)
                        if old is not None and old[0] == "p":
                            continue
                        self.store(l, self.fresh("out", t), st)
            elif v[0] == "o":
                ob = v[1]
                w = writes is None and not (g is None and e.get("ext")) or writes is not None and any(r[0] == ("p", i) for r in writes) or writes is None
                if w:
                    self.havocobj(ob, st, None if writes is None else [s for r, s in writes if r == ("p", i)])
        if o is not None:
            if writes is None:
                if o != self.thisobj:
                    st.mem[(o, "<ver>")] = st.mem.get((o, "<ver>"), 0) + 1
            else:
                sels = [s for r, s in writes if r == ("this",)]
                if sels:
                    self.havocobj(o, st, sels)
        if g is None and e.get("fn") is None and o is None:
            pass
        if self.freesparam(g):
            for i, v in enumerate(a):
                self.escape(self.val(v, st), st)
        if g is None or not g["isdef"]:
            nm = e.get("name") or ""
            if not nm.startswith(("fftw_execute", "MPI_", "std::", "mem", "fftw_mpi_execute", "omp_", "strlen", "strcpy")):
                for v in a:
                    w = self.val(v, st)
                    if w[0] == "p" and self.resources[w[1]].kind in ("obj",):
                        pass

    def load_quiet(self, l, st):
        if l[0] == "v":
            return st.env.get(l[1])
        return st.mem.get((l[1], l[2]))

    def freesparam(self, g):
        if g is None:
            return False
        return self.relevant(g["id"]) and any(isptr(p["t"].rstrip("& ")) for p in g["params"]) and \
            any(n.get("k") == "delete" or n.get("k") == "call" and (n.get("name") or "").split("::")[-1] in ("deleteAlign", "free", "fftw_free", "fftw_destroy_plan")
                for n in walk(g.get("body")))

    def havocobj(self, ob, st, sels):
        if ob[0] == "loc":
            v = st.env.get(ob[1])
            if v is not None and v[0] in ("i", "b", "x", "n", "ui", "u", "bi"):
                st.env[ob[1]] = ("u", ("out", self.bump()))
                del st.env[ob[1]]
            st.mem[(ob, "<ver>")] = self.bump()
            for k in [k for k in st.mem if k[0] == ob and k[1] != "<ver>"]:
                del st.mem[k]
            return
        if ob[0] == "sub" and (ob[1], ob[2]) in st.mem:
            v = st.mem[(ob[1], ob[2])]
            if v[0] in ("i", "b", "x", "n", "ui"):
                st.mem[(ob[1], ob[2])] = self.fresh("out", "unsigned long" if v[0] == "i" else "bool" if v[0] == "b" else "void *")
        flds = None if sels is None else {s[0] for s in sels if s}
        if ob in self.tracked or ob == self.thisobj:
            if sels is None:
                return
            for s in sels:
                if len(s) != 1:
                    continue
                v = st.mem.get((ob, s[0]))
                if v is None or v[0] in ("p",):
                    continue
                st.mem[(ob, s[0])] = self.fresh("out", "unsigned long" if v[0] == "i" else "bool" if v[0] == "b" else "void *")
            return
        st.mem[(ob, "<ver>")] = self.bump()
        for k in [k for k in st.mem if k[0] == ob and k[1] != "<ver>" and (flds is None or k[1] in flds)]:
            if st.mem[k][0] != "p":
                del st.mem[k]

    def bump(self):
        self.nfresh += 1
        return self.nfresh

    def escargs(self, e, a, st):
        """resources handed to a constructor that may keep or release them"""
        g = self.p.funcs.get(e.get("fn"))
        for i, v in enumerate(a):
            if v[0] == "&" and g is not None and i < len(g["params"]) and not g["params"][i]["t"].startswith("const"):
                l = v[1]
                if l[0] in ("v", "m"):
                    ef = self.E.eff.get(g["id"])
                    if ef is None or any(r[0] == ("p", i) for r in ef.writes):
                        old = self.load_quiet(l, st)
                        if old is None or old[0] not in ("p",):
                            t = l[2] if l[0] == "v" else l[3]
                            if isint(t) or isbool(t):
                                self.store(l, self.fresh("out", t), st)

    def inline(self, e, g, o, a, st):
        if self.depth >= self.maxdepth:
            raise Limit("inline depth")
        s = st.copy()
        saved = (self.thisobj, self.dyn)
        saveenv = s.env
        # parameters
        env = dict(saveenv)
        for i, p in enumerate(g["params"]):
            if i < len(a):
                v = a[i]
                if v[0] == "&" and not isref(p["t"]):
                    v = self.val(v, s)
                env[p["id"]] = v
        s.env = env
        if o is not None and g.get("cls") and not g.get("static"):
            self.thisobj = o
            if o != saved[0]:
                self.dyn = None
                if o[0] == "res" and self.resources.get(o[1]):
                    self.dyn = self.resources[o[1]].what
        self.depth += 1
        self.stack.append(g)
        self.callsites.append((saved and self.stack[-2] if len(self.stack) > 1 else g, e.get("ln")))
        self.nfun += 1
        try:
            outs = self.body(g, s)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.callsites.pop()
            self.thisobj, self.dyn = saved
        r = []
        keep = set(saveenv)
        for fl, v, s2 in outs:
            ne = {k: x for k, x in s2.env.items() if k in keep}
            s2 = s2.copy()
            s2.env = ne
            if v is None:
                v = ("u", ("void",))
            if v[0] == "&":
                v = self.val(v, s2)
            r.append((v, s2))
        return self.mergevals2(r)

    def mergevals2(self, r):
        if len(r) <= 1:
            return r
        return self.mergevals(r)

    def body(self, g, s):
        """[(flow, value, state)] at function exit"""
        states = [s]
        if g["kind"] == "ctor":
            states = self.inits(g, s)
        out = []
        for fl, v, s2 in self.block(g["body"]["s"] if g["body"]["k"] == "block" else [g["body"]], states):
            out.append((fl, v, s2))
        if g["kind"] == "dtor":
            out = [("next", None, s3) for fl, v, s2 in out for s3 in self.basedtors(g, s2)]
        return out

    def basedtors(self, g, s):
        c = self.p.classes.get(g["cls"])
        states = [s]
        if c is None:
            return states
        for b in reversed(c["bases"]):
            if b in self.virtualbases(g["cls"]) and g["cls"] != self.dyn:
                continue
            ds = [d for d in self.p.byname.get(b + "::<dtor>", []) if d["isdef"] and d.get("body")]
            if not ds and b in self.p.classes:
                # implicit destructor: only the bases are destroyed
                fake = {"id": "<implicit %s>" % b, "name": b + "::<dtor>", "cls": b, "kind": "dtor", "file": "", "ln": 0,
                        "params": [], "body": {"k": "block", "s": []}}
                states = [y for x in states for y in self.basedtors(fake, x)]
            for d in ds:
                n = []
                for x in states:
                    n += [y for _, y in self.inline({"ln": g["ln"]}, d, self.thisobj, [], x)]
                states = n
        if g["cls"] == self.dyn:
            for b in self.allvbases(g["cls"]):
                if b in c["bases"] and b not in self.virtualbases(g["cls"]):
                    continue
                if b in c["bases"]:
                    continue
                for d in self.p.byname.get(b + "::<dtor>", []):
                    if d["isdef"] and d.get("body"):
                        n = []
                        for x in states:
                            n += [y for _, y in self.inline({"ln": g["ln"]}, d, self.thisobj, [], x)]
                        states = n
        return states

    def virtualbases(self, c):
        k = self.p.classes.get(c) or {}
        return set(k.get("vbases", []))

    def allvbases(self, c):
        out = []
        for b in self.p.bases(c):
            for v in self.virtualbases(b):
                if v not in out:
                    out.append(v)
        return out

    def inits(self, g, s):
        states = [s]
        for i in g.get("inits") or []:
            nxt = []
            for x in states:
                if i.get("basecls"):
                    e = i["e"]
                    ec = strip(e) if e else {}
                    cf = self.p.funcs.get(ec.get("fn"))
                    if i["basecls"] in self.virtualbases(g["cls"]) and g["cls"] != self.dyn:
                        nxt.append(x)
                        continue
                    if i["basecls"] in self.allvb_done(x):
                        nxt.append(x)
                        continue
                    if cf is not None and cf["isdef"] and cf.get("body"):
                        for a, y in self.evargs(ec.get("args", []), x, cf["id"]):
                            nxt += [z for _, z in self.inline(ec, cf, self.thisobj, a, y)]
                    elif ec.get("k") == "ctor" and ec.get("triv"):
                        nxt.append(x)
                    else:
                        x = x.copy()
                        x.mem[(self.thisobj, "<open>")] = ("b", True)
                        nxt.append(x)
                elif i.get("field"):
                    if not i.get("written") and (i.get("e") is None or strip(i["e"]).get("k") == "ctor" and strip(i["e"]).get("triv")):
                        nxt.append(x)
                        continue
                    for v, y in self.ev(i["e"], x):
                        y = y.copy()
                        if v[0] == "o" and v[1][0] in ("loc", "sub"):
                            v = self.load(("v", v[1][1], "", "") if v[1][0] == "loc" else ("m", v[1][1], v[1][2], "", None), y, "")
                        y.mem[(self.thisobj, i["field"])] = v
                        nxt.append(y)
                else:
                    nxt.append(x)
            states = self.merge(nxt)
        return states

    def allvb_done(self, x):
        return ()

    # -- statements ----------------------------------------------------------------
    def block(self, stmts, states):
        """-> [(flow,value,state)]; flow in next/ret/brk/cont"""
        done = []
        cur = states
        for x in stmts:
            nxt = []
            for s in cur:
                for fl, v, s2 in self.stmt(x, s):
                    if fl == "next":
                        nxt.append(s2)
                    else:
                        done.append((fl, v, s2))
            cur = self.merge(nxt)
            if not cur:
                break
        return done + [("next", None, s) for s in cur]

    def collect(self, st, keep=None):
        """drop released blocks nothing points to any more, and give blocks that
        were lost (live, unreachable) one name per allocation site"""
        if not st.res:
            return
        ref = set()

        def val(v):
            if isinstance(v, tuple):
                if len(v) >= 2 and v[0] in ("p", "res"):
                    try:
                        ref.add(v[1])
                    except TypeError:
                        pass
                for y in v:
                    if isinstance(y, tuple):
                        val(y)
        val(keep)
        for v in st.env.values():
            val(v)
        for k, v in st.mem.items():
            val(v)
            if isinstance(k[0], tuple) and k[0][0] != "res":
                val(k[0])
        dead = [r for r in st.res if r not in ref]
        for r in dead:
            if st.res[r] == "freed" and self.resources[r].fam is None:
                del st.res[r]
                for k in [k for k in st.mem if k[0] == ("res", r)]:
                    del st.mem[k]

    def merge(self, states):
        if len(states) <= 1:
            return states
        if len(states) > 3:
            for s in states:
                self.collect(s)
        groups = {}
        for s in states:
            groups.setdefault(pkey(s), []).append(s)
        out = []
        for g in groups.values():
            if len(g) > 1 and self.guards:
                sub = {}
                for s in g:
                    sub.setdefault(tuple(self.guardtruth(c, s) for c in self.guards), []).append(s)
                gs = list(sub.items())
            else:
                gs = [((), g)]
            for truth, g in gs:
                a = g[0]
                for b in g[1:]:
                    a = join(a, b, self)
                if len(g) > 1:
                    a = self.reassert(a, truth)
                out.append(a)
        if len(out) > self.maxstates:
            raise Limit("too many abstract states (%d)" % len(out))
        return out

    def setguards(self, d):
        """trace partitioning: the atomic conditions of the destructor d keep
        abstract states apart, so that the release conditions are compared with
        the acquisition conditions without loss"""
        self.guards = []
        seen = set()

        def atoms(e):
            e = strip(e)
            if e["k"] == "bin" and e["op"] in ("&&", "||"):
                atoms(e["l"])
                atoms(e["r"])
            elif e["k"] == "un" and e["op"] == "!":
                atoms(e["e"])
            elif e["k"] == "bin" and e["op"] in ("<", ">", "<=", ">=", "==", "!="):
                t = txt(e)
                if t not in seen:
                    seen.add(t)
                    self.guards.append(e)
            elif e["k"] == "mem" and isbool(e.get("t", "")):
                t = txt(e)
                if t not in seen:
                    seen.add(t)
                    self.guards.append(e)
        for n in walk(d.get("body") or {}):
            if n.get("k") in ("if", "cond", "while", "for") and n.get("c"):
                atoms(n["c"])

    def gval(self, e, s):
        e = strip(e)
        k = e["k"]
        if k == "int":
            return P(int(e["v"]))
        if k == "mem" and strip(e["b"])["k"] == "this":
            v = s.mem.get((("this",), e["f"]))
            if v is not None and v[0] == "i":
                return s.F.sub(v[1])
            return None
        if k == "bin" and e["op"] in "+-*/%":
            a, b = self.gval(e["l"], s), self.gval(e["r"], s)
            if a is None or b is None:
                return None
            if e["op"] == "+":
                return a + b
            if e["op"] == "-":
                return a - b
            if e["op"] == "*":
                return a * b
            if b.isconst() and b.cval() > 0:
                if a.isconst():
                    return P(a.cval() // b.cval() if e["op"] == "/" else a.cval() % b.cval())
                q = Poly.sym(("div", a, b))
                return q if e["op"] == "/" else a - b * q
        return None

    def reassert(self, s, truth):
        """a join keeps the guard truths its members agreed on"""
        for e, t in zip(self.guards, truth):
            e = strip(e)
            if t is None or e["k"] == "mem":
                continue
            a, b = self.gval(e["l"], s), self.gval(e["r"], s)
            if a is None or b is None:
                continue
            F = s.F.assume(a - b, e["op"] if t else NEGOP[e["op"]])
            if F is not None:
                s = s.withF(F)
        return s

    def guardtruth(self, e, s):
        e = strip(e)
        if e["k"] == "mem":
            v = s.mem.get((("this",), e["f"]))
            if v is None:
                return None
            if v[0] == "b":
                return v[1]
            if v[0] == "u":
                return s.F.b.get(("atom", v[1]))
            return None
        a, b = self.gval(e["l"], s), self.gval(e["r"], s)
        if a is None or b is None:
            return None
        return s.F.query(a - b, e["op"])

    def stmt(self, x, st):
        if x is None:
            return [("next", None, st)]
        k = x["k"]
        if k == "expr":
            return [("next", None, s) for _, s in self.ev(x["e"], st)]
        if k == "block":
            return self.block(x["s"], [st])
        if k == "decl":
            states = [st]
            for d in x["d"]:
                nxt = []
                for s in states:
                    nxt += self.declare(d, s)
                states = nxt
            return [("next", None, s) for s in states]
        if k == "if":
            out = []
            states = [st]
            if x.get("init"):
                states = [s for fl, v, s in self.stmt(x["init"], st)]
            if x.get("cvar"):
                states = [s2 for s in states for fl, v, s2 in self.stmt(x["cvar"], s)]
            for s0 in states:
                for c, s in self.cond(x["c"], s0):
                    for s2, b in self.branch(c, s, (x.get("ln"), x["c"])):
                        br = x["then"] if b else x.get("else")
                        out += self.stmt(br, s2) if br else [("next", None, s2)]
            nx = self.merge([s for fl, v, s in out if fl == "next"])
            return [o for o in out if o[0] != "next"] + [("next", None, s) for s in nx]
        if k == "return":
            if x.get("e") is None:
                return [("ret", None, st)]
            return [("ret", v, s) for v, s in self.ev(x["e"], st)]
        if k == "for":
            return self.forloop(x, st)
        if k in ("while", "do"):
            return self.whileloop(x, st)
        if k == "forrange":
            s = st.copy()
            s.env[x["var"]["id"]] = self.fresh("rng", x["var"]["t"])
            return self.generic(x["body"], None, s, [x["body"]])
        if k == "break":
            return [("brk", None, st)]
        if k == "continue":
            return [("cont", None, st)]
        if k == "omp":
            return self.stmt(x["body"], st) if x.get("body") else [("next", None, st)]
        if k in ("case", "default", "label"):
            return self.stmt(x.get("s"), st)
        if k == "switch":
            return self.switch(x, st)
        if k == "try":
            return self.stmt(x.get("body"), st)
        return [("next", None, st)]

    def switch(self, x, st):
        out = []
        body = x["body"]["s"] if x["body"].get("k") == "block" else [x["body"]]
        for v, s in self.ev(x["c"], st):
            starts = [i for i, y in enumerate(body) if y.get("k") in ("case", "default")]
            hasdef = any(y.get("k") == "default" for y in body)
            for i in starts:
                out += self.block(body[i:], [s.copy()])
            if not hasdef:
                out.append(("next", None, s))
        return [("next" if fl == "brk" else fl, v, s) for fl, v, s in out]

    def declare(self, d, st):
        t = d["t"]
        if d.get("static"):
            return [st]
        if d.get("init") is None:
            s = st.copy()
            if isptr(t) or isint(t) or isbool(t):
                s.env[d["id"]] = UI
            else:
                s.env.pop(d["id"], None)
                s.mem[(("loc", d["id"]), "<ver>")] = self.bump()
            return [s]
        out = []
        if isref(t):
            for l, s in self.lv(d["init"], st):
                s = s.copy()
                s.env[d["id"]] = ("&", l) if l[0] != "t" else l[1]
                out.append(s)
            return out
        for v, s in self.ev(d["init"], st):
            s = s.copy()
            if v[0] in ("obj",):
                s.env.pop(d["id"], None)
                s.mem[(("loc", d["id"]), "<ver>")] = self.bump()
            elif v[0] == "bi":
                s.env[d["id"]] = ("b", v[1])
            else:
                s.env[d["id"]] = v
            out.append(s)
        return out

    def modified(self, nodes):
        vs, fl, calls = set(), set(), False
        for n in walk(nodes):
            k = n.get("k")
            tgt = None
            if k == "asg":
                tgt = n["l"]
            elif k == "un" and n["op"] in ("++", "--"):
                tgt = n["e"]
            elif k == "call":
                calls = True
            if tgt is not None:
                t = tgt
                while t.get("k") in ("icast", "cast"):
                    t = t["e"]
                if t.get("k") == "ref":
                    vs.add(t["id"])
                elif t.get("k") == "mem" and (t.get("b") or {}).get("k") == "this":
                    fl.add(t["f"])
        return vs, fl

    def havocvars(self, st, vs, fl, tag):
        """values a loop may have changed; pointers to resources are kept"""
        for v in vs:
            o = st.env.get(v)
            if o is None or o[0] in ("p", "&"):
                continue
            if o[0] == "i":
                st.env[v] = ("i", Poly.sym(("q", ("loop", tag, v, self.bump()))))
            elif o[0] in ("b", "bi"):
                st.env[v] = ("b", ("atom", ("loop", tag, v, self.bump())))
            elif o[0] in ("x", "n"):
                st.env[v] = ("x", ("loop", tag, v, self.bump()))
        for f in fl:
            o = st.mem.get((self.thisobj, f))
            if o is None or o[0] in ("p", "ui", "f"):
                continue
            if o[0] == "i":
                st.mem[(self.thisobj, f)] = ("i", Poly.sym(("q", ("loop", tag, f, self.bump()))))
            elif o[0] in ("b", "bi"):
                st.mem[(self.thisobj, f)] = ("b", ("atom", ("loop", tag, f, self.bump())))

    def forloop(self, x, st):
        """counted loops run once for a generic index; others like while"""
        init, c, inc = x.get("init"), x.get("c"), x.get("inc")
        states = [s for fl, v, s in self.stmt(init, st)] if init else [st]
        var = None
        cc = strip(c) if c else None
        down = False
        if cc is not None and cc.get("k") == "bin" and cc["op"] in ("<", "<=", "!="):
            l = strip(cc["l"])
            if l.get("k") == "ref":
                i = strip(inc) if inc else {}
                if i.get("k") == "un" and i["op"] == "++" and strip(i["e"]).get("id") == l["id"]:
                    var = l["id"]
        vs, fl = self.modified([x["body"], inc, c])
        out = []
        for s in states:
            if var is None:
                out += self.generic(x["body"], c, s, [x["body"], inc, c])
                continue
            lo = s.env.get(var)
            bvs, _ = self.modified([x["body"]])
            his = self.ev(cc["r"], s)
            if lo is None or lo[0] != "i" or len(his) != 1 or his[0][0][0] != "i" or var in bvs:
                out += self.generic(x["body"], c, s, [x["body"], inc, c])
                continue
            hi = his[0][0][1]
            s = his[0][1]
            if cc["op"] == "<=":
                hi = hi + 1
            lo = lo[1]
            if s.F.query(hi - lo, "<=") is True:
                out.append(("next", None, s))
                continue
            sym = ("q", ("i", var, len(self.loopctx)))
            brk = any(n.get("k") in ("break", "return") for n in walk(x["body"]))
            ctx = {"sym": sym, "lo": lo, "hi": hi, "many": True, "born": set(), "brk": brk}
            s2 = s.copy()
            self.havocvars(s2, vs - {var}, fl, x.get("ln"))
            s2.env[var] = ("i", Poly.sym(sym))
            before = set(s2.res)
            self.loopctx.append(ctx)
            ctx["born"] = Born(before)
            try:
                res = self.stmt(x["body"], s2)
            finally:
                self.loopctx.pop()
            post = []
            for f2, v, y in res:
                if f2 in ("next", "cont", "brk"):
                    y = y.copy()
                    self.havocvars(y, vs - {var}, fl, x.get("ln"))
                    if var in y.env:
                        y.env[var] = ("i", hi) if not brk else ("i", Poly.sym(("q", ("end", var, self.bump()))))
                    post.append(y)
                else:
                    out.append((f2, v, y))
            # the loop may run zero times: matters only when it changes single-valued state
            if self.changed(s, post):
                if s.F.query(hi - lo, ">") is not True:
                    z = s.copy()
                    F = z.F.assume(hi - lo, "<=")
                    if F is not None:
                        z.F = F
                        z.env[var] = ("i", lo)
                        post.append(z)
            out += [("next", None, y) for y in self.merge(post)]
        return out

    def changed(self, s, post):
        for y in post:
            for r, v in y.res.items():
                if s.res.get(r) != v and self.resources[r].fam is None:
                    return True
            for k, v in y.mem.items():
                if k[0] == self.thisobj and s.mem.get(k) != v and v[0] in ("p", "f", "n", "x"):
                    return True
            for k, v in y.env.items():
                if k in s.env and s.env[k] == UI and v != UI:
                    return True
        return False

    def generic(self, body, c, st, nodes):
        vs, fl = self.modified(nodes)
        out = []
        s = st.copy()
        if c is not None:
            pairs = []
            for cv, y in self.cond(c, s):
                pairs += self.branch(cv, y, (None, c))
            ent = [y for y, b in pairs if b]
            ex = [y for y, b in pairs if not b]
        else:
            ent, ex = [s], [s.copy()]
        for y in ent:
            y = y.copy()
            self.havocvars(y, vs, fl, "w")
            sym = ("q", ("it", self.bump()))
            brk = any(n.get("k") in ("break", "return") for n in walk(body))
            self.loopctx.append({"sym": sym, "lo": P(0), "hi": Poly.sym(("q", ("iters", self.bump()))), "many": True, "born": Born(set(y.res)), "brk": brk})
            try:
                res = self.stmt(body, y)
            finally:
                self.loopctx.pop()
            for f2, v, z in res:
                if f2 in ("next", "cont", "brk"):
                    z = z.copy()
                    self.havocvars(z, vs, fl, "w2")
                    ex.append(z)
                else:
                    out.append((f2, v, z))
        return out + [("next", None, y) for y in self.merge(ex)]

    def whileloop(self, x, st):
        if x["k"] == "do":
            vs, fl = self.modified([x["body"], x["c"]])
            s = st.copy()
            sym = ("q", ("it", self.bump()))
            brk = any(n.get("k") in ("break", "return") for n in walk(x["body"]))
            once = strip(x["c"]).get("k") in ("int", "bool")
            if not once:
                self.havocvars(s, vs, fl, "d")
                self.loopctx.append({"sym": sym, "lo": P(0), "hi": Poly.sym(("q", ("iters", self.bump()))), "many": True, "born": Born(set(s.res)), "brk": brk})
            try:
                res = self.stmt(x["body"], s)
            finally:
                if not once:
                    self.loopctx.pop()
            out, post = [], []
            for f2, v, z in res:
                if f2 in ("next", "cont", "brk"):
                    post.append(z)
                else:
                    out.append((f2, v, z))
            return out + [("next", None, y) for y in self.merge(post)]
        return self.generic(x["body"], x["c"], st, [x["body"], x["c"]])

    # -- drivers ---------------------------------------------------------------------
    def reset(self):
        self.loopctx = []
        self.callsites = []
        self.stack = []
        self.depth = 0
        self.nfresh = 0
        self.steps = 0
        self.maynull = {}
        self.ownparams = set()
        self.owning = False
        self.thisobj = ("this",)
        self.dyn = None
        self.tracked = set()

    def start(self, f, st, owner=None):
        """bind parameters of f to caller-supplied unknowns"""
        for p in f["params"]:
            t = p["t"]
            if isref(t):
                st.env[p["id"]] = ("&", ("m", ("ext", ("param", p["n"], p["id"])), "<val>", t.rstrip("& "), None))
                if not (isint(t) or isptr(t.rstrip("& ")) or isbool(t)):
                    st.env[p["id"]] = ("&", ("o", ("ext", ("param", p["n"], p["id"]))))
            elif isptr(t):
                st.env[p["id"]] = ("x", ("param", p["n"], p["id"]))
                self.ownparams.add(p["id"])
            elif isint(t):
                st.env[p["id"]] = ("i", Poly.sym(("a", p["n"], p["id"]) if not signed(t) else ("s", ("a", p["n"], p["id"]))))
            elif isbool(t):
                st.env[p["id"]] = ("b", ("atom", ("a", p["n"], p["id"])))
            elif ismfp(t):
                st.env[p["id"]] = ("u", ("a", p["n"], p["id"]))
        return st

    def run(self, f, st, this=("this",), dyn=None):
        self.thisobj, self.dyn = this, dyn
        self.stack = [f]
        self.callsites = []
        self.loopctx = []
        self.depth = 0
        try:
            return [(fl, v, s) for fl, v, s in self.body(f, st)]
        finally:
            self.stack = []


class Born:
    """resources created inside a loop body"""

    def __init__(self, before):
        self.before = before

    def __contains__(self, r):
        return r not in self.before


ALLO = {"align": "an aligned allocation", "arr": "new[]", "obj": "new", "plan": "an FFTW planner", "malloc": "malloc", "fftw": "fftw_malloc"}
DEAL = {"align": "deleteAlign", "arr": "delete[]", "obj": "delete", "plan": "fftw_destroy_plan", "malloc": "free", "fftw": "fftw_free"}
NEGOP = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
from .facts import cmpc


def neg(c):
    if c is True or c is False:
        return not c
    if c is None:
        return None
    if c[0] == "not":
        return c[1]
    if c[0] == "cmp":
        return ("cmp", c[1], NEGOP[c[2]])
    return ("not", c)


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def sk(v):
    """stable key of a value"""
    if v[0] == "&":
        return ("&",) + tuple(x for x in v[1][:3] if hashable(x))
    return v if hashable(v) else ("?",)


def sideeffects(e):
    return any(n.get("k") in ("asg", "new", "delete") or n.get("k") == "un" and n.get("op") in ("++", "--") for n in walk(e))


def substval(v, sym, p):
    if v[0] == "p":
        off = v[2].subst({sym: p}) if v[2] is not None else None
        idx = v[3].subst({sym: p}) if v[3] is not None else None
        return ("p", v[1], off, idx)
    if v[0] == "i":
        return ("i", v[1].subst({sym: p}))
    if v[0] == "x":
        def sub(k):
            if isinstance(k, Poly):
                return k.subst({sym: p})
            if isinstance(k, tuple):
                return tuple(sub(y) for y in k)
            return k
        return ("x", sub(v[1]))
    return v


def scal(v):
    return isinstance(v, tuple) and len(v) > 0 and (v[0] == "i" or v[0] == "u" or v[0] == "obj")


def pkey(s):
    """the part of a state on which merging is decided"""
    def kv(v):
        if scal(v):
            return "#"
        return v
    env = frozenset((k, kv(v)) for k, v in s.env.items())
    mem = frozenset((k, kv(v)) for k, v in s.mem.items() if k[1] not in ("<ver>", "<args>")
                    and not (k[0] == "g" and isinstance(v, tuple) and v and v[0] in ("i", "b", "u")))
    return (env, mem, frozenset(s.res.items()))


def samestate(a, b):
    return a.env == b.env and a.mem == b.mem and a.res == b.res


def joinF(a, b):
    return a.withF(a.F.meet(b.F))


def join(a, b, L):
    if a is b:
        return a
    s = a.copy()
    s.F = a.F.meet(b.F)
    for d, e in ((s.env, b.env), (s.mem, b.mem)):
        for k, v in list(d.items()):
            w = e.get(k)
            if w is not None and w != v and isinstance(v, tuple):
                if v[0] == "i":
                    ph = Poly.sym(("q", ("phi", str(k[-1] if isinstance(k, tuple) else k), L.bump())))
                    d[k] = ("i", ph)
                    if w[0] == "i":
                        l1, h1 = a.F.bounds(v[1])
                        l2, h2 = b.F.bounds(w[1])
                        lo, hi = min(l1, l2), max(h1, h2)
                        if lo > 0 or hi < INF:
                            s.F.rng[ph] = (max(lo, 0), hi)
                        # linear relations to the quantities it was computed from
                        rel = set()
                        for x in v[1].syms() | w[1].syms():
                            rel.add(x)
                            if isinstance(x, tuple) and x[0] == "div":
                                rel |= set(x[1].syms())
                        if len(rel) <= 4:
                            for x in rel:
                                for m in (1, 2):
                                    y = Poly.sym(x)
                                    l1, h1 = a.F.bounds(y - v[1] * m)
                                    l2, h2 = b.F.bounds(y - w[1] * m)
                                    lo, hi = min(l1, l2), max(h1, h2)
                                    if lo > -INF or hi < INF:
                                        s.F.rng[y - ph * m] = (lo, hi)
                elif v[0] in ("u", "obj"):
                    d[k] = ("u", ("phi", L.bump()))
                elif v[0] == "b" and isinstance(k, tuple) and k[0] == "g":
                    del d[k]
            elif w is None and isinstance(v, tuple) and isinstance(k, tuple) and k[0] == "g":
                del d[k]
            elif w is not None and w != v:
                d[k] = L.bump()
    n = 0
    for x, y in zip(a.tr, b.tr):
        if x != y:
            break
        n += 1
    s.tr = a.tr if len(a.tr) >= len(b.tr) else b.tr
    for k, v in b.cnt.items():
        s.cnt[k] = max(v, s.cnt.get(k, 0))
    return s


def trace(st, n=14):
    """branch decisions of a path, oldest first"""
    out = []
    for x in st.tr:
        if isinstance(x, tuple) and len(x) == 3:
            t = "%s: %s is %s" % (x[0], txt(x[1]) if isinstance(x[1], dict) else x[1], "true" if x[2] else "false")
            if t not in out:
                out.append(t)
    return out[-n:]


def txt(e):
    from .pp import pe
    return pe(e)


def _cast(self, e, st):
    out = []
    for v, s in self.ev(e["e"], st):
        t = e.get("t", "")
        if isptr(t) and v[0] in ("p", "x", "n", "o", "ui", "u"):
            # offsets keep their unit only when the pointee size is unchanged
            if v[0] == "p" and not (v[2] is not None and v[2].isconst() and v[2].cval() == 0):
                v = ("p", v[1], v[2], v[3])
            out.append((v, s))
        else:
            out.append((self.conv(v, t, e.get("ck"), s), s))
    return out


Life.e_cast = _cast
