"""Interprocedural mod-effect inference.

A location is (root, sels): root in {('this',), ('p',k), ('g',id), ('l',id),
('n',site)}, sels a tuple of field names and '*' (dereference/index, array
elements collapsed).  eff[f].writes is the set of locations rooted at this,
parameters and globals that f (or anything it may call: virtual dispatch by
class hierarchy, member-function pointers by every function whose address is
taken at that signature) may write.  Flow-insensitive, monotone fixpoint."""
from .repo import walk, strip, sigof

MAXSEL = 7
LEAF = ("Complex", "fftwpp::Vec", "fftwpp::Complex")

# external functions whose pointer arguments are not modified in any way that
# matters here although the C prototype is not const
PURE_EXT = ("fftw_destroy_plan", "fftw_free", "free", "delete", "omp_", "exit", "MPI_Comm_rank_",
            "std::operator<<", "std::basic_ostream", "std::basic_ofstream")


def isptr(t):
    return t is not None and (t.rstrip().endswith("*") or "(*)" in t)


def isref(t):
    return t is not None and t.rstrip().endswith("&")


def cut(loc):
    r, s = loc
    # collapse repeated cycles and limit depth
    if len(s) > MAXSEL:
        s = s[:MAXSEL]
    return (r, s)


class Eff:
    __slots__ = ("writes", "ret", "why", "calls", "reads")

    def __init__(self):
        self.writes = set()
        self.ret = set()
        self.why = {}
        self.calls = {}


class Effects:
    def __init__(self, prog, preserve=False):
        self.p = prog
        self.preserve = preserve    # FFTW leaves the input of out-of-place c2c and r2c plans alone
        self.eff = {}
        self.addr = {}          # signature tuple -> [func]
        self.collect_addr()
        self.callers = {}
        self.run()

    def collect_addr(self):
        p = self.p
        ids = set()
        for f in p.defs():
            for n in walk([f.get("body"), f.get("inits"), [a.get("def") for a in f["params"]]]):
                if n.get("k") == "fnptr" or (n.get("k") == "ref" and n.get("vk") == "func"):
                    i = n.get("fn") or n.get("id")
                    if i in p.funcs:
                        ids.add(i)
        for g in p.globals.values():
            for n in walk(g.get("init")):
                if n.get("k") in ("fnptr", "ref"):
                    i = n.get("fn") or n.get("id")
                    if i in p.funcs:
                        ids.add(i)
        self.addrtaken = ids
        for i in ids:
            f = p.funcs[i]
            self.addr.setdefault((bool(f.get("cls")) and not f.get("static"), sig(f)), []).append(f)

    def targets(self, n):
        """possible repo callees of a call node"""
        p = self.p
        if n["k"] == "mpcall":
            t = strip(n["callee"]).get("p", {})
            s = sigtext(ptype(t))
            out = []
            for (m, sg), fs in self.addr.items():
                if m and (s is None or sg == s):
                    for f in fs:
                        for g in p.overriders(f["id"]) if f.get("virt") else [f]:
                            if g not in out:
                                out.append(g)
            return out
        fn = n.get("fn")
        if fn is None:
            s = sigtext(ctype(n.get("callee")))
            return [f for (m, sg), fs in self.addr.items() if not m and (s is None or sg == s) for f in fs]
        f = p.funcs.get(fn)
        if f is None:
            return []
        if n.get("virt") and f.get("virt"):
            return p.overriders(fn)
        return [f]

    def run(self):
        defs = [f for f in self.p.defs()]
        for f in defs:
            self.eff[f["id"]] = Eff()
        self.ctx = {f["id"]: FnCtx(self, f) for f in defs}
        for f in defs:
            for t in self.ctx[f["id"]].callees():
                self.callers.setdefault(t, set()).add(f["id"])
        work = [f["id"] for f in defs]
        inq = set(work)
        n = 0
        while work:
            i = work.pop()
            inq.discard(i)
            n += 1
            if self.ctx[i].analyse():
                for c in self.callers.get(i, ()):
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self.steps = n

    def chain(self, fid, loc, depth=12):
        """call chain explaining why fid writes loc: [(func,line)]"""
        out = []
        while depth:
            depth -= 1
            w = self.eff[fid].why.get(loc)
            if w is None:
                break
            ln, callee, cl = w
            out.append((self.p.funcs[fid], ln))
            if callee is None:
                break
            fid, loc = callee, cl
        return out


def ptype(p):
    p0 = p
    while isinstance(p0, dict):
        if p0.get("t"):
            return p0["t"]
        p0 = p0.get("e")
    return None


def ctype(c):
    while isinstance(c, dict):
        if c.get("t") and "(" in c["t"]:
            return c["t"]
        c = c.get("e")
    return None


def sig(f):
    return ",".join(a["t"] for a in f["params"])


def sigtext(t):
    """'void (C::*)(A,B)' -> 'A,B'"""
    if not t or "(" not in t:
        return None
    i = t.rfind("(")
    # the parameter list is the last parenthesised group at depth 0
    d = 0
    for j in range(len(t) - 1, -1, -1):
        if t[j] == ")":
            d += 1
        elif t[j] == "(":
            d -= 1
            if d == 0:
                i = j
                break
    end = t.rfind(")")
    a = t[i + 1:end]
    out, d, cur = [], 0, ""
    for ch in a:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        if ch in "(<":
            d += 1
        if ch in ")>":
            d -= 1
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return ",".join(out)


class FnCtx:
    def __init__(self, E, f):
        self.E = E
        self.f = f
        self.eff = E.eff[f["id"]]
        self.cont = {}          # local array root -> locations its pointer elements point to
        self.pts = {}           # local var id -> set of locations pointed to / aliased (refs)
        self.pidx = {a["id"]: (k, a["t"]) for k, a in enumerate(f["params"])}
        self.nodes = [n for n in walk([f.get("inits"), f.get("body")])]
        self.loct = {}
        for n in self.nodes:
            if n.get("k") == "var":
                self.loct[n["id"]] = n["t"]

    def callees(self):
        out = set()
        for n in self.nodes:
            k = n.get("k")
            if k in ("call", "mpcall"):
                for t in self.E.targets(n):
                    out.add(t["id"])
            elif k == "ctor" and n.get("fn") in self.E.eff:
                out.add(n["fn"])
            elif k == "delete":
                for d in self.dtors(n):
                    out.add(d["id"])
        return out

    def dtors(self, n):
        t = (n.get("t") or "").strip()
        if t.endswith("*"):
            t = t[:-1].strip()
        p = self.E.p
        out = []
        if t in p.classes:
            for c in p.derived(t) if p.classes[t].get("virtdtor") else [t]:
                for b in p.bases(c):
                    out += [g for g in p.byname.get(b + "::<dtor>", []) if g["isdef"]]
        return out

    # --- pointer values: set of locations pointed to
    def pv(self, e):
        if e is None:
            return set()
        k = e.get("k")
        if k in ("rv", "icast", "cast", "defarg"):
            if k == "icast" and e.get("ck") == "ArrayToPointerDecay":
                return {cut((r, s + ("*",))) for r, s in self.lv(e["e"])}
            return self.pv(e["e"])
        if k == "this":
            return {(("this",), ())}
        if k == "un" and e["op"] == "&":
            return self.lv(e["e"])
        if k == "un" and e["op"] in ("++", "--"):
            return self.pv(e["e"])
        if k == "bin":
            if e["op"] in ("+", "-"):
                out = set()
                for x in (e["l"], e["r"]):
                    t = (ptype(x) or "").rstrip()
                    if t.endswith(("*", "]")) or "(*)" in t or not t:
                        out |= self.pv(x)
                return out
            if e["op"] == ",":
                return self.pv(e["r"])
            return set()
        if k == "asg":
            return self.pv(e["l"])
        if k == "cond":
            return self.pv(e["l"]) | self.pv(e["r"])
        if k == "new":
            return {(("n", "%s:%s" % (self.f["id"], e.get("ln"))), ())}
        if k in ("ref", "mem", "idx") or (k == "un" and e["op"] == "*"):
            if k == "ref" and e.get("vk") in ("local", "param", "slocal") and e["id"] in self.pts:
                t = self.loct.get(e["id"]) or (self.pidx.get(e["id"]) or (0, ""))[1]
                if isptr(t):
                    base = set(self.pts[e["id"]])
                    if e["id"] in self.pidx:
                        base.add((("p", self.pidx[e["id"]][0]), ("*",)))
                    return base
            out = set()
            for r, s in self.lv(e):
                if r[0] == "l" and r in self.cont and s == ("*",):
                    out |= self.cont[r]
                out.add(cut((r, s + ("*",))))
            return out
        if k in ("call", "mpcall"):
            return self.call(e)
        if k == "ctor":
            return set()
        return set()

    # --- lvalues: set of locations
    def lv(self, e):
        if e is None:
            return set()
        k = e.get("k")
        if k in ("rv", "icast", "cast", "defarg"):
            if k == "icast" and e.get("ck") == "ArrayToPointerDecay":
                return self.lv(e["e"])
            return self.lv(e["e"])
        if k == "ref":
            vk = e.get("vk")
            if vk == "param":
                if e["id"] in self.pidx:
                    i, t = self.pidx[e["id"]]
                    if isref(t):
                        return {(("p", i), ("*",))}
                    return {(("l", e["id"]), ())} if not isptr(t) else {(("p", i), ())}
                return {(("l", e["id"]), ())}
            if vk == "global":
                return {(("g", e["id"]), ())}
            if vk == "slocal":
                return {(("g", self.f["id"] + "::" + e["id"]), ())}
            if vk == "local":
                t = self.loct.get(e["id"], "")
                if isref(t):
                    return set(self.pts.get(e["id"], ()))
                return {(("l", e["id"]), ())}
            return set()
        if k == "mem":
            if e.get("b") is None or e["b"].get("k") == "this":
                b = {(("this",), ())}
            elif e.get("arrow"):
                b = self.pv(e["b"])
            else:
                b = self.lv(e["b"])
            if e.get("c") in LEAF:
                return set(b)
            return {cut((r, s + (e["f"],))) for r, s in b}
        if k == "idx":
            b = strip(e["b"])
            t = b.get("t", "")
            if t.endswith("]"):
                return {cut((r, s + ("*",))) for r, s in self.lv(b)}
            return self.pv(e["b"])
        if k == "un" and e["op"] == "*":
            return self.pv(e["e"])
        if k == "un":
            return self.lv(e["e"])
        if k == "asg":
            return self.lv(e["l"])
        if k == "cond":
            return self.lv(e["l"]) | self.lv(e["r"])
        if k in ("call", "mpcall"):
            r = self.call(e)
            return r
        if k == "bin" and e["op"] == ",":
            return self.lv(e["r"])
        if k == "this":
            return {(("this",), ())}
        return set()

    def bind(self, tgt, e):
        """substitution for callee locations: returns fn(loc)->set(locs)"""
        args = e.get("args", [])
        obj = None
        if e["k"] == "mpcall":
            b = strip(e["callee"])
            bb = b.get("b")
            obj = self.pv(bb) if isptr(bb.get("t") or (strip(bb).get("t"))) or strip(bb).get("k") == "this" else self.lv(bb)
        elif e["k"] == "ctor":
            obj = None
        elif e.get("obj") is not None:
            obj = self.pv(e["obj"]) if e.get("arrow") else self.lv(e["obj"])
            if e["obj"].get("k") == "this":
                obj = {(("this",), ())}
        cache = {}

        def m(loc):
            r, s = loc
            if r[0] == "g":
                return {loc}
            if r[0] == "this":
                base = obj if obj is not None else set()
                return {cut((br, bs + s)) for br, bs in base}
            if r[0] == "p":
                i = r[1]
                if i >= len(args) or not s or s[0] != "*":
                    return set()
                if i not in cache:
                    cache[i] = self.lv(args[i]) if isref(tgt["params"][i]["t"]) else self.pv(args[i])
                out = set()
                for br, bs in cache[i]:
                    t = s[1:]
                    if br[0] == "l" and br in self.cont and t and t[0] == "*" and bs in (("*",), ()):
                        for cr, cs in self.cont[br]:
                            out.add(cut((cr, cs + t[1:])))
                    else:
                        out.add(cut((br, bs + t)))
                return out
            if r[0] == "n":
                return {loc}
            return set()
        return m

    def call(self, e):
        """apply the effects of a call; returns pointer/reference result"""
        out = set()
        tg = self.E.targets(e)
        if not tg or not any(t["id"] in self.E.eff for t in tg):
            return self.extcall(e)
        for t in tg:
            ef = self.E.eff.get(t["id"])
            if ef is None:
                continue
            m = self.bind(t, e)
            for w in list(ef.writes):
                for l in m(w):
                    self.write(l, e.get("ln"), t["id"], w)
            for r in list(ef.ret):
                out |= m(r)
        return out

    def extcall(self, e):
        fn = e.get("fn") or ""
        name = e.get("name") or fn
        args = e.get("args", [])
        if any(name.startswith(p) for p in PURE_EXT):
            return self.pv(args[0]) if args and "operator<<" in name else set()
        f = self.E.p.funcs.get(fn)
        if f is not None:
            ts = [a["t"] for a in f["params"]]
        else:
            s = sigtext(fn)
            ts = s.split(",") if s else []
        ln = e.get("ln")
        if e.get("obj") is not None and not e.get("constm"):
            o = self.pv(e["obj"]) if e.get("arrow") else self.lv(e["obj"])
            if "operator->" not in name and "operator*" not in name and not name.endswith("::end") and not name.endswith("::find"):
                for l in o:
                    self.write(l, ln, None, None)
            return {cut((r, s + ("*",))) for r, s in o} if not e.get("opcall") else o
        if name.startswith("fftw_plan"):
            # planning overwrites the arrays it is given
            for a, t in zip(args, ts):
                if "double" in t and "*" in t:
                    for l in self.pv(a):
                        self.write(l, ln, None, None)
            self.write((("g", "fftw-planner"), ()), ln, None, None)
            return set()
        if name.startswith("fftw_import") or name.startswith("fftw_forget") or name == "fftw_plan_with_nthreads":
            self.write((("g", "fftw-planner"), ()), ln, None, None)
            return set()
        res = set()
        for k, a in enumerate(args):
            t = ts[k] if k < len(ts) else "?"
            at = ptype(a) or ""
            if name.startswith("fftw_execute") and k == 0:
                continue
            if self.E.preserve and k == 1 and name in ("fftw_execute_dft", "fftw_execute_dft_r2c", "fftw_execute_r2r",
                                                       "fftw_execute_split_dft", "fftw_execute_split_dft_r2c"):
                continue
            if t.startswith("const ") and not t.rstrip().endswith("**"):
                if isref(t):
                    res |= self.lv(a)
                continue
            if isref(t):
                for l in self.lv(a):
                    self.write(l, ln, None, None)
            elif isptr(t) or "(*)[" in t:
                for l in self.pv(a):
                    self.write(l, ln, None, None)
        if name in ("malloc", "fftw_malloc"):
            return {(("n", "%s:%s" % (self.f["id"], ln)), ())}
        return res

    def write(self, loc, ln, callee, cl):
        r = loc[0]
        if r[0] in ("l", "n"):
            return
        if r[0] == "p" and (not loc[1] or loc[1][0] != "*"):
            return
        if loc not in self.eff.writes:
            self.eff.writes.add(loc)
            self.eff.why[loc] = (ln, callee, cl)
            self.changed = True

    def addpts(self, vid, locs):
        s = self.pts.setdefault(vid, set())
        if not locs <= s:
            s |= locs
            self.changed = True
            self.loc_changed = True

    def analyse(self):
        self.changed = False
        ever = False
        for _ in range(30):
            self.loc_changed = False
            c0 = self.changed
            self.changed = False
            self.step()
            ever = ever or self.changed
            if not self.loc_changed:
                break
        return ever

    def step(self):
        f = self.f
        for n in self.nodes:
            k = n.get("k")
            if k == "var":
                t = n["t"]
                i = n.get("init")
                if i is not None:
                    if isref(t):
                        self.addpts(n["id"], self.lv(i))
                    elif isptr(t):
                        self.addpts(n["id"], self.pv(i))
            elif k == "asg":
                l = n["l"]
                for x in self.lv(l):
                    self.write(x, n.get("ln"), None, None)
                b = strip(l)
                if n["op"] == "=" and b.get("k") == "ref" and b.get("vk") in ("local", "param"):
                    t = self.loct.get(b["id"]) or (self.pidx.get(b["id"]) or (0, ""))[1]
                    if isptr(t):
                        self.addpts(b["id"], self.pv(n["r"]))
                elif n["op"] == "=" and b.get("k") == "idx":
                    # local arrays of pointers
                    bb = strip(b["b"])
                    for r, sl in self.lv(b):
                        if r[0] == "l" and sl == ("*",) and isptr(b.get("t")):
                            c = self.cont.setdefault(r, set())
                            v = self.pv(n["r"])
                            if not v <= c:
                                c |= v
                                self.changed = self.loc_changed = True
            elif k == "un" and n["op"] in ("++", "--"):
                for x in self.lv(n["e"]):
                    self.write(x, n.get("ln"), None, None)
            elif k in ("call", "mpcall"):
                self.call(n)
            elif k == "ctor":
                ef = self.E.eff.get(n.get("fn"))
                if ef is not None:
                    t = self.E.p.funcs[n["fn"]]
                    m = self.bind(t, n)
                    for w in list(ef.writes):
                        if w[0][0] != "this":
                            for l in m(w):
                                self.write(l, n.get("ln"), t["id"], w)
            elif k == "delete":
                for d in self.dtors(n):
                    ef = self.E.eff.get(d["id"])
                    if ef:
                        for w in list(ef.writes):
                            if w[0][0] == "g":
                                self.write(w, n.get("ln"), d["id"], w)
                # the storage itself is written by the deallocation
                for l in self.pv(n["e"]):
                    self.write(l, n.get("ln"), None, None)
            elif k == "return" and n.get("e") is not None:
                rt = f.get("rt") or ptype(n["e"]) or ""
                r = self.pv(n["e"]) if isptr(ptype(n["e"]) or "") else set()
                if not r and strip(n["e"]).get("k") in ("ref", "mem", "idx", "un") and not isptr(ptype(n["e"]) or ""):
                    r = self.lv(n["e"])
                r = {x for x in r if x[0][0] in ("this", "p", "g", "n")}
                if not r <= self.eff.ret:
                    self.eff.ret |= r
                    self.changed = True
        if f["kind"] == "ctor":
            for i in f.get("inits", []):
                if i.get("field"):
                    self.write((("this",), (i["field"],)), i.get("ln"), None, None)
