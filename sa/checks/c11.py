"""C11: accumulated planner wisdom survives: merged, written to a private file and moved into place."""
from ..common import load
from ..repo import walk, strip
from ..algebra import R, Undecided, toR, P, Poly
from ..xform import Xf, NULL, clean
from .c07 import guard, short

EXPLANATION = """Path-sensitive evaluation of the planner hook and of every function of fftw++.cc that touches wisdom, with
called functions followed: each path is a sequence of events (file names built, files opened, written, closed, renamed;
wisdom forgotten, imported, exported; flags set), on which the ordering rules are decided."""
RULE = """violation: the wisdom file itself is opened for writing or removed; a rename into place whose source is not the
file written, is not private to the process and in the same directory, is still open or was not found to be written completely; wisdom
exported for saving without the file's current contents and this process's additions; a planning miss that is not
remembered (additions, in-memory wisdom, flag, exit handler) or that leaves the wisdom-only flag set."""
ASSUMPTIONS = ["rename within a directory is atomic", "getpid distinguishes concurrent processes", "fftw_export_wisdom_to_string includes all imported wisdom"]
TECHNIQUE = "typestate over all paths of the wisdom functions"
NOTE = "Complete over the paths of the functions analysed; FFTW's own import and export are assumed."

STREAM = ("good", "fail", "bad", "operator bool", "operator!", "is_open")


class W(Xf):
    def follow(self, f):
        return True

    def gname(self, e):
        e = strip(e)
        if e.get("k") in ("ref", "mem") and (e.get("vk") in ("global", "slocal") or e.get("k") == "ref" and e["id"] in self.stat):
            return e.get("n") or e.get("f")
        return None

    stat = {}

    def e_ref(self, e):
        g = self.gname(e)
        if g and clean(e.get("t")) in ("bool", "size_t", "unsigned long", "unsigned int", "int", "char *"):
            return self.m.fields.get(("glob", g), ("objf", "glob", g) if "*" in e["t"] else R(Poly.sym(("g", g))))
        return super().e_ref(e)

    def e_asg(self, e):
        g = self.gname(e["l"])
        if g:
            v = self.val(self.ev(e["r"]))
            if e["op"] == "=":
                self.m.fields[("glob", g)] = toR(int(v)) if v is True or v is False else v
            self.m.events.append(("gset", g, e["op"], v, e.get("ln"), flagged(e["r"])))
            return self.ev(e["l"])
        return super().e_asg(e)

    def e_un(self, e):
        if e["op"] == "~":
            v = self.val(self.ev(e["e"]))
            return R(Poly.sym(("compl", repr(v))))
        return super().e_un(e)

    def decl(self, d):
        if d.get("static"):
            self.stat = dict(self.stat)
            self.stat[d["id"]] = d["n"]
            self.m.env[d["id"]] = ("box", [R(Poly.sym(("g", d["n"])))])
            return
        super().decl(d)

    def e_call(self, e):
        n = (e.get("name") or "").split("::")[-1]
        if not n:
            for a in e["args"]:
                self.rval(a)
            self.m.events.append(("call", "(indirect)", None, None, [], e.get("ln"), ()))
            return ("res", len(self.m.events) - 1)
        if n in ("operator<<", "operator+", "operator+=", "operator="):
            ops = ([e["obj"]] if e.get("obj") is not None else []) + list(e["args"])
            v = [self.val(self.ev(x)) for x in ops]
            if len(v) == 2 and all(not isinstance(x, tuple) or x[0] != "agg" for x in v):
                if n == "operator+":
                    return ("cat", v[0], v[1])
                if n == "operator<<":
                    self.m.events.append(("<<", v[0], v[1], e.get("ln")))
                    return v[0]
                if n == "operator=":
                    self.m.events.append(("strset", v[0], v[1], e.get("ln")))
                else:
                    self.m.events.append(("<<", v[0], v[1], e.get("ln")))
                return v[0]
        if n in STREAM and e.get("obj") is not None:
            o = self.val(self.ev(e["obj"]))
            self.m.events.append(("call", n, None, o, [], e.get("ln"), ()))
            return ("res", len(self.m.events) - 1)
        return super().e_call(e)

    def opaque(self, v):
        return super().opaque(v) or isinstance(v, tuple) and v and v[0] == "cat"


def flagged(e):
    for n in walk(e):
        if n.get("k") == "int" and int(n["v"]) == 1 << 21:
            return True
        if n.get("k") == "bin" and n.get("op") == "<<" and strip(n["r"]).get("k") == "int" and int(strip(n["r"])["v"]) == 21:
            return True
    return False


def run(rep, tier):
    p = load(["fftw"])
    W.stat = {}
    mine = [f for f in p.defs() if f["file"] == "fftw++.cc"]
    called = {n.get("fn") for f in mine for n in walk(f.get("body") or {}) if n.get("k") == "call"}
    for f in mine:
        if f["id"] in called:
            continue            # followed from its callers
        calls = [(n.get("name") or "").split("::")[-1] for n in walk(f.get("body") or {}) if n.get("k") == "call"]
        touch = [c for c in calls if c in ("rename", "remove", "unlink", "fopen", "creat", "truncate", "open", "fftw_export_wisdom_to_file",
                                           "fftw_export_wisdom_to_filename", "fftw_export_wisdom_to_string", "saveWisdom", "atexit")]
        if "fftw_plan" in (f.get("ret") or "") or any(c == "Plan" for c in calls):
            guard(rep, short(f), planner, p, rep, f)
        elif touch or any("stream" in (n.get("t") or "") for n in walk(f.get("body") or {}) if n.get("k") == "decl"):
            guard(rep, short(f), files, p, rep, f)
    rep.need("save_paths", 1)
    rep.need("planner_paths", 2)


def paths(p, f):
    I = W(p, "none", record=())
    args = [("sym", q["n"]) for q in f["params"]]
    return I.runall(f, args)


def origin(m, v, at):
    """what a name or stream handle refers to: the parts of the text"""
    while isinstance(v, tuple) and v[0] == "res":
        e = m.events[v[1]]
        if e[0] == "call" and e[1] in ("c_str", "str", "data", "rdbuf") and e[3] is not None:
            at, v = v[1], e[3]
            if e[1] == "str" and e[4]:
                return [("?",)]
        elif e[0] == "ctor" and "string" in (e[1] or "") and e[4] and "stream" not in e[1]:
            v = e[4][0]
        elif e[0] == "call" and e[1] == "to_string":
            v = e[4][0] if isinstance(e[4][0], tuple) else ("num", repr(e[4][0]))
        else:
            break
    if isinstance(v, tuple) and v[0] == "cat":
        return origin(m, v[1], at) + origin(m, v[2], at)
    return content(m, v, at)


def content(m, o, at):
    """parts appended to a stream or string object before event `at`"""
    if not isinstance(o, tuple) or o[0] not in ("objf", "res"):
        return [o]
    if o == ("objf", "glob", "wisdomName"):
        return [("name",)]
    if o[0] == "objf" and len(o) > 1 and o[1] == "lit":
        return [o]
    if o[0] == "res" and m.events[o[1]][0] == "call":
        n = m.events[o[1]][1]
        return [("pid",)] if n == "getpid" else [o]
    out = [("init",)] if o[0] == "objf" else []
    for k, e in enumerate(m.events[:at]):
        if e[0] == "call" and e[1] in ("str", "assign") and e[3] == o and e[4]:
            out = origin(m, e[4][0], k) if e[4][0] not in (None,) else []
            out = [x for x in out if x != ("objf", "lit", "") and x[:3] != ("objf", "lit", None)]
        elif e[0] == "strset" and e[1] == o:
            out = origin(m, e[2], k)
        elif e[0] == "<<" and e[1] == o:
            out = out + origin(m, e[2], k)
        elif e[0] == "call" and e[1] == "clear" and e[3] == o and "stream" not in str(o):
            pass
    return out


def opens(m):
    """(event index, stream, name parts, writing) of every file opened"""
    out = []
    for k, e in enumerate(m.events):
        if e[0] == "call" and e[1] == "open" and e[3] is not None and e[4]:
            t = kind(m, e[3])
            out.append((k, e[3], origin(m, e[4][0], k), t))
        elif e[0] == "ctor" and "stream" in (e[1] or "") and "stringstream" not in e[1] and e[4]:
            out.append((k, ("res", k), origin(m, e[4][0], k), "r" if "ifstream" in e[1] else "w"))
        elif e[0] == "call" and e[1] == "fopen":
            mode = origin(m, e[4][1], k)[0]
            out.append((k, ("res", k), origin(m, e[4][0], k), "r" if mode[:3] == ("objf", "lit", "r") else "w"))
        elif e[0] == "call" and e[1] in ("creat", "truncate", "fftw_export_wisdom_to_filename"):
            out.append((k, ("res", k), origin(m, e[4][0], k), "w"))
    return out


def kind(m, o):
    if o[0] == "res":
        t = m.events[o[1]][1] or ""
        return "r" if "ifstream" in t or "istream" in t and "basic_istream" in t else "w"
    return "w"


def idx(m, name, pred=lambda e: True):
    return [k for k, e in enumerate(m.events) if e[0] == "call" and e[1] == name and pred(e)]


def isname(x):
    return x == [("name",)]


def files(p, rep, f):
    for r, m, ex in paths(p, f):
        rep.count("paths")
        d = dangling(m)
        if d:
            return rep.bad("dangling:" + short(f), f["file"], ln(m, d[0]) or f["ln"], "%s: %s" % (short(f), d[1]))
        ops = opens(m)
        for k, o, parts, mode in ops:
            if mode == "w" and isname(parts):
                return rep.bad("in-place:" + short(f), f["file"], ln(m, k) or f["ln"], "%s opens the wisdom file itself for writing" % short(f))
        for nm in ("remove", "unlink"):
            for k in idx(m, nm):
                if isname(origin(m, m.events[k][4][0], k)):
                    return rep.bad("removed:" + short(f), f["file"], ln(m, k) or f["ln"], "%s removes the wisdom file" % short(f))
        ren = idx(m, "rename")
        for k in ren:
            if isname(origin(m, m.events[k][4][0], k)):
                return rep.bad("removed:" + short(f), f["file"], ln(m, k) or f["ln"], "%s renames the wisdom file away" % short(f))
        wr = [x for x in ops if x[3] == "w"]
        if not wr:
            if any(c[0] == "rel" and "wiser" in repr(c) and b == (c[1] == "!=") for c, b in m.conds) and f["base"] == "saveWisdom":
                return rep.bad("unsaved:" + short(f), f["file"], f["ln"], "%s does not write the wisdom gained" % short(f))
            continue
        rep.count("save_paths")
        ok = [(j, s, parts) for j, s, parts, _ in wr]
        for j, s, parts in ok:
            where = (f["file"], ln(m, j) or f["ln"])
            if parts and parts[0] == ("init",):
                return rep.bad("temporary:" + short(f), *where, msg="%s writes to a file whose name begins with what earlier calls left in the name buffer" % short(f))
            if not parts or parts[0] != ("name",):
                return rep.bad("temporary:" + short(f), *where, msg="%s writes to a file that may lie in another directory than the wisdom file" % short(f))
            if ("pid",) not in parts:
                return rep.bad("private:" + short(f), *where, msg="%s writes to a file that other processes write as well" % short(f))
            w = [k for k, e in enumerate(m.events) if e[0] == "<<" and e[1] == s and k > j]
            ws = [k for k in w if isinstance(m.events[k][2], tuple) and m.events[k][2][0] == "res" and
                  m.events[m.events[k][2][1]][1] == "fftw_export_wisdom_to_string"]
            if not ws:
                raise Undecided("what is written")
            exp = m.events[ws[-1]][2][1]
            close = idx(m, "close", lambda e: e[3] == s)
            mv = [k for k in ren if isname(origin(m, m.events[k][4][1], k)) and k > j]
            tested = [c for c in tests(m, s) if c[0] > ws[-1]]
            if not mv:
                if tested:
                    continue
                return rep.bad("moved:" + short(f), *where, msg="%s does not move the file it wrote into place" % short(f))
            k = mv[0]
            if origin(m, m.events[k][4][0], k) != parts:
                return rep.bad("moved:" + short(f), f["file"], ln(m, k), "%s renames another file than the one it wrote" % short(f))
            if not [c for c in close if max(w) < c < k] and not gone(m, s, k):
                return rep.bad("closed:" + short(f), f["file"], ln(m, k), "%s moves the file into place before it is closed" % short(f))
            if not [c for c in tested if c[0] < k]:
                return rep.bad("complete:" + short(f), f["file"], ln(m, k), "%s replaces the wisdom file without checking that the new one was written" % short(f))
            if any(not c[1] for c in tested if c[0] < k):
                return rep.bad("complete:" + short(f), f["file"], ln(m, k), "%s replaces the wisdom file although writing the new one failed" % short(f))
            forget = [x for x in idx(m, "fftw_forget_wisdom") if x < exp]
            start = forget[-1] if forget else -1
            imp = [x for x in idx(m, "fftw_import_wisdom_from_string") + idx(m, "fftw_import_wisdom_from_filename") if start < x < exp]
            rd = [x for x in ops if x[3] == "r" and isname(x[2]) and x[0] < exp]
            if not [x for x in imp if not isepi(m, m.events[x][4][0])] or not rd:
                return rep.bad("merged:" + short(f), f["file"], ln(m, exp), "%s saves without merging the current contents of the wisdom file" % short(f))
            have = [b for c, b in m.conds if c[0] == "nn" and "epiphany" in str(c[1])]
            if (not have or have[0]) and not [x for x in imp if isepi(m, m.events[x][4][0])]:
                return rep.bad("additions:" + short(f), f["file"], ln(m, exp), "%s saves without the wisdom gained by this process" % short(f))


def isepi(m, v):
    return v == ("objf", "glob", "epiphany")


def gone(m, s, k):
    return False


def tests(m, s):
    """(event, success) of tests of a stream that decide the path"""
    out = []
    nn = {c[1]: b for c, b in m.conds if c[0] == "nn"}
    rel = [(repr(c), c, b) for c, b in m.conds if c[0] == "rel"]
    for k, e in enumerate(m.events):
        if e[0] == "call" and e[1] in STREAM and e[3] == s:
            r = repr(("res", k))
            b = nn.get(r)
            if b is None:
                for t, c, x in rel:
                    if r in t:
                        b = x == (c[1] == "!=")
            if b is not None:
                out.append((k, b != (e[1] in ("fail", "bad", "operator!"))))
    return out


def ln(m, k):
    e = m.events[k]
    return e[5] if e[0] in ("call", "ctor") and len(e) > 5 else None


# ---------------------------------------------------------------- planning
def dangling(m):
    """a kept text that is freed and then used, or still kept at the end of the path"""
    for k in idx(m, "fftw_free") + idx(m, "free"):
        a = m.events[k][4][0]
        if isepi(m, a):
            later = [j for j, e in enumerate(m.events) if j > k and e[0] == "gset" and e[1] == "epiphany"]
            end = later[0] if later else len(m.events) + 1
            use = [j for j, e in enumerate(m.events) if k < j < end and e[0] == "call" and e[4] and any(isepi(m, x) for x in e[4])]
            if use or not later:
                return k, "the text of the wisdom gained is freed and still kept for later use"
        elif isinstance(a, tuple) and a[0] == "res":
            if [j for j, e in enumerate(m.events) if j > k and (e[0] == "<<" and e[2] == a or e[0] == "call" and e[4] and any(x == a for x in e[4]))]:
                return k, "the text of the wisdom is used after it is freed"
    return None


def planner(p, rep, f):
    ps = paths(p, f)
    reads = [1 for r, m, ex in ps if idx(m, "Plan") and [x for x in opens(m) if x[3] == "r" and isname(x[2]) and x[0] < idx(m, "Plan")[0]]]
    if ps and not reads and any(idx(m, "Plan") for r, m, ex in ps):
        rep.bad("unread:" + short(f), f["file"], f["ln"], "%s plans without reading the saved wisdom" % short(f))
    for r, m, ex in ps:
        d = dangling(m)
        if d:
            return rep.bad("dangling:" + short(f), f["file"], ln(m, d[0]) or f["ln"], "%s: %s" % (short(f), d[1]))
        if ex:
            continue
        pl = idx(m, "Plan")
        if not pl:
            continue
        rep.count("planner_paths")
        only = False
        state = {}
        for k, e in enumerate(m.events):
            if e[0] == "gset" and e[1] == "effort":
                if e[2] == "=":
                    only = e[5]
                elif e[5] and e[2] in ("|=", "&="):
                    only = e[2] == "|="
            state[k] = only
        if only:
            return rep.bad("flag:" + short(f), f["file"], f["ln"], "%s leaves the wisdom-only flag set" % short(f))
        rd = [x for x in opens(m) if x[3] == "r" and isname(x[2])]
        stored = {repr(("res", k)) for k in pl}
        nn = {c[1]: b for c, b in m.conds if c[0] == "nn"}
        fresh = [k for k in pl if not state.get(k)]
        if not fresh:
            if nn.get(repr(("res", pl[0]))) is not True:
                return rep.bad("unplanned:" + short(f), f["file"], f["ln"], "%s gives up when no wisdom exists" % short(f))
            continue
        k = fresh[-1]
        rep.count("planning_misses")
        sets = [(j, e) for j, e in enumerate(m.events) if e[0] == "gset"]
        if not [1 for j, e in sets if e[1] == "wiser" and one(e[3])] or [1 for j, e in sets if e[1] == "wiser" and not one(e[3])][-1:]:
            return rep.bad("wiser:" + short(f), f["file"], f["ln"], "%s does not note that wisdom was gained" % short(f))
        epi = [(j, e) for j, e in sets if e[1] == "epiphany" and isinstance(e[3], tuple) and e[3][0] == "res" and
               m.events[e[3][1]][1] == "fftw_export_wisdom_to_string" and e[3][1] > k]
        if not epi:
            return rep.bad("additions:" + short(f), f["file"], ln(m, k) or f["ln"], "%s does not keep the wisdom gained" % short(f))
        exp = epi[-1][1][3][1]
        forget = [x for x in idx(m, "fftw_forget_wisdom")]
        imps = idx(m, "fftw_import_wisdom_from_string")
        if [x for x in forget if k < x < exp]:
            return rep.bad("additions:" + short(f), f["file"], ln(m, k) or f["ln"], "%s forgets the new wisdom before keeping it" % short(f))
        have = [b for c, b in m.conds if c[0] == "nn" and "epiphany" in str(c[1])]
        before = [x for x in forget if x < exp]
        if (not have or have[0]) and before and not [x for x in imps if before[-1] < x < exp and isepi(m, m.events[x][4][0])]:
            return rep.bad("earlier:" + short(f), f["file"], ln(m, exp), "%s loses the wisdom gained earlier" % short(f))
        if forget:
            old = [x for x in idx(m, "fftw_export_wisdom_to_string") if x < forget[0]]
            back = [x for x in imps if x > forget[-1] and any(m.events[x][4][0] == ("res", o) for o in old)]
            if not back:
                return rep.bad("experience:" + short(f), f["file"], ln(m, forget[0]), "%s drops the wisdom in memory" % short(f))
        first = [b for c, b in m.conds if "'first'" in repr(c)]
        reg = [x for x in idx(m, "atexit") if "saveWisdom" in repr(m.events[x][4])]
        hooks = any((n.get("name") or "").split("::")[-1] == "atexit" for n in walk(f["body"]))
        if not hooks and not reg or first and entered(m) and not reg:
            return rep.bad("exit:" + short(f), f["file"], f["ln"], "%s does not arrange for the wisdom to be saved" % short(f))


def entered(m):
    """the once-only branch was taken"""
    for c, b in m.conds:
        if "'first'" in repr(c) and c[0] == "rel":
            return b == (c[1] == "!=")
        if "'first'" in repr(c):
            return b
    return False


def one(v):
    return v is True or isinstance(v, R) and v.same(toR(1))


