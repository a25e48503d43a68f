"""Context-sensitive copies of functions: receiver class, constant bool and
null/non-null pointer arguments and constant fields are propagated down the
call graph, decided branches are pruned.  The copies are ordinary functions of
a derived Program, so every other engine runs on them unchanged."""
import copy
from .repo import walk, strip, Program


class View(Program):
    def __init__(self, prog):
        self.raw = prog.raw
        self.funcs = dict(prog.funcs)
        self.byname = prog.byname
        self.classes, self.globals, self.diags, self.sub = prog.classes, prog.globals, prog.diags, prog.sub
        self.orig = prog


def isptr(t):
    t = (t or "").rstrip()
    return t.endswith("*") or "(*)" in t


class Special:
    """fields: {(class, field): bool} assumed constant"""

    def __init__(self, prog, fields=None):
        self.p = prog
        self.view = View(prog)
        self.fields = fields or {}
        self.made = {}
        self.todo = []

    def root(self, f, recv=None, consts=None):
        """all pointer parameters non-null and distinct"""
        c = {i: "nn" for i, a in enumerate(f["params"]) if isptr(a["t"])}
        c.update(consts or {})
        i = self.get(f["id"], recv, frozenset(c.items()))
        while self.todo:
            self.build(*self.todo.pop())
        return i

    def get(self, fid, recv, consts):
        f = self.p.funcs.get(fid)
        if f is None or not f["isdef"]:
            return fid
        k = (fid, recv, consts)
        if k not in self.made:
            self.made[k] = "%s @%s%s" % (fid, (recv or "").split("::")[-1], "".join(",%s=%s" % c for c in sorted(consts, key=str)))
            g = dict(f)
            g["id"] = self.made[k]
            self.view.funcs[g["id"]] = g
            self.todo.append((g, f, recv, dict(consts)))
        return self.made[k]

    def build(self, g, f, recv, consts):
        env = {f["params"][i]["id"]: v for i, v in consts.items() if i < len(f["params"])}
        body = copy.deepcopy(f["body"])
        body = self.tr(body, env, recv)
        # a parameter reassigned on a surviving path is not constant
        lost = set()
        for n in walk(body):
            if n.get("k") == "asg" and strip(n["l"]).get("k") == "ref" and strip(n["l"])["id"] in env:
                i = strip(n["l"])["id"]
                if env[i] != "nn":
                    lost.add(i)
        if lost:
            env = {k: v for k, v in env.items() if k not in lost}
            body = self.tr(copy.deepcopy(f["body"]), env, recv)
        self.calls(body, env, recv, f)
        g["body"] = body
        g["recv"] = recv

    def val(self, e, env):
        """True/False/'nn'/'null'/None"""
        e = strip(e) if isinstance(e, dict) else {}
        while e.get("k") in ("defarg", "cast", "icast", "rv", "paren") and isinstance(e.get("e"), dict):
            e = strip(e["e"])
        k = e.get("k")
        if k == "bool":
            return bool(e["v"])
        if k == "null":
            return "null"
        if k == "int" and e.get("v") in ("0", 0):
            return "null"
        if k == "ref":
            return env.get(e["id"])
        if k == "mem":
            return self.fields.get((e.get("c"), e.get("f")))
        if k == "un" and e.get("op") == "!":
            v = self.truth(self.val(e["e"], env))
            return None if v is None else not v
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                a, b = self.truth(self.val(e["l"], env)), self.truth(self.val(e["r"], env))
                if op == "&&":
                    return False if a is False or b is False else True if a and b else None
                return True if a or b else False if a is False and b is False else None
            if op in ("==", "!=", "^"):
                l, r = strip(e["l"]), strip(e["r"])
                a, b = self.val(l, env), self.val(r, env)
                x = None
                if op == "^":
                    a, b = self.truth(a), self.truth(b)
                    return None if a is None or b is None else a != b
                if a == "nn" and b == "null" or a == "null" and b == "nn":
                    x = False
                elif a == "null" and b == "null":
                    x = True
                elif a == "nn" and b == "nn":
                    ids = [self.pid(l), self.pid(r)]
                    if None not in ids:
                        x = ids[0] == ids[1]
                elif isinstance(a, bool) and isinstance(b, bool):
                    x = a == b
                return None if x is None else (x if op == "==" else not x)
        return None

    def pid(self, e):
        while e.get("k") in ("cast", "icast", "rv", "paren"):
            e = strip(e["e"])
        return e.get("id") if e.get("k") == "ref" else None

    def truth(self, v):
        return True if v in (True, "nn") else False if v in (False, "null") else None

    def tr(self, n, env, recv):
        if isinstance(n, list):
            return [self.tr(x, env, recv) for x in n]
        if not isinstance(n, dict):
            return n
        k = n.get("k")
        if k == "if" and not n.get("var"):
            v = self.truth(self.val(n["c"], env))
            if v is not None:
                b = n["then"] if v else n.get("else")
                pre = n.get("init")
                out = {"k": "block", "ln": n.get("ln"), "s": [x for x in (pre, b) if x]}
                return self.tr(out, env, recv)
        if k == "cond":
            v = self.truth(self.val(n["c"], env))
            if v is not None:
                return self.tr(n["l"] if v else n["r"], env, recv)
        return {x: self.tr(y, env, recv) for x, y in n.items()}

    def calls(self, body, env, recv, f):
        for n in walk(body):
            if n.get("k") != "call" or not n.get("fn") or n["fn"] not in self.p.funcs:
                continue
            g = self.p.funcs[n["fn"]]
            c = {}
            for i, a in enumerate(n.get("args") or []):
                if i >= len(g["params"]):
                    break
                v = self.val(a, env)
                t = g["params"][i]["t"]
                if v is not None and (isptr(t) and v in ("nn", "null") or t == "bool" and isinstance(v, bool)):
                    c[i] = v
            r = None
            if g.get("cls") and not g.get("static"):
                o = strip(n.get("obj") or {})
                t = o.get("t", "")
                if o.get("k") == "this":
                    r = recv if recv and g["cls"] in [recv] + list(self.p.bases(recv)) else None
                else:
                    s = t.replace("const ", "").rstrip("*& ").strip()
                    if s in self.p.classes and (s == g["cls"] or g["cls"] in self.p.bases(s)):
                        if not n.get("virt") or not self.overridden(g, s):
                            r = s
            if n.get("virt") and g.get("virt"):
                if r is None:
                    continue
                g = self.resolve(g, r)
            n["fn"] = self.get(g["id"], r, frozenset(c.items()))
            n["virt"] = False

    def resolve(self, g, cls):
        from .repo import sigof
        for c in self.p.bases(cls):
            for h in self.p.byname.get(c + "::" + g["base"], []):
                if sigof(h) == sigof(g) and h["isdef"]:
                    return h
        return g

    def overridden(self, g, cls):
        from .repo import sigof
        for d in self.p.derived(cls):
            if d == cls:
                continue
            for h in self.p.byname.get(d + "::" + g["base"], []):
                if sigof(h) == sigof(g):
                    return True
        return False
