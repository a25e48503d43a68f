"""Runs life.py over a class: every constructor, optional operations, destructor."""
from .life import Life, St, Limit


def concrete(prog, c):
    """no pure virtual method remains"""
    k = prog.classes.get(c)
    return k is not None and not k.get("abstract")


def ctors(prog, c):
    return [f for f in prog.byname.get(c + "::<ctor>", []) if f["isdef"] and f.get("body") is not None
            and not (len(f["params"]) >= 1 and f["params"][0]["t"].replace("const ", "").rstrip("& ") in (c, c.split("::")[-1]) and f["params"][0]["t"].endswith("&") and len(f["params"]) == 1)]


def dtor(prog, c):
    for f in prog.byname.get(c + "::<dtor>", []):
        return f
    return None


class ObjLife:
    def __init__(self, prog, E, cls):
        self.p, self.cls = prog, cls
        self.L = Life(prog, E)
        self.L.reset()
        self.err = []
        self.L.guards = []
        d = dtor(prog, cls)
        if d is not None and d["isdef"]:
            self.L.setguards(d)

    def construct(self, ctor, pre=None):
        L = self.L
        L.reset()
        L.tracked = {("this",)}
        L.owning = True
        s = L.start(ctor, St())
        if pre is not None and not pre(L, ctor, s):
            return []
        try:
            outs = L.run(ctor, s, ("this",), self.cls)
        except Limit as e:
            self.err.append((ctor["name"], ctor["ln"], str(e)))
            return []
        return [s for fl, v, s in outs]

    def operate(self, m, s):
        """one call of method m, with unknown arguments, on the constructed object"""
        L = self.L
        L.stack, L.callsites, L.loopctx, L.depth, L.steps = [], [], [], 0, 0
        s = L.start(m, s.copy())
        try:
            return [x for fl, v, x in L.run(m, s, ("this",), self.cls)]
        except Limit as e:
            self.err.append((m["name"], m["ln"], str(e)))
            return []

    def destroy(self, s):
        L = self.L
        d = dtor(self.p, self.cls)
        e = {"k": "call", "ln": d["ln"] if d else 0}
        L.thisobj, L.dyn = ("this",), self.cls
        L.stack, L.callsites, L.loopctx, L.depth, L.steps = [], [], [], 0, 0
        if d is None or not d["isdef"]:
            fake = {"id": "<implicit>", "name": self.cls + "::<dtor>", "cls": self.cls, "kind": "dtor", "file": "", "ln": 0,
                    "params": [], "body": {"k": "block", "s": []}}
            d = fake
        s = s.copy()
        L.stack = [d]
        try:
            return [x for fl, v, x in L.body(d, s)]
        except Limit as e:
            self.err.append((d["name"], d["ln"], str(e)))
            return []
