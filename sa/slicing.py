"""Removes from a function's body the loops and branches that cannot touch any
of the given member fields (used to keep the typestate engine fast)."""
import copy
from .repo import walk, strip


def slicebody(prog, f, fields):
    """f with every loop/branch dropped that mentions none of `fields`, calls no
    member function and assigns no variable declared outside it"""
    g = dict(f)
    taint = set()
    while True:
        n0 = len(taint)
        for x in walk(f["body"]):
            ds = []
            if x.get("k") == "decl":
                ds = [(d.get("id"), d.get("init")) for d in x["d"]]
            elif x.get("k") == "asg" and strip(x["l"]).get("k") == "ref":
                ds = [(strip(x["l"])["id"], x["r"])]
            for i, e in ds:
                if e and i not in taint and any(y.get("k") == "mem" and y.get("f") in fields or
                                                y.get("k") == "ref" and y["id"] in taint for y in walk(e)):
                    taint.add(i)
        if len(taint) == n0:
            break
    fields = (fields, taint)
    g["body"] = _block(prog, copy.deepcopy(f["body"]), fields)
    return g


def _needed(prog, n, fields):
    decl, asg = set(), set()
    for x in walk(n):
        k = x.get("k")
        if k == "mem" and x.get("f") in fields[0] or k == "ref" and x["id"] in fields[1]:
            return True
        if k == "call":
            g = prog.funcs.get(x.get("fn") or "")
            if g is not None and g.get("cls") and not g.get("static") and not g["cls"].startswith(("std::", "Complex")) \
                    and strip(x.get("obj") or {}).get("k") in ("this", None):
                return True
        if k in ("mpcall", "return", "break", "continue", "goto", "new", "delete", "throw", "lambda"):
            return True
        if k == "decl":
            for d in x["d"]:
                decl.add(d.get("id"))
        if k in ("asg",):
            l = strip(x["l"])
            if l.get("k") == "ref":
                asg.add(l["id"])
        if k == "un" and x.get("op") in ("++", "--"):
            l = strip(x["e"])
            if l.get("k") == "ref":
                asg.add(l["id"])
    return bool(asg - decl)


def _block(prog, n, fields):
    if isinstance(n, list):
        out = []
        for x in n:
            y = _block(prog, x, fields)
            if y is not None:
                out.append(y)
        return out
    if not isinstance(n, dict):
        return n
    k = n.get("k")
    if k in ("for", "while", "do", "omp", "if"):
        if not _needed(prog, n, fields):
            return {"k": "nop"}
        for key in ("then", "else", "body"):
            if isinstance(n.get(key), dict):
                n[key] = _block(prog, n[key], fields)
        return n
    if k == "block":
        n["s"] = _block(prog, n["s"], fields)
    return n
