"""Pretty printer for exported expressions (messages and debugging)."""


def pe(e, d=0):
    if e is None:
        return ""
    if not isinstance(e, dict):
        return str(e)
    if d > 12:
        return "..."
    k = e.get("k")
    P = lambda x: pe(x, d + 1)
    if k in ("rv", "icast", "defarg"):
        return P(e["e"])
    if k == "cast":
        return "(%s)%s" % (e.get("t", ""), P(e["e"]))
    if k == "ref":
        return e["n"]
    if k == "mem":
        b = e.get("b")
        if b is None or b.get("k") == "this":
            return e["f"]
        return P(b) + ("->" if e.get("arrow") else ".") + e["f"]
    if k == "memfn":
        return "%s.%s" % (P(e.get("b")), e.get("f", e.get("name", "?")))
    if k == "idx":
        return "%s[%s]" % (P(e["b"]), P(e["i"]))
    if k == "un":
        op = e["op"]
        return P(e["e"]) + op if e.get("post") else op + P(e["e"])
    if k in ("bin", "asg"):
        return "(%s %s %s)" % (P(e["l"]), e["op"], P(e["r"]))
    if k == "cond":
        return "(%s ? %s : %s)" % (P(e["c"]), P(e["l"]), P(e["r"]))
    if k == "call":
        o = e.get("obj")
        pre = ""
        if o is not None and o.get("k") != "this":
            pre = P(o) + ("->" if e.get("arrow") else ".")
        n = (e.get("name") or "?").split("::")[-1] if e.get("name") else P(e.get("callee"))
        return "%s%s(%s)" % (pre, n, ",".join(P(a) for a in e.get("args", [])))
    if k == "mpcall":
        return "(%s)(%s)" % (P(e["callee"]), ",".join(P(a) for a in e.get("args", [])))
    if k == "ptrmem":
        return "%s->*%s" % (P(e["b"]), P(e["p"]))
    if k == "ctor":
        return "%s(%s)" % (e.get("cls"), ",".join(P(a) for a in e.get("args", [])))
    if k == "new":
        return "new %s%s" % (e.get("t"), "[%s]" % P(e["size"]) if e.get("array") else "(%s)" % P(e.get("init")))
    if k == "delete":
        return "delete%s %s" % ("[]" if e.get("array") else "", P(e["e"]))
    if k in ("int", "float", "bool", "char"):
        return str(e.get("v"))
    if k == "str":
        return repr(e.get("v"))
    if k == "null":
        return "NULL"
    if k == "this":
        return "this"
    if k == "sizeof":
        return "sizeof(%s)" % e.get("t")
    if k == "fnptr":
        return "&" + str(e.get("name"))
    return "<%s>" % k


def ps(s, ind=0, out=None):
    top = out is None
    if out is None:
        out = []
    I = "  " * ind
    k = s.get("k") if s else None
    if s is None:
        out.append(I + ";")
    elif k == "block":
        for x in s["s"]:
            ps(x, ind, out)
    elif k == "decl":
        for v in s["d"]:
            out.append(I + "%s %s%s" % (v.get("t"), v.get("n"), " = " + pe(v["init"]) if v.get("init") else ""))
    elif k == "expr":
        out.append(I + pe(s["e"]))
    elif k == "if":
        out.append(I + "if " + pe(s["c"]))
        ps(s["then"], ind + 1, out)
        if s.get("else"):
            out.append(I + "else")
            ps(s["else"], ind + 1, out)
    elif k == "for":
        i = []
        if s.get("init"):
            ps(s["init"], 0, i)
        out.append(I + "for(%s; %s; %s)" % (" ".join(i), pe(s.get("c")), pe(s.get("inc"))))
        ps(s["body"], ind + 1, out)
    elif k in ("while", "do"):
        out.append(I + k + " " + pe(s.get("c")))
        ps(s["body"], ind + 1, out)
    elif k == "return":
        out.append(I + "return " + pe(s.get("e")))
    elif k == "omp":
        out.append(I + "#omp %s %s" % (s.get("dir"), [(c["kind"], [pe(a) for a in c.get("args", [])]) for c in s.get("clauses", [])]))
        ps(s["body"], ind, out)
    else:
        out.append(I + "<%s>" % k)
    if top:
        return "\n".join(out)
