"""C05: a transform whose input and output are different arrays leaves its input alone."""
from ..common import load, effects
from ..execeff import Exec
from ..repo import walk, strip
from .. import dispatch

EXPLANATION = """Two analyses.  (1) For every out-of-place execution entry point (fft, fft0 and their
normalised forms of every complex-to-complex and real-to-complex transform class, specialised to a
receiver whose plan is out of place) the write set is computed over virtual dispatch; it must not
contain the input array.  (2) Path-sensitive abstract construction (symbolic values) of every padding class yields
every combination of installed forward routine and overwrite flag; the write set of the installed
routine is compared with the flag.  (3) Every planner flag the library can pass to FFTW is folded;
FFTW_DESTROY_INPUT may not be among them."""
RULE = """violation: an out-of-place c2c or r2c entry point may write through its input parameter
(except rcfft2d/3d::fft0, documented to shift their input); a padding object can be constructed with
overwrite false and a forward routine that writes its input, or with overwrite true although the
application did not ask for it; a planner flag word contains FFTW_DESTROY_INPUT."""
ASSUMPTIONS = ["FFTW's out-of-place c2c and r2c plans preserve their input unless FFTW_DESTROY_INPUT is given (FFTW manual 4.3.2)"]
TECHNIQUE = "mod-effect inference + path-sensitive abstract interpretation of the dispatch tables"
NOTE = "Write sets over-approximate, so silence is a proof modulo the FFTW model; the converse direction is not claimed."

# documented (fftw++.h header comments): 'input destroyed' complex-to-real and shifting fft0
C2R = ("crfft1d", "crfft2d", "crfft3d", "mcrfft1d", "Mcrfft1d")
SHIFT = ("rcfft2d", "rcfft3d")


def run(rep, tier):
    p = load()
    X = Exec(p)
    fwd = {}
    for c, f, r, kind in X.roots:
        ws = {w[0] for w in X.writes(r)}
        if kind == "forward":
            fwd[(c, f["id"])] = (("p", 0) in ws, r)
            continue
        if kind != "fft" or f["base"] not in ("fft", "fftNormalized", "fft0", "fft0Normalized"):
            continue
        n = c.split("::")[-1].split("<")[0]
        if n in C2R or n.startswith("mcrfft") or (n in SHIFT and f["base"].startswith("fft0")):
            rep.count("documented_destroying_entry_points")
            continue
        if len(f["params"]) < 2:
            continue
        rep.count("preserving_entry_points")
        if ("p", 0) in ws:
            loc = [w for w in X.writes(r) if w[0] == ("p", 0)][0]
            file, ln, txt = X.where(r, loc)
            rep.bad("input:%s:%s" % (c, f["name"]), file or f["file"], ln or f["ln"],
                    "%s on an out-of-place %s writes its input array: %s" % (f["name"], c, txt))
    E = effects(p)
    for (c, i, case), states, err in dispatch.states(p, E):
        rep.count("constructor_cases")
        for e in err:
            rep.undecided.append("%s ctor %d: %s" % (c, i, e))
        for d in states:
            rep.count("states")
            t = dispatch.resolve(p, d.fwd, c)
            if t is None or (c, t) not in fwd:
                rep.undecided.append("%s: forward target unresolved" % c)
                continue
            w, r = fwd[(c, t)]
            if w:
                rep.count("states_writing_input")
            if w and d.overwrite is not True:
                loc = [x for x in X.writes(r) if x[0] == ("p", 0)][0]
                file, ln, txt = X.where(r, loc)
                g = p.funcs[t]
                rep.bad("forward-destroys:%s:%s" % (c, g["base"]), g["file"], g["ln"],
                        "a %s can be constructed with overwrite %s and forward routine %s, which writes its input (%s); path %s" %
                        (c, "false" if d.overwrite is False else "unknown", g["base"], txt, d.path))
            if d.overwrite is True and d.allowed is False:
                rep.bad("overwrite-unasked:%s" % c, p.funcs[d.ctor]["file"], p.funcs[d.ctor]["ln"],
                        "a %s can be constructed with overwrite true although the application forbids it; path %s" % (c, d.path))
    flags(p, rep)
    rep.need("preserving_entry_points", 40)
    rep.need("states", 200)
    rep.need("states_writing_input", 4)
    rep.need("planner_calls", 10)


DESTROY = 1


def flags(p, rep):
    """constant bits of every flag word handed to FFTW's planner"""
    used = set()
    for f in p.defs():
        b = f.get("body")
        if not b:
            continue
        for n in walk(b):
            nm = n.get("name", "").split("::")[-1] if n.get("k") == "call" else ""
            if nm.startswith("fftw") and "_plan_" in nm and not nm.endswith(("nthreads", "timelimit")) and n.get("args") \
                    and not "destroy" in nm:
                rep.count("planner_calls")
                e = n["args"][-1]
                used |= {x["id"] for x in walk(e) if x.get("k") == "ref" and x.get("vk") == "global"}
                bits(p, rep, f, n, e)
    for f in p.defs():
        for n in walk(f.get("body") or {}):
            if n.get("k") == "asg" and n["op"] in ("=", "|=", "^=", "+=") and strip(n["l"]).get("id") in used:
                rep.count("flag_assignments")
                bits(p, rep, f, n, n["r"])
    for g in used:
        g = p.globals.get(g)
        if g and g.get("init"):
            rep.count("flag_initialisers")
            bits(p, rep, dict(g, name=g["id"]), g, g["init"])


def bits(p, rep, f, n, e):
    if setbits(p, e) & DESTROY:
        rep.bad("flag:%s" % f["name"], f.get("file", ""), n.get("ln", f.get("ln", 0)),
                "the planner flags given in %s contain FFTW_DESTROY_INPUT" % f["name"])


def setbits(p, e):
    """bits certain to be set"""
    e = strip(e)
    k = e.get("k")
    if k == "int":
        return int(e["v"])
    if k == "bin":
        l, r = setbits(p, e["l"]), setbits(p, e["r"])
        if e["op"] == "|":
            return l | r
        if e["op"] == "&":
            return l & r
        if e["op"] == "<<":
            return l << r if r < 64 else 0
        if e["op"] == "+":
            return l + r
        return 0
    if k == "cond":
        return setbits(p, e["l"]) | setbits(p, e["r"])
    if k in ("icast", "cast", "paren", "rv") and isinstance(e.get("e"), dict):
        return setbits(p, e["e"])
    if k == "ref":
        g = p.globals.get(e.get("id"))
        if g and g.get("const") and g.get("init"):
            return setbits(p, g["init"])
    return 0
