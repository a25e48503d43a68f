"""C02: executing a transform leaves the object and all shared state unchanged."""
from ..common import load
from ..execeff import Exec

EXPLANATION = """Interprocedural mod-effect inference: for every execution entry point (fft, fft0 and
their normalised forms on every transform class; forward*/backward*/pad* on every padding class;
Transpose::transpose; the multiplication routines) specialised to the receiver's dynamic class,
the set of locations it may write, closed over virtual dispatch and member-function pointers."""
RULE = """violation: an execution entry point may write a member of the object (or something a
member points to), a global, or a static local variable; the only accepted write is to the private
scratch array V of fftPadReal.  The path of calls to the write is reported."""
ASSUMPTIONS = ["FFTW's new-array execute functions write only their output (and, for c2r plans, their input) array",
               "timing and diagnostic output (std::cout, std::cerr) are not shared state"]
TECHNIQUE = "interprocedural mod-effect (write set) inference with receiver-class specialisation"
NOTE = ("Static may-write over-approximation: an entry point without a reported write provably writes nothing but what its "
        "arguments reach. Trusts the model of FFTW's execute functions.")
SCRATCH = {("fftwpp::fftPadReal", ("V", "*"))}


def scratch(p, chain, sels):
    """every write of a scratch array is made by the class that owns it"""
    return any(sels == s and any(g.get("cls") == k for g, _ in chain) for k, s in SCRATCH)


def run(rep, tier):
    p = load()
    X = Exec(p)
    for c, f, r, kind in X.roots:
        rep.count("entry_points")
        rep.count("entry_points_" + kind)
        ws = X.writes(r)
        rep.count("written_locations", len(ws))
        if kind != "pad" and not any(w[0][0] == "p" for w in ws) and "NULL" not in r:
            rep.count("unimplemented_variants")
        for root, sels in sorted(ws, key=str):
            if root[0] == "p":
                continue
            if root[0] == "this" and scratch(p, X.E.chain(r, (root, sels)), sels):
                continue
            if root[0] not in ("this", "g"):
                continue
            file, ln, txt = X.where(r, (root, sels))
            what = "member " + ".".join(x for x in sels if x != "*") if root[0] == "this" else "shared variable " + str(root[1]).split("::")[-1].split("#")[0]
            rep.bad("write:%s:%s:%s" % (c, f["name"], what), file or f["file"], ln or f["ln"],
                    "executing %s on a %s writes %s%s: %s" % (f["name"], c, what, " (its contents)" if "*" in sels else "", txt))
    rep.coverage["functions_analysed"] = len(X.S.made)
    rep.coverage["classes"] = len(X.cls)
    rep.need("entry_points_fft", 100)
    rep.need("entry_points_forward", 30)
    rep.need("entry_points_backward", 30)
    rep.need("entry_points_mult", 3)
    rep.need("entry_points_transpose", 1)
