"""C16: a distributed transpose completes its exchanges and puts every block in its place."""
from ..common import load
from .. import transpose as T

EXPLANATION = """Abstract interpretation of mpitranspose (constructors, setup, init, localize0/1, ilocalize0/1, wait, wait0, wait1, destructor) with the
exchange routines and schedules they use, once for every process of a communicator.  The context fixes the number of processes, which of them hold
rows and columns, whether the last block is smaller, the block divisor, the kind of exchange, in or out of place and the constructor;
the block sizes and the block length stay symbolic.  The recorded exchanges of all processes are then matched with each other, and
the matrix blocks (rows of process P, columns of process Q) are followed through copies, local transposes and messages as base offset
and row distance, both polynomials.  Every object is used twice."""
RULE = """violation: a request is started while active, never waited for, or waited for without being started; a message has no partner, or
is longer than its receiver expects; processes enter different collective operations or counts, or wait for each other forever; a
buffer is changed, read or released while an exchange uses it; an array or request array is used past its end, before it is set,
after its release, or is not released; a local transpose is used in another place than planned; after localize0 or localize1 a block is not at its
place in the transposed matrix, or the input of an out-of-place transpose is not preserved."""
ASSUMPTIONS = ["the matrix has at least as many rows and columns as there are processes (or the distribution leaves processes empty)",
               "the options give the block divisor; the latency measurement that chooses it when it is left open is not followed",
               "a local transpose turns rows x cols blocks into cols x rows blocks"]
NOTE = "Processes are enumerated up to 4 (some to 8) or 7 (some to 12); block sizes and block length are symbolic; a block divisor left to the latency measurement is not followed."
TECHNIQUE = "abstract interpretation of every process with symbolic block sizes, then protocol matching (typestate of requests and buffers)"


def locate(p, fn):
    for f in p.byname.get(fn or "", []):
        if f["isdef"]:
            return f.get("file") or "mpi/mpitranspose.h"
    return "mpi/mpitranspose.h"


def run(rep, tier):
    p = load(["stub_mpi", "mpitranspose"])
    cs = T.contexts(tier)
    unk = {}
    for c, (s, d) in zip(cs, T.sweep(p, cs)):
        rep.count("contexts")
        rep.count("processes", c.total)
        if s == "bad":
            rule, text, fn, ln = d
            fn = (fn or "").replace("<Complex>", "")
            rep.bad("%s:%s" % (rule, fn), locate(p, d[2]), ln, "%s: %s (%s)" % (fn.split("::")[-1] or "mpitranspose", text, c.text()))
            rep.count("contexts_decided")
        elif s == "unknown":
            unk.setdefault(d, []).append(c.text())
        else:
            rep.count("contexts_decided")
            for k, v in d.items():
                rep.count(k, v)
    for d, l in unk.items():
        rep.undecided.append(dict(reason=d, contexts=len(l), first=l[0]))
    rep.need("contexts", 100)
