"""C25: a convolution accumulates every residue of every output exactly once."""
from ..common import load
from .. import convmodel as M

EXPLANATION = """Abstract interpretation of the constructors, convolve and convolveRaw members and destructors of Convolution,
Convolution2, Convolution3, Convolution2MPI and Convolution3MPI over a typestate of their arrays (pristine input, transform of
input a at residue block r, product b at residue block r, accumulator of a set of residue blocks of output b, zero-padded
workspace, array in flight in a transpose).  Sizes, strides and offsets stay symbolic; the shape of the schedule (A, B, residue
blocks, in place, overwriting, workspace padding, distribution, entry point) is the context.  Every object is used twice."""
RULE = """violation: on some path of some context a forward transform reads an input that was already overwritten or a workspace
whose padding was destroyed; a product combines anything but the A transforms of one residue, or is told another residue, offset,
length or index; a backward transform reads anything but a finished product, in the layout it needs; an output lacks a residue
block, gets one twice or receives another output's; a transpose is still in flight when its data are used; the copy or the scaling
covers other elements than the output's, or the scale factor is not 1/normalization, applied once."""
ASSUMPTIONS = ["routines behind Forward, Backward, Pad and the transposes do what their names say (C01, C02, C04, C08 decide that)",
               "an inner convolution turns A transforms into B products in place (its own context decides that)",
               "a backward transform spoils its argument and its workspace"]
TECHNIQUE = "typestate analysis of work arrays by abstract interpretation of the drivers over the AST, one context per shape of schedule"
NOTE = "A and B are enumerated up to 4 (quick) or 6 (thorough), residue blocks up to 3 or 4; sizes, strides, offsets and transforms are symbolic."
MEMORY = {"caller-freed", "not-used", "small", "overlap", "double-free", "leak", "bad-free", "freed", "range", "unset"}


def run(rep, tier):
    p = load(["convolve", "stub_mpi"])
    cs = M.contexts(tier)
    report(rep, p, cs, M.sweep(p, cs), lambda c, rule: True)
    rep.need("contexts_decided", 100)


def locate(p, fn):
    for f in p.byname.get(fn or "", []):
        if f["isdef"]:
            return f.get("file") or "convolve.h"
    return "convolve.h"


def report(rep, p, cs, res, want):
    unk = {}
    for c, rs in zip(cs, res):
        rep.count("contexts")
        cls = M.CLS[(c.dim, c.mpi)]
        dec = True
        for s, d, ev, acc in rs:
            rep.count("paths")
            if ev:
                for k, v in ev.items():
                    rep.count(k + "_steps", v)
                rep.count("size_obligations", acc)
            if s == "unknown":
                dec = False
                unk.setdefault((cls, d), []).append(c.text())
            elif s == "bad":
                rule, text, fn, ln = d
                if want(c, rule):
                    rep.bad("%s:%s:%s" % (rule, cls, fn), locate(p, fn), ln, "%s: %s (%s)" % (cls.split("::")[-1], text, c.text()))
        if dec:
            rep.count("contexts_decided")
    for (cls, d), l in unk.items():
        rep.undecided.append(dict(cls=cls, reason=d, contexts=len(l), first=l[0]))
