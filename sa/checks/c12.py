"""C12: work arrays given to a convolution are used, kept within their size and left to the caller."""
from ..common import load
from .. import convmodel as M
from .c25 import report, ASSUMPTIONS, MEMORY

EXPLANATION = """Abstract interpretation of the convolution drivers as in C25 in the contexts where the caller gives some or all of the
work arrays F, W and V (and in those where it gives none, for the arrays the object allocates itself), with the documented sizes as
symbolic bounds; allocations, releases and uses of every array are followed from the constructor through two convolutions to the
destructor."""
RULE = """violation: an array given by the caller is replaced by another one, used beyond its documented size, used for two things at
once or released; a pointer array is read or written past its end or before it is set; an array the object allocated is smaller than
its use needs, released twice, used after release or never released; or the results differ from those without caller arrays in the
sense of C25."""
TECHNIQUE = "typestate and ownership analysis of work arrays by abstract interpretation of the drivers over the AST"
NOTE = "A and B are enumerated up to 4 (quick) or 6 (thorough), residue blocks up to 3 or 4; array sizes and strides are symbolic."


def run(rep, tier):
    p = load(["convolve", "stub_mpi"])
    cs = M.contexts(tier)
    res = M.sweep(p, cs)
    plain = set()
    for c, rs in zip(cs, res):
        if not c.user:
            plain |= {(M.CLS[(c.dim, c.mpi)], d[0]) for s, d, _, _ in rs if s == "bad"}

    def want(c, rule):
        return rule in MEMORY or c.user and (M.CLS[(c.dim, c.mpi)], rule) not in plain
    report(rep, p, cs, res, want)
    rep.count("caller_contexts", sum(1 for c in cs if c.user))
    rep.need("contexts_decided", 100)
