"""Program loading shared by the checks."""
from .repo import Program, AnalysisBroken, walk, strip, REPO
from .effects import Effects

ALL = ["convolve", "fftw", "parallel", "Array", "cfftw", "stub_fftw", "stub_array",
       "mpiconvolve", "mpifftw", "mpitranspose", "stub_mpi"]


def load(names=None):
    p = Program(names or ALL, allow_errors=True)
    hard = [d for d in p.diags if d[0] not in ("stub_array", "stub_array_dbg", "stub_mpi", "stub_fftw")]
    if hard:
        raise AnalysisBroken("clang cannot parse %s: %s" % hard[0])
    return p


def effects(p):
    return Effects(p)
