"""Facts about the size fields of one transform object (documented class
invariants).  Each is established by the constructors: S>=C by the parameter
check, p=ceil(L/m), e=floor(m/2)+1, block sizes at least one row of every
computed residue; which p a routine is used for follows from the dispatch."""
import re
from .poly import Poly, P

FIELDS = ("S", "C", "L", "m", "p", "e", "b", "B", "n", "q")


def fld(r, o, n):
    return Poly.sym(("v", ("fld", ("sub", r, o, n), P(0)), 0))


def fft_fields(R, syms):
    out = []
    objs = {}
    if R.cls in ("fftwpp::rcfft2dMPI", "fftwpp::rcfft3dMPI"):
        # row stride of the real array: at least one row
        t = ("this",)
        rd = fld(t, P(0), "rdist")
        out.append(rd - fld(("sub", t, P(0), "dr"), P(0), "Y" if "2d" in R.cls else "Z"))
    for s in syms:
        if isinstance(s[1], tuple) and s[1][0] == "fld" and s[1][1][0] == "sub" and s[1][1][3] in FIELDS:
            r = s[1][1]
            objs.setdefault((r[1], r[2]), set()).add(r[3])
    for (r, o), fs in objs.items():
        def g(n):
            return fld(r, o, n)
        S, C, m, p, L, e, b, B = (g(x) for x in ("S", "C", "m", "p", "L", "e", "b", "B"))
        out += [S - C, C - 1, S - 1, m - 1, p - 1]
        if "L" in fs:
            out += [m * p - L, L - 1 - m * p + m]
        if "e" in fs:
            out += [m - e, e * 2 - m - 1, m + 2 - e * 2]
        if r == ("this",):
            mm = re.match(r"(forward|backward)([12])(?!\d)", R.fn.get("base", ""))
            p2 = Poly.sym(("v", ("/", p, P(2)), 0))
            if mm:
                k = int(mm.group(2))
                if "p" in fs or "L" in fs:
                    out += [p - k, P(k) - p]
                    out += [m * k - L]
                if "b" in fs and R.cls != "fftwpp::fftPadHermitian":
                    out += [b - S * m, S * m - b, b - m]
            elif "b" in fs:
                if R.cls == "fftwpp::fftPadHermitian":
                    out.append(b * 2 - p2 * C * m)
                else:
                    out += [b - S * m * p2, b - m * p2]
                    if R.cls == "fftwpp::fftPad":
                        out += [b - S * m * p, b - m * p]
            if "B" in fs and R.cls == "fftwpp::fftPadHermitian":
                out.append(B - (p2 * C * e if not mm else C * e))
    return out
