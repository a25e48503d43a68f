"""Write effects of everything a user executes on a constructed object: the
transforms (fft, fft0, ...Normalized), the padded transforms (forward*,
backward*, pad*), the transposes and the multiplication routines, specialised
to the receiver's dynamic class and to distinct input and output arrays."""
from .special import Special
from .effects import Effects

FFT = ("fft", "fft0", "fftNormalized", "fft0Normalized")


class Exec:
    def __init__(self, prog):
        self.p = prog
        S = self.S = Special(prog, {("fftwpp::fftw", "inplace"): False})
        self.roots = []     # (class, function, clone id, kind)
        self.cls = set()
        defs = prog.defs()
        bycls = {}
        for f in defs:
            if f.get("cls"):
                bycls.setdefault(f["cls"], []).append(f)
        for c in sorted(prog.derived("fftwpp::fftw")):
            if c.startswith("fftwpp::fftwblock") or c == "fftwpp::fftw":
                continue
            for b in prog.bases(c):
                for f in bycls.get(b, []):
                    if f["base"] in FFT and f["kind"] == "method":
                        self.add(c, f, "fft")
        for c in ("fftwpp::mfft1d", "fftwpp::mrcfft1d", "fftwpp::mcrfft1d"):
            for f in bycls.get(c, []):
                if f["base"] in FFT:
                    self.add(c, f, "fft")
        for f in bycls.get("fftwpp::Transpose", []):
            if f["base"] in ("transpose",):
                self.add("fftwpp::Transpose", f, "transpose")
        for c in sorted(prog.derived("fftwpp::fftBase")):
            for b in prog.bases(c):
                for f in bycls.get(b, []):
                    if f["kind"] == "method" and f["base"].startswith(("forward", "backward", "pad")) and f["params"] \
                            and f["params"][0]["t"].startswith(("Complex *", "std::complex")) and self.visible(c, f):
                        self.add(c, f, "pad" if f["base"].startswith("pad") else
                                 "forward" if f["base"].startswith("forward") else "backward")
        for f in defs:
            if not f.get("cls") and f["base"].lower().find("mult") >= 0 and [p["t"] for p in f["params"]][:1] == ["Complex **"]:
                self.add(None, f, "mult")
        self.E = Effects(S.view, preserve=True)

    def visible(self, c, f):
        from .repo import sigof
        if f["cls"] == c:
            return True
        # not overridden between c and f's class
        for b in self.p.bases(c):
            if b == f["cls"]:
                return True
            for h in self.p.byname.get(b + "::" + f["base"], []):
                if sigof(h) == sigof(f):
                    return False
        return True

    def add(self, c, f, kind):
        # ThreadBase and fftw entry points are shared: one clone per class
        self.roots.append((c, f, self.S.root(f, c), kind))
        if c:
            self.cls.add(c)

    def writes(self, r):
        return self.E.eff[r].writes if r in self.E.eff else set()

    def where(self, r, loc):
        """innermost repository site of the write and the chain to it"""
        ch = self.E.chain(r, loc)
        txt = " -> ".join("%s:%s" % (g["name"].split("::")[-1], ln) for g, ln in ch)
        last = ch[-1] if ch else None
        return (last[0]["file"], last[1], txt) if last else ("", 0, "")
