"""Build programs of rokzitko/nrgljubljana from the working tree in /repo into a scratch directory.

Nothing is written inside /repo: every product goes to the scratch directory of the running check.
"""
import glob
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


CONFIG_DEFS = [
    '-DNRG_BLAS_VENDOR="OpenBLAS"', "-DNRG_ENABLE_APP_OPENMP=0", "-DNRG_HAVE_MKL=0", "-DNRG_HAVE_MKL_RT=0",
    "-DNRG_HAVE_OPENBLAS=1", "-DNRG_MKL_REQUIRES_OPENMP=0", '-DNRG_MKL_THREADING_LAYER="AUTO"',
]
SYS_INC = ["-isystem", "/usr/include/hdf5/serial", "-isystem", "/usr/include/eigen3",
           "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include"]
LIBS = ["-lboost_mpi", "-lboost_serialization", "-ldl", "-lopenblas", "-lgmpxx", "-lgmp", "-lgsl", "-lgslcblas",
        "-lmpi", "-lmpi_cxx", "-lhdf5_serial", "-lhdf5_serial_hl", "-lz", "-lm"]


def inc_flags(tool=None):
    r = []
    if tool:
        r += ["-I%s/tools/%s" % (REPO, tool)]
    r += ["-I%s/shim" % VERIF, "-I%s/tools" % REPO, "-I%s/c++" % REPO, "-I%s/c++/symmetry" % REPO,
          "-I%s/c++/symmetry/coefnew" % REPO, "-I%s/c++/include" % REPO, "-I%s/c++/include/range-v3" % REPO]
    return r + SYS_INC


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("building %s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-6000:]))


def compile_many(jobs, nproc=8):
    """jobs: list of (cmd, what); longest first."""
    with ThreadPoolExecutor(nproc) as ex:
        for f in [ex.submit(_run, c, w) for c, w in jobs]:
            f.result()


# sources of each tool, other than tools/<tool>/*.cc when those are not all wanted
MULTI = {
    "matrix": ["matrix.cc", "parser.cc"],
}
# libraries of each tool (unused ones cost start-up time: MPI, HDF5 and OpenBLAS constructors)
TOOL_LIBS = {
    "diag": LIBS, "h5write": ["-lhdf5_serial", "-lhdf5_serial_hl", "-lz", "-lm", "-lopenblas"],
}
DEFAULT_TOOL_LIBS = ["-lgsl", "-lgslcblas", "-lgmpxx", "-lgmp", "-lm"]


def tool_sources(tool):
    d = "%s/tools/%s" % (REPO, tool)
    if tool in MULTI:
        return ["%s/%s" % (d, s) for s in MULTI[tool]]
    return sorted(glob.glob(d + "/*.cc"))


def tool_cmd(tool, out, cxx="g++", extra=(), libs=None):
    srcs = tool_sources(tool)
    if not srcs:
        raise BuildError("no sources for tool " + tool)
    extra = list(extra) or ["-O1", "-DNDEBUG"]
    return [cxx, "-std=gnu++20", "-w", "-DFMT_HEADER_ONLY=1"] + extra + CONFIG_DEFS + inc_flags(tool) + srcs + ["-o", out] \
        + (libs or TOOL_LIBS.get(tool, DEFAULT_TOOL_LIBS))


def build_tools(tools, scratch, cxx="g++", extra=(), suffix=""):
    """Build the named tools; returns {tool: path}. Falls back to the full library list if the short one fails to link."""
    outs = {t: os.path.join(scratch, t + suffix) for t in tools}

    def one(t):
        try:
            _run(tool_cmd(t, outs[t], cxx, extra), t)
        except BuildError:
            _run(tool_cmd(t, outs[t], cxx, extra, libs=LIBS), t)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, tools))
    return outs


CORE_CXX = "clang++"
CORE_OPT = ["-O0"]


def core_flags(defs=(), opt=None):
    return ["-std=gnu++20", "-w"] + (opt or CORE_OPT) + CONFIG_DEFS + list(defs) + ["-DFMT_HEADER_ONLY=1"] + inc_flags()


BASIC = ["QS", "QSZ"]
MORE = ["ISO", "ISOSZ", "SPSU2", "SPU1"]
_CORE_TIME = {"nrg-lib": 99}


def sym_groups():
    """Which symmetry types each NRG_SYM_* macro enables, read from the tree itself (mk_sym.hpp)."""
    import re
    groups = {"BASIC": set(), "MORE": set(), "ALL": set()}
    cur = None
    for line in open(REPO + "/c++/mk_sym.hpp"):
        m = re.search(r"#\s*if(?:def|\s+defined).*NRG_SYM_(BASIC|MORE|ALL)", line)
        if m:
            cur = m.group(1)
        if re.match(r"\s*#\s*endif", line):
            cur = None
        m = re.search(r'(\w+)\s*==\s*"(\w+)"', line)
        if cur and m:
            groups[cur].add(m.group(2))
    return groups
