"""Building the nrg program from the working tree and running it on generated input."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import build as B
from . import proc

ENV = {"OMPI_MCA_btl": "self", "OMPI_MCA_pml": "ob1", "OMPI_MCA_ess_singleton_isolated": "1",
       "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_io": "^ompio,romio321", "OMPI_MCA_mtl": "^psm,psm2,ofi",
       "OPENBLAS_NUM_THREADS": "1", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
       "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_plm": "isolated"}


def build_nrg(scratch, syms=None, opt=None, name="nrg", extra_defs=(), cxx=None, ldflags=(), main="c++/nrg.cc", extra=(), inc=()):
    """Compile nrg (or another program, `main`, with further sources [(path, flags)]) with the symmetry types in `syms` (None: all); a
    precompiled header keeps this short."""
    cxx = cxx or B.CORE_CXX
    defs = ["-DNRG_SYM_BASIC", "-DNRG_SYM_MORE", "-DNRG_SYM_ALL"] + list(extra_defs)
    d = os.path.join(scratch, "obj_" + name)
    os.makedirs(d, exist_ok=True)
    flags = B.core_flags(defs, opt) + ["-I%s/%s" % (B.REPO, i) for i in inc]
    pch = os.path.join(d, "general.pch")
    B._run([cxx] + flags + ["-fpch-instantiate-templates", "-x", "c++-header", B.REPO + "/c++/nrg-general.hpp", "-o", pch], "nrg-general.hpp")
    all_syms = sorted(f[4:-3] for f in os.listdir(B.REPO + "/c++") if f.startswith("sym-") and f.endswith(".cc"))
    want = all_syms
    if syms is not None:
        need = {{"ISO2": "ISO", "ISO2LR": "ISOLR"}.get(s, s) for s in syms}
        want = [s for s in all_syms if s in need]
    big = {"QS": 9, "SPSU2": 7, "QSZ": 6, "ISO": 6, "QST": 5, "SPSU2T": 5, "QSTZ": 5, "QSZTZ": 5}
    srcs = ["nrg-lib.cc"] + ["sym-%s.cc" % s for s in sorted(want, key=lambda s: (-big.get(s, 0), s))]
    jobs, objs = [], []
    for s, fl in [(main, ["-I%s/%s" % (B.REPO, os.path.dirname(main))])] + list(extra):
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append(([cxx] + flags + list(fl) + ["-c", B.REPO + "/" + s, "-o", o], s))
    for s in srcs:
        o = os.path.join(d, s + ".o")
        objs.append(o)
        jobs.append(([cxx] + flags + ["-include-pch", pch, "-c", B.REPO + "/c++/" + s, "-o", o], s))
    miss = sorted(set(all_syms) - set(want))
    if miss:
        # symmetry types that are left out: constructors that throw
        names = sorted({n for m in miss for n in re.findall(r"> mk_(\w+)\(", open(B.REPO + "/c++/sym-%s.cc" % m).read())})
        st = os.path.join(d, "stubs.cc")
        with open(st, "w") as f:
            f.write('#include "nrg-general.hpp"\n#include <stdexcept>\nnamespace NRG {\n')
            for n in names:
                f.write("template <typename S> std::unique_ptr<Symmetry<S>> mk_%s(const Params &P);\n" % n)
                for t in ("double", "cmpl"):
                    f.write('template <> std::unique_ptr<Symmetry<%s>> mk_%s(const Params &) { throw std::runtime_error("not built"); }\n' % (t, n))
            f.write("}\n")
        objs.append(st + ".o")
        jobs.append(([cxx] + flags + ["-include-pch", pch, "-c", st, "-o", st + ".o"], "stubs"))
    B.compile_many(jobs)
    out = os.path.join(scratch, name)
    link = [cxx] + (opt or B.CORE_OPT) + objs + ["-o", out] + B.LIBS + list(ldflags)
    B._run(link, "nrg")
    os.unlink(pch)
    return out


def param_text(p):
    L = ["[param]"]
    for k, v in p.items():
        if v is None:
            continue
        if isinstance(v, bool):
            v = "true" if v else "false"
        elif isinstance(v, float):
            v = "%.17g" % v
        L.append("%s=%s" % (k, v))
    return "\n".join(L) + "\n"


def run_nrg(exe, wd, params, data, timeout=240, args=(), np_=1, env=None):
    proc.clean(wd)
    proc.write(wd, {"param": params if isinstance(params, str) else param_text(params), "data": data})
    e = dict(ENV)
    if env:
        e.update(env)
    cmd = [exe] + list(args)
    if np_ > 1:
        e.update({"OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_orte_tmpdir_base": "/dev/shm"})
        cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(np_)] + cmd
    return proc.run(cmd, wd, timeout=timeout, env=e)


def td(text):
    """list of {column: value} of a td-style file with a '#' header naming the columns"""
    head, rows = None, []
    for line in text.splitlines():
        if line.startswith("#"):
            names = line[1:].split()
            if names:
                head = names
            continue
        if line.strip():
            rows.append([float(x) for x in line.split()])
    return [dict(zip(head, r)) for r in rows]


def energies(text):
    """energies.nrg -> list per iteration of {invar: [energies]}"""
    out = []
    cur = None
    for line in text.splitlines():
        line = line.strip()
        if not line:
            continue
        m = re.match(r"=+ Iteration number: (\d+)", line)
        if m:
            out.append({})
            continue
        m = re.match(r"Subspace: (.*)$", line)
        if m:
            cur = tuple(int(x) for x in m.group(1).replace("(", " ").replace(")", " ").replace(",", " ").split())
            out[-1][cur] = []
            continue
        if line.startswith(("corr=", "crit=")):
            continue
        out[-1][cur] += [float(x) for x in line.split()]
    return out
