import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: F401
from hypothesis import strategies as st

import flow
import spectra
from vlib import coregen as G
from vlib import nrgrun
from vlib.runner import Law, main

PROPERTY = "C03"
RULE = ("The problems of C01 and C02, solved with a random combination of execution options: 1-4 MPI processes and every parallelisation mode, "
        "every eigensolver, interleaved diagonalisation (one channel at a time), unscaled energies, energies in units of the band, other band "
        "units, logging, dumps, HDF5 output, temporary-file and work-directory options. Non-trivial as for C01 and C02.")
ASSUMPTIONS = flow.ASSUMPTIONS


def build(scratch, tier):
    return {"nrg": os.environ.get("VERIF_NRG") or nrgrun.build_nrg(scratch)}


CFGS = [c for c in G.CFGS if not (c.nch == 3 and c.sym not in ("QS", "SL", "SL3", "ISO", "QJ", "QST"))]
SUB = ("QS/2", "QSZ/2", "SPSU2/2", "SPU1/2", "QS/3")
SUBCFGS = [G.BYNAME[n] for n in SUB]
DIAG = {False: ["dsyev", "dsyevd", "dsyevr", "default"], True: ["zheev", "zheevd", "zheevr", "default"]}


@st.composite
def options(draw, case):
    e = {"par": {}}
    p = e["par"]
    if case["cfg"] in SUB and case["spin"] == "plain" and not case["rung"] \
            and all(o["k"] in "sd" for o in case.get("ops", [])) and draw(st.integers(0, 3)) > 0:
        e["sub"] = True
    e["np"] = draw(st.sampled_from([1, 1, 1, 1, 2, 3, 4]))
    p["diag_mode"] = draw(st.sampled_from(["default", "MPI", "serial", "OpenMP"] if e["np"] == 1 else ["default", "default", "MPI", "serial"]))
    p["diag"] = draw(st.sampled_from(DIAG[case["cplx"]]))
    if draw(st.integers(0, 3)) == 0:
        e["absolute"] = True
    if draw(st.integers(0, 3)) == 0:
        e["raw"] = True
    if draw(st.integers(0, 3)) == 0:
        e["bandrescale"] = draw(st.sampled_from([0.5, 2.0, 1.3]))
    for k in ("saveram", "silent", "resume", "checksumrules", "dump_f", "dumpenergies", "dumpabsenergies", "dumpstates"):
        if draw(st.integers(0, 3)) == 0:
            p[k] = True
    if case["cfg"] in ("QJ/3", "QSC3/3"):   # sum rules: operators with several tensor ranks are not covered by the program
        p.pop("checksumrules", None)
    for k in ("removefiles", "done"):
        if draw(st.integers(0, 3)) == 0:
            p[k] = False
    if draw(st.integers(0, 4)) == 0:
        p["log"] = draw(st.sampled_from(["@0", "i", "eAt", "fr", "!DYZ", "M", "m"]))
    if draw(st.integers(0, 4)) == 0:
        p.update(h5raw=True, h5all=draw(st.booleans()), h5ham=draw(st.booleans()), h5ops=draw(st.booleans()), h5vectors=draw(st.booleans()),
                 h5U=draw(st.booleans()), h5struct=draw(st.booleans()))
    if draw(st.booleans()):
        p["diagth"] = draw(st.integers(1, 4))
    return e


def with_options(cases, nocfs=False):
    @st.composite
    def gen(draw):
        case = draw(cases)
        case["exec"] = draw(options(case))
        if case["exec"].get("absolute"):
            case["safeguard"] = 0.0
        if nocfs:   # the finding about CFS is C02's
            case["algs"] = [a for a in case["algs"] if not a.startswith("CFS")] or ["FDM"]
        if not any("FDM" in a or "CFS" in a or "fdm" in a for a in case.get("algs", [])) and draw(st.integers(0, 2)) == 0:
            # only the lowest states are computed (again, if these are not sufficient)
            case["exec"]["par"].update(diag="partial", diagratio=draw(st.sampled_from([0.5, 0.3, 0.15])), restart=draw(st.sampled_from([True, True, False])),
                                       restartfactor=draw(st.sampled_from([2.0, 1.4])))
        return case
    return gen()


def labelled(run):
    def f(case, ctx):
        lab = run(case, ctx)
        e = case["exec"]
        return lab + [k for k in ("sub", "absolute", "raw", "bandrescale") if e.get(k)] + (["np:%d" % e["np"]] if e["np"] > 1 else []) \
            + ["diag:" + e["par"]["diag"]]
    return f


ALL = CFGS + [c for c in SUBCFGS for _ in range(4)]
SPEC = [c for c in spectra.CFGS if c in CFGS] + SUBCFGS * 2
# the step is restarted while the Hamiltonians are saved
RESTART = [dict(c, imp=c["imp"], exec={"np": n, "par": {"diag": "partial", "diagratio": 0.1, "restart": True, "restartfactor": 1.4, "h5raw": True, "h5all": True,
                                                         "h5ham": True}}) for c in flow.FIXED if c["cfg"] in ("QS/1", "U1/1", "QSC3/3") for n in (1, 2)]
SPLIT = 5
LAWS = [Law("flow", with_options(flow.cases(ALL)), labelled(flow.run), 160, 4000, fixed=RESTART),
        Law("static", with_options(spectra.scases(SPEC)), labelled(spectra.run_static), 100, 3000),
        Law("matsubara", with_options(spectra.mcases(SPEC)), labelled(spectra.run_mats), 100, 3000),
        Law("bins", with_options(spectra.rcases(SPEC), True), labelled(spectra.run_bins), 100, 3000)]

if __name__ == "__main__":
    main(sys.modules[__name__])
