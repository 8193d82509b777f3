import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import re

import numpy as np
from hypothesis import strategies as st

from vlib import coregen as G
from vlib import nrgrun
from vlib.nrgref import Ambiguous, td_column
from vlib.proc import expect, expect_close, must_ok
from vlib.runner import Invalid, Law, main

PROPERTY = "C01"
RULE = ("Random impurity clusters (0-2 impurity orbitals, random symmetric many-body Hamiltonians, real or complex, sometimes degenerate), "
        "random Wilson chains (sometimes with vanishing coefficients, pairing, spin-polarised, 2x2, channel-mixing) for 28 symmetry types "
        "and 1-3 channels, 1-7 iterations, every truncation rule. Non-trivial: states are discarded in at least one iteration that is "
        "followed by another one.")
ASSUMPTIONS = ["cases in which the truncation threshold falls between levels closer than 1e-7 are outside the domain (counted)",
               "the experimental kappa/delta terms of SPSU2T and kappa of NONE, P and PP are left at zero"]


def build(scratch, tier):
    return {"nrg": os.environ.get("VERIF_NRG") or nrgrun.build_nrg(scratch)}


@st.composite
def cases(draw, cfgs=None):
    case = draw(G.problems(cfgs))
    case["dump"] = draw(st.sampled_from(["groups", "levels", "abs", "unscaled"]))
    case["ndump"] = draw(st.sampled_from([100000, 12]))
    return case


@st.composite
def partials(draw):
    """only the lowest eigenstates are computed, or nearly degenerate levels are made equal"""
    case = draw(cases())
    case["exec"] = {"par": {}}
    p = case["exec"]["par"]
    what = draw(st.sampled_from(["partial", "partial", "fixeps", "both"]))
    if what != "fixeps":
        p["diag"] = "partial"
        p["diagratio"] = draw(st.one_of(st.sampled_from([0.5, 0.25, 0.1]), st.floats(0.02, 0.9)))
        p["restart"] = draw(st.sampled_from([True, True, False]))
        p["restartfactor"] = draw(st.sampled_from([2.0, 1.3, 5.0]))
    if what != "partial":
        p["fixeps"] = draw(st.sampled_from([1e-5, 1e-3, 0.01, 0.1]))
    if draw(st.integers(0, 4)) == 0:
        case["exec"]["absolute"] = True
        case["safeguard"] = 0.0
    return case


def prep(case):
    """cluster, coefficients, parameters and reference solution"""
    cl = G.cluster(case)
    co = G.coefs(case)
    return cl, co


def reference(case, cl, co, p, **kw):
    try:
        return G.ref(case, cl, co, p, **kw)
    except Ambiguous:
        raise Invalid()


def run(case, ctx):
    cl, co = prep(case)
    p = G.params(case, dumpannotated=case["ndump"], dumpprecision=16, dumpsubspaces=True, dumpgroups=case["dump"] == "groups")
    if case["dump"] in ("abs", "unscaled"):
        p["dumpscaled"] = False
        p["dumpabs"] = case["dump"] == "abs"
    ref = reference(case, cl, co, p, fullops=False)
    r = G.run(ctx, case, p, cl.text(G.top(case), G.scale0(case), co))
    must_ok(r, "nrg")
    if p.get("checksumrules"):
        check_norms(case, ref, cl, r.out)
    rd = lambda f: open(os.path.join(ctx["wd"], f)).read()
    check_td(case, ref, nrgrun.td(rd("td")))
    check_annotated(case, ref, rd("annotated.dat"))
    check_subspaces(case, ref, rd("subspaces.dat"))
    labels = [case["cfg"], "trunc:" + case["trunc"]]
    if "fixeps" in p or "diagratio" in p:
        labels += ["partial"] * ref.partial + ["clustered"] * ref.clustered + ["restarts"] * (ref.restarts > 0)
        if ref.partial or ref.clustered:
            labels.append("nontrivial")
        return labels
    if any(not s.kept.all() for s in ref.shells[:-1]) or (G.steps(case) == 1 and ref.truncated):
        labels.append("nontrivial")
    if case["cplx"]:
        labels.append("complex")
    return labels


def flip(case, N):
    """P with two channels: the parity label is defined with an offset that changes sign with every site"""
    return case["cfg"] == "P/2" and (N + 1) % 2 == 1


def all_shells(case, ref):
    return [(-1, ref.initial)] + [(s.N, s) for s in ref.shells]


def check_norms(case, ref, cl, out):
    """norm[f,i,j]: Tr[d d^dag + d^dag d] = 2 sum |d|^2 over the states that are kept, for each of the channel operators"""
    # (the number of digits on the screen depends on the logging options: at least three)
    got = [(int(a), int(b), float(x), 6e-3 if len(x) < 7 else 2e-5) for a, b, x in re.findall(r"norm\[f,(\d+),(\d+)\]=(\S+)", out)]
    fops = cl.sym.fops(cl.nch)
    exp = []
    for N, sh in all_shells(case, ref)[:-1]:
        f2 = {l: np.linalg.norm(m) ** 2 for l, m in sh.f.items()}
        last = {(ch, s): max(n for n, c, t in f2 if (c, t) == (ch, s)) for _, ch, s in f2}
        for i, per in enumerate(fops):
            for j, comps in enumerate(per):
                exp.append((N, i, j, 2 * sum(abs(x) ** 2 * f2[(last[c],) + c] for x, _, c, _ in comps if not cl.sym.field or c[1] == "u")))
    for g, e in zip(got, exp):
        expect(g[:2] == e[1:3], "order of norm lines")
        if case["cfg"].startswith("NONE") and e[2] > 1:
            continue           # creation operators only
        expect_close(g[2], e[3], g[3], 1e-5, "norm[f,%d,%d] after iteration %d" % (e[1], e[2], e[0]))
    # after the last iteration the operators are not updated: nothing follows
    expect(len(got) >= len(exp), "%d norm lines instead of %d" % (len(got), len(exp)))


def check_td(case, ref, rows):
    expect(len(rows) == G.steps(case) + 1, "td has %d rows, expected %d" % (len(rows), G.steps(case) + 1))
    sc = [G.sc(case, N + 1) for N in range(-1, G.steps(case))]
    for (N, sh), row, s in zip(all_shells(case, ref), rows, sc):
        expect_close(row["T"], s / case["betabar"], 1e-12, 0, "T of row %d" % (N + 1))
        r = ref.td(sh, row["T"])
        for c, v in row.items():
            x = td_column(ref.sym, r, c)
            # made equal or not: the columns differ in whether the corrected levels are used
            eps = 3 * np.abs(sh.Ec - sh.E).max() / row["T"]
            w = (1 + np.ptp(sh.E) / row["T"]) ** (2 if c in ("C", "<E^2>") else 1) if eps > 1e-9 else 1.0
            expect(abs(v - x) <= (2e-8 + eps * (1 + eps) * w) * max(1.0, abs(x)), "td row %d column %s: %.12g instead of %.12g" % (N + 1, c, v, x))


def initial_mult(ref):
    cl = ref.cl
    return {i: np.sort(e) for i, e in cl.E.items()}


def flipped(case, N, m):
    return {(-i[0],): e for i, e in m.items()} if flip(case, N) else m


def check_annotated(case, ref, text):
    blocks = [b for b in text.split("\n\n")]
    while blocks and not blocks[-1].strip():
        blocks.pop()
    expect(len(blocks) == G.steps(case) + 1, "annotated.dat has %d blocks" % len(blocks))
    for (N, sh), b in zip(all_shells(case, ref), blocks):
        m = initial_mult(ref) if N < 0 else sh.mult
        m = flipped(case, N, m)
        s = G.sc(case, N + 1)
        lev = sorted((e, i) for i, es in m.items() for e in es)
        e0 = lev[0][0]
        unit = 1.0 if case["dump"] in ("abs", "unscaled") or G.ex(case).get("absolute") else s
        off = 0.0 if case["dump"] == "abs" else e0
        lev = [((e - off) / unit, i) for e, i in lev]
        tol = 1e-8 * max(1.0, 1.0 / unit if unit else 1.0) * (1 + abs(lev[-1][0]))
        lines = [l for l in b.splitlines() if l.strip()]
        n = 0
        what = "annotated.dat block %d: " % (N + 1)
        deg = dict((i, multiplicity(ref, N, i, case)) for i in m)
        for l in lines:
            if case["dump"] == "groups":
                e, rest = l.split(None, 1)
                qn = [tuple(int(x) for x in q.split()) for q in re.findall(r"\(([^)]*)\)", rest)]
                tot = int(re.search(r"\[(\d+)\]", rest).group(1))
                expect(tot == sum(deg.get(q, -99) for q in qn), what + "degeneracy of %r" % l)
            else:
                t = l.split()
                e, qn = t[0], [tuple(int(x) for x in t[1:])]
            for q in qn:
                expect(n < len(lev), what + "too many levels")
                x = lev[n][0]
                gtol = tol + (3e-6 * max(1.0, abs(x)) * (s if case["dump"] == "abs" else 1) if case["dump"] == "groups" else 0)
                expect(abs(float(e) - x) <= gtol, what + "level %d is %s, expected %.12g" % (n, e, x))
                near = [i for y, i in lev if abs(y - x) <= 2e-6 * max(1.0, abs(x)) + 2 * tol]
                expect(q in near, what + "level %d has quantum numbers %r, expected one of %r" % (n, q, near))
                n += 1
        expect(n >= min(case["ndump"], len(lev)), what + "%d levels of %d" % (n, len(lev)))


def multiplicity(ref, N, inv, case):
    sym = ref.sym
    r = 1
    names = [n for n, _ in sym.su2]
    for (kind, name), v in zip(sym.invar, inv):
        if name in names:
            r *= v if kind == "add1" else 2 * v + 1
    return r


def check_subspaces(case, ref, text):
    its = {}
    cur = None
    for l in text.splitlines():
        if l.startswith("Iteration"):
            cur = its.setdefault(int(l.split()[1]), {})
        elif l.startswith("I="):
            m = re.match(r"I=(.*) kept=(\d+) total=(\d+)", l)
            cur[tuple(int(x) for x in m.group(1).split())] = (int(m.group(2)), int(m.group(3)))
    expect(sorted(its) == [n + G.n0(case) for n in range(G.steps(case))], "subspaces.dat lists iterations %r" % sorted(its))
    for sh in ref.shells:
        m = flipped(case, sh.N, sh.mult)
        got = its[sh.N + G.n0(case)]
        got = {k: v for k, v in got.items() if v[1]}
        expect(set(m) == set(got), "iteration %d: subspaces %r, expected %r" % (sh.N, sorted(got), sorted(m)))
        cor, dim = flipped(case, sh.N, sh.multc), flipped(case, sh.N, sh.dim)
        for i in m:
            kept = int(np.sum((cor[i] - sh.Egs) / sh.sc <= sh.cmax + 5e-8))
            expect(got[i] == (kept, dim[i]), "iteration %d subspace %r: (kept, total) = %r, expected %r" % (sh.N, i, got[i], (kept, dim[i])))


QUICK = [c for c in G.CFGS if c.w >= 2]
FIXED = []
for _c in G.CFGS:
    FIXED.append({"cfg": _c.name, "seed": 77, "imp": _c.imps[min(1, len(_c.imps) - 1)], "Nmax": min(_c.nmax[1], 2 if _c.nch > 1 else 4), "Lambda": 2.0, "disc": "Z",
                  "z": 1.0, "betabar": 1.0, "degen": False, "spin": "plain" if _c.rung else "p22" if _c.p22 else "pol" if _c.pol else "plain",
                  "sc": _c.sc != "no", "rung": _c.rung, "cplx": False, "zeros": 0.0, "trunc": "keep",
                  "keep": max(_c.keep[0], 8), "safeguard": 1e-5, "dump": "levels", "ndump": 100000})
SPLIT = 5
LAWS = [Law("chain", cases(), run, 300, 6000, fixed=FIXED), Law("partial", partials(), run, 120, 2400)]

if __name__ == "__main__":
    main(sys.modules[__name__])
