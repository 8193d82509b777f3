import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: F401
import numpy as np
from hypothesis import strategies as st

import flow
import spectra
from vlib import coregen as G
from vlib import coreops as O
from vlib import h5, nrgrun
from vlib.proc import expect, expect_close, must_ok, table
from vlib.runner import Invalid, Law, main

PROPERTY = "C04"
RULE = ("Problems of C01 and C02 with random selections of output: energy dumps in all units, reports of operators, HDF5 files of all or the last "
        "iterations, broadened spectra on random meshes with random kernels. Non-trivial: more than one iteration with truncation (dumps), at "
        "least three peaks of weight (broadening).")
ASSUMPTIONS = flow.ASSUMPTIONS


def build(scratch, tier):
    return {"nrg": os.environ.get("VERIF_NRG") or nrgrun.build_nrg(scratch)}


# ---------------------------------------------------------------- energies, operators and metadata
@st.composite
def dumps(draw):
    case = draw(flow.cases())
    ks = O.kinds(G.cfg(case).sym)
    case["op"] = {"k": "s", "name": "A", "seed": draw(st.integers(0, 2 ** 20)), "dress": draw(st.booleans()), "herm": True} if "s" in ks else None
    case["exec"] = {"par": {}}
    p = case["exec"]["par"]
    if draw(st.integers(0, 3)) == 0:
        case["exec"]["absolute"] = True
        case["safeguard"] = 0.0
    if draw(st.integers(0, 3)) == 0:
        case["exec"]["raw"] = True
    p["dumpEscale"] = draw(st.sampled_from([1.0, 2.0, 0.25]))
    p["dumpenergiesunscaled"] = draw(st.booleans())
    p["reportdiagonal"] = draw(st.sampled_from([0, 3, 1000]))
    p["dmnrg"] = draw(st.booleans())     # the second sweep leaves the files of the first one alone
    p["reportdiagonallast"] = draw(st.booleans())
    p["h5raw"] = draw(st.booleans())
    for k in ("h5all", "h5ham", "h5ops", "h5U", "h5struct", "dumpcorr", "dumpcrit", "dumpstates", "calc0", "silent"):
        p[k] = draw(st.booleans())
    p["h5last"] = draw(st.sampled_from([True, True, False]))
    return case


def name(inv):
    return "_".join(str(x) for x in inv)


def sectors_of(text, head):
    """[(N, {inv: [lines]})]"""
    out = []
    inv = None
    for l in text.splitlines():
        if l.startswith("===== Iteration"):
            out.append((int(l.split(":")[1]), {}))
        elif l.startswith("Subspace:"):
            inv = tuple(int(x) for x in l.split(":")[1].split())
            expect(inv not in out[-1][1], "%s: subspace %r twice" % (head, inv))
            out[-1][1][inv] = []
        elif l.strip() and out:
            out[-1][1][inv].append(l)
    return out


def nums(l):
    return np.array([float(x) for x in l.split()])


def mults(case, ref, N):
    sh = ref.initial if N < 0 else ref.shells[N]
    m = flow.initial_mult(ref) if N < 0 else sh.mult
    return flow.flipped(case, N, m)


def near(a, b, tol, what):
    a, b = np.sort(np.asarray(a, float)), np.sort(np.asarray(b, float))
    expect(a.shape == b.shape, "%s: %d values instead of %d" % (what, a.size, b.size))
    d = np.abs(a - b) - tol * np.maximum(1.0, np.abs(b))
    expect(not np.any(d > 0), "%s: %s instead of %s" % (what, a[:5], b[:5]))


def run_dumps(case, ctx):
    cl, co = flow.prep(case)
    p = G.params(case, dumpannotated=case["ndump"], dumpprecision=16, dumpenergies=True, dumpabsenergies=True, dumpgroups=case["dump"] == "groups")
    if case["dump"] in ("abs", "unscaled"):
        p["dumpscaled"] = False
        p["dumpabs"] = case["dump"] == "abs"
    ops = O.make(cl, [case["op"]]) if case["op"] else []
    if ops:
        p["ops"] = "A"
    ref = flow.reference(case, cl, co, p, fullops=False, ops={k: c[0] for o in ops for k, c in zip(o.keys(), o.comps)})
    if sum(len(e) for s in ref.shells for e in s.mult.values()) > 3000:
        raise Invalid()
    text = cl.text(G.top(case), G.scale0(case), co, [(o.letter, o.name, o.me) for o in ops])
    must_ok(G.run(ctx, case, p, text), "nrg")
    wd = ctx["wd"]
    rd = lambda f: open(os.path.join(wd, f)).read()
    steps = G.steps(case)
    unit = lambda N: 1.0 if p.get("absolute") else G.sc(case, N + 1)
    Egs = lambda N: (ref.initial.E.min() if N < 0 else ref.shells[N].Egs)
    final = Egs(steps - 1)
    first = [-1] if p["calc0"] else []
    rel = lambda N: {i: (e - (Egs(N - 1) if N >= 0 else Egs(-1))) / unit(N) for i, e in mults(case, ref, N).items()}
    # energies.nrg: eigenvalues of the Hamiltonian of the iteration (the previous ground state is the origin)
    f = 1 + p["dumpcorr"] + p["dumpcrit"]
    for fn, on in (("energies.nrg", True), ("states.nrg", p["dumpstates"])):
        if not on:
            continue
        got = sectors_of(rd(fn), fn)
        expect([n for n, _ in got] == [label(case, n) for n in first + list(range(steps))], "%s: iterations %r" % (fn, [n for n, _ in got]))
        for N, (_, sec) in zip(first + list(range(steps)), got):
            want = rel(N)
            expect(set(sec) == set(want), "%s, iteration %d: subspaces %r instead of %r" % (fn, N, sorted(sec), sorted(want)))
            for i, ls in sec.items():
                x = want[i] * (unit(N) if p["dumpenergiesunscaled"] else 1.0)
                w = "%s, iteration %d, subspace %r" % (fn, N, i)
                if fn == "states.nrg":
                    near(nums(ls[0].split(":")[1]), x, 2e-5, w)
                    continue
                expect(len(ls) == f, w + ": %d lines" % len(ls))
                near(nums(ls[0]), x, 2e-5, w)
    # absolute_energies.dat: relative to the ground state of the last iteration
    got = sectors_of(rd("absolute_energies.dat"), "absolute_energies.dat")
    expect([n for n, _ in got] == [N + 1 + G.n0(case) for N in range(steps)], "absolute_energies.dat: iterations")
    for n, sec in got:
        want = mults(case, ref, n - 1 - G.n0(case))
        expect({i for i, l in sec.items() if l} == set(want), "absolute_energies.dat, iteration %d: subspaces" % n)
        for i, ls in sec.items():
            if ls:
                # six digits are printed
                near(nums(ls[0]), want[i] - final, 2e-5, "absolute_energies.dat, iteration %d, subspace %r" % (n, i))
    check_annotated(case, ref, rd("annotated.dat"), p, first)
    if p["reportdiagonal"]:
        check_report(case, ref, rd("report.nrg"), p, ops, unit, Egs, first)
    if p["h5raw"]:
        check_h5(case, ref, h5.load("raw.h5", wd), p, ops, unit, Egs, rel, ctx)
    lab = [case["cfg"]] + [k for k in ("h5raw", "dumpenergiesunscaled", "absolute") if p.get(k)] + (["report"] if p["reportdiagonal"] else [])
    if ref.truncated and steps > 1:
        lab.append("nontrivial")
    return lab


def label(case, n):
    """index of iteration n (-1: the initial Hamiltonian) in the output files"""
    return max(n + G.n0(case), 0)


def check_annotated(case, ref, text, p, first):
    """all levels with the units asked for (the grouping is C01's)"""
    blocks = text.split("\n\n")
    while blocks and not blocks[-1].strip():
        blocks.pop()
    Ns = first + list(range(G.steps(case)))
    expect(len(blocks) == len(Ns), "annotated.dat has %d blocks instead of %d" % (len(blocks), len(Ns)))
    for N, b in zip(Ns, blocks):
        m = mults(case, ref, N)
        lev = np.sort(np.concatenate(list(m.values())))
        u = 1.0 if case["dump"] in ("abs", "unscaled") or p.get("absolute") else G.sc(case, N + 1)
        x = (lev - (0.0 if case["dump"] == "abs" else lev[0])) / u / p["dumpEscale"]
        got = [float(l.split()[0]) for l in b.splitlines() if l.strip()]
        for g in got:
            k = np.argmin(np.abs(x - g))
            expect(abs(x[k] - g) <= 1e-7 * max(1, abs(x[k]), 1 / u / p["dumpEscale"]), "annotated.dat, block of iteration %d: level %.12g, nearest is %.12g" % (N, g, x[k]))
        expect(abs(got[0] - x[0]) <= 1e-7 * max(1, abs(x[0]), 1 / u / p["dumpEscale"]), "annotated.dat, block of iteration %d: lowest level" % N)


def check_report(case, ref, text, p, ops, unit, Egs, first):
    steps = G.steps(case)
    blocks = re.split(r"^=== Report N=(\d+)$", text, flags=re.M)[1:]
    Ns = [steps - 1] if p["reportdiagonallast"] else first + list(range(steps))
    if p["reportdiagonallast"] and steps == 1 and not G.n0(case):
        Ns = first + Ns          # the initial Hamiltonian has the index of the last one
    expect([int(x) for x in blocks[::2]] == [label(case, n) for n in Ns], "report.nrg: iterations %r instead of %r" % (blocks[::2], Ns))
    for N, b in zip(Ns, blocks[1::2]):
        sh = ref.initial if N < 0 else ref.shells[N]
        m = mults(case, ref, N)
        rows = {}
        for l in b.splitlines():
            q = re.match(r"I=(.*) n=(\d+) E=(\S+) (?:<A>=(\S+))?", l)
            if q:
                rows.setdefault(tuple(int(x) for x in q.group(1).split()), []).append((int(q.group(2)), float(q.group(3)), q.group(4)))
        lastall = N == steps - 1
        cmax = np.inf if N < 0 else sh.cmax + 5e-8
        u = 1.0 if case["dump"] in ("abs", "unscaled") or p.get("absolute") else G.sc(case, N + 1)
        off = 0.0 if case["dump"] == "abs" else Egs(N)
        tot = {}
        for i, e in m.items():
            s = 1.0 if N < 0 else sh.sc
            k = np.sort(e)[(np.sort(e) - Egs(N)) / s <= cmax]
            k = k[:p["reportdiagonal"]]
            g = rows.pop(i, [])
            expect([r[0] for r in g] == list(range(len(k))), "report.nrg, N=%d: sector %r lists %d of %d states" % (N, i, len(g), len(k)))
            for (n, e1, a), x in zip(g, k):
                expect_close(e1, (x - off) / u / p["dumpEscale"], 1e-8, 1e-8 / u / p["dumpEscale"], "report.nrg, N=%d: E of state %d of %r" % (N, n, i))
                if a is not None and p["reportdiagonal"] >= 1000:
                    tot.setdefault(round((x - Egs(N)) / s / 1e-5), [0.0, x])[0] += flow.multiplicity(ref, N, i, case) * complex(*parse(a)).real
        expect(not rows, "report.nrg, N=%d: sectors %r do not exist" % (N, sorted(rows)))
        if ops and tot:
            o = ops[0].keys()[0]
            d = np.real(np.diag(sh.ops[o]))      # states that are kept
            s = 1.0 if N < 0 else sh.sc
            es = (sh.E[sh.kept] - Egs(N)) / s
            keys = np.array(sorted(tot))
            for k in keys:
                if np.any((np.abs(keys - k) <= 2) & (keys != k)):
                    continue         # levels that are too close to be told apart
                sel = (np.abs(es - (tot[k][1] - Egs(N)) / s) < 1.5e-5)
                x = d[sel].sum()
                expect(abs(tot[k][0] - x) <= 1e-7 * max(1, abs(x)), "report.nrg, N=%d: trace of A over the level %.9g is %.10g instead of %.10g" % (N, tot[k][1], tot[k][0], x))


def parse(a):
    q = re.match(r"\((.*),(.*)\)$", a)
    return (float(q.group(1)), float(q.group(2))) if q else (float(a), 0.0)


def matrix(d, path):
    m = np.atleast_2d(d[path])
    return m + 1j * np.atleast_2d(d[path + "-imag"]) if path + "-imag" in d else m


def check_h5(case, ref, d, p, ops, unit, Egs, rel, ctx):
    steps = G.steps(case)
    for k in ("Lambda", "keep", "betabar", "T", "z"):
        expect(float(np.ravel(d["params/" + k])[0]) == p[k], "raw.h5: parameter %s is %r" % (k, d["params/" + k]))
    expect(int(d["params/Nmax"][0]) == steps + G.n0(case), "raw.h5: Nmax")
    one = lambda k: float(np.real(np.ravel(d[k])[0]))
    final = Egs(steps - 1)
    tol = lambda N: 1e-8 * max(1.0, 1.0 / unit(N))
    for k in ("stats/GS_energy", "total_energy"):
        expect_close(one(k), final, 1e-8, 1e-8, "raw.h5: " + k)
    if ops and "expv/A" in d:
        sh = ref.shells[-1]
        kept = sh.kept
        w = np.exp(-(sh.E[kept] - sh.E[kept].min()) / (G.sc(case, steps) / p["betabar"]))
        x = (w * np.real(np.diag(sh.ops[ops[0].keys()[0]]))).sum() / w.sum()
        expect_close(one("expv/A"), x, 1e-7, 1e-7, "raw.h5: expv/A")
    for N in range(steps):
        s = G.sc(case, N + 1)
        q = "stats/%d/" % (N + 1 + G.n0(case))
        for k, v in (("energyscale", s), ("scale", unit(N)), ("Teff", s / p["betabar"]), ("rel_Egs", (Egs(N) - Egs(N - 1)) / unit(N)), ("abs_Egs", Egs(N) - Egs(N - 1)),
                     ("energy_offset", Egs(N))):
            expect_close(one(q + k), v, 1e-8, tol(N) * 10, "raw.h5: " + q + k)
        saved = p["h5all"] or (p["h5last"] and N == steps - 1)
        q = "%d/" % (N + 1 + G.n0(case))
        have = {k[len(q):].split("/")[0] for k in d if k.startswith(q)}
        # the operators of iteration 0 of raw.h5 with h5all are those of the initial Hamiltonian
        exp = set()
        if saved:
            exp = {"eigen"} | ({"hamiltonian"} if p["h5ham"] else set()) | ({"U"} if p["h5U"] else set()) | ({"structure"} if p["h5struct"] else set())
        expect(have - {"s", "sp", "sg", "d", "t", "q", "ot"} == exp, "raw.h5, iteration %d holds %r instead of %r" % (N + 1, sorted(have), sorted(exp)))
        if not saved:
            continue
        sh = ref.shells[N]
        m = mults(case, ref, N)
        z = rel(N)
        got = {k.split("/")[2] for k in d if k.startswith(q + "eigen/")}
        expect(got >= {name(i) for i in m}, "raw.h5, iteration %d: subspaces %r instead of %r" % (N + 1, sorted(got), sorted(map(name, m))))
        tr, fro = 0.0, 0.0
        for i, e in m.items():
            r = q + "eigen/%s/" % name(i)
            w = "raw.h5, iteration %d, subspace %r: " % (N + 1, i)
            near(d[r + "value_orig"], z[i], tol(N), w + "value_orig")
            near(d[r + "value_zero"], (e - Egs(N)) / unit(N), tol(N), w + "value_zero")
            near(d[r + "absenergy_zero"], e - Egs(N), 1e-8, w + "absenergy_zero")
            near(d[r + "absenergy"], e, 1e-8, w + "absenergy")
            near(d[r + "value_corr"], (e - Egs(N)) / unit(N), tol(N), w + "value_corr")
            kept = int(np.sum((e - sh.Egs) / sh.sc <= sh.cmax + 5e-8))
            expect(int(one(r + "nrkept")) == kept, w + "nrkept %r instead of %d" % (one(r + "nrkept"), kept))
            V = None
            if p["h5U"]:
                b = sorted((int(k.split("nr=")[1].split("-imag")[0]), k) for k in d if k.startswith(q + "U/%s/" % name(i)) and not k.endswith("-imag"))
                V = [matrix(d, k) for _, k in b]
                V = [x for x in V if x.size]
                V = np.concatenate(V, axis=1)
                expect(np.abs(V @ V.conj().T - np.eye(len(V))).max() < 1e-10, w + "the eigenvectors are not orthonormal")
                expect(len(V) == len(e), w + "%d eigenvectors of %d" % (len(V), len(e)))
            if p["h5ham"]:
                H = matrix(d, q + "hamiltonian/%s/matrix" % name(i))
                H = np.triu(H) + np.triu(H, 1).conj().T
                near(np.linalg.eigvalsh(H), z[i], tol(N), w + "eigenvalues of the stored Hamiltonian")
                if V is not None:
                    # rows of U are the (conjugated) eigenvectors
                    ev = d[r + "value_orig"]
                    x = min(np.abs(V @ H @ V.conj().T - np.diag(ev)).max(), np.abs(V.conj() @ H @ V.T - np.diag(ev)).max())
                    expect(x < 1e-8 * max(1, np.abs(ev).max()), w + "the eigenvectors do not diagonalise the stored Hamiltonian: %g" % x)
            if ops and p["h5ops"]:
                k = q + "s/A/%s/%s/matrix" % (name(i), name(i))
                if k in d:
                    A = matrix(d, k)
                    n = min(kept, len(A))
                    g = flow.multiplicity(ref, N, i, case)
                    tr += g * np.trace(A[:n, :n]).real
                    fro += g * (np.abs(A[:n, :n]) ** 2).sum()
        if ops and p["h5ops"] and N < steps - 1:
            A = ref.shells[N].ops[ops[0].keys()[0]]
            x, y = np.trace(A).real, (np.abs(A) ** 2).sum()
            expect(abs(tr - x) <= 1e-7 * max(1, abs(x)) * len(A), "raw.h5, iteration %d: trace of A is %.10g instead of %.10g" % (N + 1, tr, x))
            expect(abs(fro - y) <= 1e-7 * max(1, abs(y)), "raw.h5, iteration %d: norm of A is %.10g instead of %.10g" % (N + 1, fro, y))

# ------------------------------------------------------------------------------------------------------------------ broadened spectra
@st.composite
def broadened(draw):
    case = draw(spectra.rcases())
    case["bins"] = draw(st.sampled_from([50, 3, 10]))
    case["emin"] = draw(st.sampled_from([-1.0, -1.0, 3.1e-3]))
    case["emax"] = draw(st.sampled_from([-1.0, -1.0, 0.7, 40.0]))
    case["acc"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.05, 0.4]))
    case["linstep"] = draw(st.sampled_from([0.0, 0.0123, 0.11])) if case["acc"] else 0.0
    case["clip"] = draw(st.sampled_from([0, 1e-16, 1e-3, 0.05]))
    case["savebins"] = draw(st.sampled_from([True, True, True, False]))
    case["broad"] = {"broaden_max": draw(st.sampled_from([10.0, 1.7, 0.3])), "broaden_ratio": draw(st.sampled_from([1.05, 1.3, 2.0])),
                     "broaden_min": draw(st.sampled_from([-99.0, -99.0, 1e-3, 0.05])), "broaden_min_ratio": draw(st.sampled_from([3.0, 0.5])),
                     "alpha": draw(st.sampled_from([0.3, 0.6, 1.2, 0.05])), "omega0": draw(st.sampled_from([-1.0, -1.0, 0.02, 0.5, 1e-5])),
                     "omega0_ratio": draw(st.sampled_from([1.0, 0.5, 3.0]))}
    return case


class AccMesh:
    """logarithmic mesh with a shifted point of accumulation, and a linear mesh below it"""

    def __init__(self, emin, emax, bins, a, linstep):
        r, e = [sys.float_info.min], emin
        f = 10 ** (1.0 / bins)
        while e <= emax:
            r.append((emax - a) / emax * e + a)
            e *= f
        e = a
        while linstep > 0 and e > 0:
            r.append(e)
            e -= linstep
        self.e = np.array(sorted(r))
        self.n = len(self.e)

    def add(self, out, E, W):
        E, W = np.broadcast_arrays(E, W)
        E, W = E.ravel(), W.ravel()
        for i, x in ((0, E >= 0), (1, E < 0)):
            e, w = np.abs(E[x]), W[x]
            m = (e >= self.e[0]) & (e <= self.e[-1])        # anything else is dropped
            e, w = e[m], w[m]
            k = np.clip(np.searchsorted(self.e, e, side="right") - 1, 0, self.n - 2)
            r = (e - self.e[k]) / (self.e[k + 1] - self.e[k])
            np.add.at(out[i], k, (1 - r) * w)
            np.add.at(out[i], k + 1, r * w)


def read_trimmed(path, reim, mesh, fn):
    x = np.fromfile(path, float).reshape(-1, 3 if reim else 2)
    e, w = x[:, 0], x[:, 1] + (1j * x[:, 2] if reim else 0)
    npos = int((e > 0).sum())
    expect((e[:npos] > 0).all() and (np.diff(e[:npos]) > 0).all() and (np.diff(-e[npos:]) > 0).all(), "%s: energies not in order" % fn)
    r = []
    for s in (slice(0, npos), slice(npos, None)):
        k = np.abs(np.log(np.abs(e[s]))[:, None] - np.log(mesh.e)[None, :]).argmin(1)
        expect(np.abs(np.abs(e[s]) / mesh.e[k] - 1).max() < 1e-10, "%s: energies are not those of the mesh" % fn)
        expect(len(set(k)) == len(k) and mesh.n - 1 in k, "%s: the outermost bin is missing" % fn)
        r.append(dict(zip(k.tolist(), w[s])))
    return r, e, w


def kernel(E, e, alpha, omega0):
    """value at E of the broadened delta peak at e"""
    with np.errstate(divide="ignore", invalid="ignore", over="ignore", under="ignore"):
        log = np.where(E * e > 0, np.exp(-(np.log(np.abs(E / e)) / alpha - alpha / 4) ** 2) / (alpha * np.abs(E) * np.sqrt(np.pi)), 0.0)
        gauss = np.exp(-((E - e) / omega0) ** 2) / (omega0 * np.sqrt(np.pi))
        h = np.where(np.abs(E) > omega0, 1.0, np.exp(-(np.log(np.abs(E) / omega0) / alpha) ** 2))
    return log * h + gauss * (1 - h)


def report_of(out, fn):
    """numbers printed for a spectrum"""
    m = re.search(r" %s\n((?:.*\n){3})" % re.escape(fn), out)
    expect(m, "no report on %s" % fn)
    g = re.findall(r"(pos|neg|sum|mu\d|f|b)= ?(\S+)", m.group(1))
    expect([k for k, _ in g] == ["pos", "neg", "sum", "mu1", "mu2", "mu3", "mu4", "f", "b"], "report on %s: %r" % (fn, m.group(1)))
    return {k: complex(*parse(v)).real for k, v in g}


def run_broadened(case, ctx):
    case, cl, ops, p, ref, o1, o2, suff, pairs, text = spectra.setup(case)
    for a in case["algs"]:
        p[spectra.FLAG[a]] = True
    p[spectra.SPECPAR[o1.letter]] = pairs
    p.update(savebins=case["savebins"], broaden=True, bins=case["bins"], discard_trim=case["clip"], discard_immediately=0, reim=case["reim"],
             goodE=case["goodE"], NNtanh=case["NNtanh"], NN1=case["patch"] == "NN1", NN2avg=case["patch"] == "NN2avg", NN2even=case["patch"] != "NN2odd",
             accumulation=case["acc"], linstep=case["linstep"], prec_xy=16, **case["broad"])
    if case["emin"] > 0:
        p["emin"] = case["emin"]
    if case["emax"] > 0:
        p["emax"] = case["emax"]
    sc = lambda N: G.sc(case, N)
    lim = (case["emin"] if case["emin"] > 0 else sc(G.steps(case)) / 100, case["emax"] if case["emax"] > 0 else sc(-G.n0(case)) * 100)
    mesh = AccMesh(*lim, case["bins"], case["acc"], case["linstep"]) if case["acc"] else spectra.Mesh(*lim, case["bins"])
    D = spectra.dens(case, ref) if spectra.needs_dens(case["algs"]) else None
    b = case["broad"]
    low = b["broaden_min_ratio"] * sc(G.steps(case)) if b["broaden_min"] <= 0 else b["broaden_min"]
    if low >= 0.9 * b["broaden_max"]:
        b = dict(b, broaden_max=5 * low)
        p["broaden_max"] = 5 * low
    omega0 = b["omega0_ratio"] * case["T"] if b["omega0"] < 0 else b["omega0"]
    width = np.diff(mesh.e)
    r = must_ok(G.run(ctx, case, p, text), "nrg")
    size, npeaks = 0.0, 0
    for a in case["algs"]:
        for s, comps in suff.items():
            fn, path = spectra.path_of(ctx, spectra.PREFIX[o1.letter], a, o1, o2, s, "dat")
            x, mass = spectra.binned(case, ref, a, o1, o2, comps, D, mesh)
            tol = 1e-8 * max(1.0, mass)
            if case["savebins"]:
                fb, pb = spectra.path_of(ctx, spectra.PREFIX[o1.letter], a, o1, o2, s, "bin")
                got, e, w = read_trimmed(pb, case["reim"], mesh, fb)
                for i in (0, 1) if not a.startswith("CFS") else ():
                    for k in range(mesh.n):
                        big = abs(x[i, k])
                        if k in got[i]:
                            y = x[i, k] if case["reim"] else x[i, k].real
                            expect(k == 0 or abs(got[i][k] - y) <= tol, "%s: weight of bin %d (%.6g) is %r instead of %r" % (fb, k, mesh.e[k], got[i][k], y))
                            expect(k in (0, mesh.n - 1) or big >= case["clip"] * width[k] - tol, "%s: bin %d (%.6g) of weight %.3g is not trimmed" % (fb, k, mesh.e[k], big))
                        else:
                            expect(k == 0 or big <= case["clip"] * width[k] + tol, "%s: bin %d (%.6g) of weight %.3g is missing" % (fb, k, mesh.e[k], big))
            elif a.startswith("CFS") or case["clip"] > 1e-10 or abs(x[:, 0]).max() > 1e-9:
                continue      # peaks at zero energy may belong to either side
            else:
                e, w = np.concatenate([mesh.e, -mesh.e]), np.concatenate(list(x))
            rep = report_of(r.out, os.path.basename(path))
            T = case["T"]
            with np.errstate(over="ignore", divide="ignore"):
                ex = {"pos": w[e > 0].sum(), "neg": w[e < 0].sum(), "sum": w.sum(), "f": (w / (1 + np.exp(-e / T))).sum(), "b": (w / -np.expm1(-e / T)).sum(),
                      **{"mu%d" % m: (w * e ** m).sum() for m in range(1, 5)}}
                scale = {"b": (np.abs(w / -np.expm1(-e / T))).sum(), **{"mu%d" % m: (np.abs(w) * np.abs(e) ** m).sum() for m in range(1, 5)}}
            for k, v in ex.items():
                t = max(1, scale.get(k, mass))
                if t < 1e8:
                    expect(abs(rep[k] - v.real) <= 2e-5 * max(1.0, abs(v.real)) + 1e-8 * t, "%s: %s=%r is printed instead of %r" % (fn, k, rep[k], v.real))
            rows = np.array(table(open(path).read()))
            n = len(rows) // 2
            expect(rows.shape == (2 * n, 3 if case["reim"] else 2), "%s: shape %r" % (fn, rows.shape))
            E = rows[:, 0]
            mo = b["broaden_max"] / b["broaden_ratio"] ** np.arange(n + 1.0)
            expect(n == 0 or (mo[n - 1] > low * (1 - 1e-9)), "%s: energies below broaden_min" % fn)
            expect(mo[n] <= low * (1 + 1e-9), "%s: %d points, energies above broaden_min are missing" % (fn, n))
            want = np.concatenate([-mo[:n], mo[:n][::-1]])
            expect(np.all(np.abs(E / want - 1) < 1e-9), "%s: energies %r instead of %r" % (fn, E[:3], want[:3]))
            y = (w[None, :] * kernel(E[:, None], e[None, :], b["alpha"], omega0)).sum(1)
            t = 1e-8 * max(1.0, np.abs(w).sum()) * np.maximum(1.0, 1 / (b["alpha"] * np.abs(E)))
            t = t + 1e-8 * max(1.0, np.abs(w).sum()) / omega0
            d = np.abs(rows[:, 1] - y.real) - t
            expect(d.max() <= 0, "%s: A(%.9g)=%.10g instead of %.10g" % (fn, E[d.argmax()], rows[d.argmax(), 1], y.real[d.argmax()]))
            if case["reim"]:
                d = np.abs(rows[:, 2] - y.imag) - t
                expect(d.max() <= 0, "%s: Im A(%.9g)=%.10g instead of %.10g" % (fn, E[d.argmax()], rows[d.argmax(), 2], y.imag[d.argmax()]))
            size = max(size, np.abs(y).max())
            npeaks = max(npeaks, int((np.abs(w) > 1e-6).sum()))
    lab = [case["cfg"], "kind:" + o1.letter] + ["alg:" + a for a in case["algs"]]
    if case["acc"]:
        lab.append("accumulation")
    if size > 1e-6 and npeaks >= 3:
        lab.append("nontrivial")
    return lab


SPLIT = 5
LAWS = [Law("dumps", dumps(), run_dumps, 160, 4000), Law("broadened", broadened(), run_broadened, 200, 5000)]

if __name__ == "__main__":
    main(sys.modules[__name__])
