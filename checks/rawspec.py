import os
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import math

from hypothesis import strategies as st

from vlib import binspec, proc
from vlib import build as B
from vlib.gen import fl, logfl
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.runner import Law, main

PROPERTY = "T06"
RULE = ("1-4 binary spectra (one or two weight columns) with repeated, signed, zero and widely scaled frequencies. "
        "Non-trivial: at least three rows and two distinct frequencies.")
ASSUMPTIONS = ["Tolerance 1e-9 relative to the sum of absolute contributions (double-precision summation in any order)."]


def build(scratch, tier):
    return {"tools": B.build_tools(["binavg", "mats", "specmoments"], scratch)}


def labels(case):
    l = {"col%d" % case["col"], "nz%d" % len(case["spectra"])}
    if binspec.nontrivial(case):
        l.add("nontrivial")
    if case["one"]:
        l.add("one")
    return l


def binavg(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    sw, pos = binspec.write(wd, case)
    must_ok(proc.run([ctx["tools"]["binavg"]] + sw + pos, wd), "binavg")
    b = open(os.path.join(wd, "spec.bin" if case["one"] else "raw.bin"), "rb").read()
    ref = binspec.merged(case)
    expect(len(b) == 16 * len(ref), "binavg wrote %d bytes, expected %d rows of 16 bytes" % (len(b), len(ref)))
    v = struct.unpack("<%dd" % (2 * len(ref)), b)
    for i, (f, w) in enumerate(ref):
        expect(v[2 * i] == f, "frequency %d: %r expected %r" % (i, v[2 * i], f))
        expect_close(v[2 * i + 1], w, 1e-10, 1e-13, "weight at %r" % f)
    return labels(case)


@st.composite
def mats_cases(draw):
    c = draw(binspec.spectra())
    c["T"] = draw(logfl(1e-5, 1.0))
    c["n"] = draw(st.integers(1, 30))
    return c


def mats(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    sw, pos = binspec.write(wd, case)
    must_ok(proc.run([ctx["tools"]["mats"]] + sw + pos + [repr(case["T"]), str(case["n"])], wd), "mats")
    tab = proc.table(proc.read(wd, "spec.dat"))
    expect(len(tab) == case["n"], "expected %d Matsubara points, got %d" % (case["n"], len(tab)))
    ref = binspec.merged(case)
    for n, row in enumerate(tab):
        om = math.pi * case["T"] * (2 * n + 1)
        expect_close(row[0], om, 1e-12, 0, "Matsubara frequency %d" % n)
        g = [w / complex(-f, om) for f, w in ref]
        s = sum(abs(x) for x in g)
        expect_close(row[1], sum(g).real, 1e-9, 1e-11 * s, "Re G(i w_%d)" % n)
        expect_close(row[2], sum(g).imag, 1e-9, 1e-11 * s, "Im G(i w_%d)" % n)
    return labels(case)


@st.composite
def mom_cases(draw):
    c = draw(binspec.spectra(max_nz=3))
    if c["two"]:
        c["two"], c["col"] = False, 1
        c["spectra"] = [[r[:2] for r in rows] for rows in c["spectra"]]
    c["l"] = draw(st.one_of(st.none(), logfl(1e-4, 1)))
    c["h"] = draw(st.one_of(st.none(), fl(0.01, 2)))
    c["sign"] = draw(st.sampled_from(["", "p", "n"]))
    c["central"] = draw(st.booleans())
    c["verbose"] = draw(st.booleans())
    return c


def moments(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    sw, pos = binspec.write(wd, case)
    if case["l"] is not None:
        sw += ["-l", repr(case["l"])]
    if case["h"] is not None:
        sw += ["-h", repr(case["h"])]
    if case["sign"]:
        sw += ["-" + case["sign"]]
    if case["central"]:
        sw += ["-c"]
    r = proc.run([ctx["tools"]["specmoments"]] + (["-v"] if case["verbose"] else []) + sw + pos, wd)
    sp = []
    for f, w in binspec.merged(case):
        if case["l"] is not None and abs(f) < case["l"] or case["h"] is not None and abs(f) > case["h"]:
            continue
        if case["sign"] == "p" and f < 0 or case["sign"] == "n" and f > 0:
            continue
        sp.append((f, w))
    m = [sum(w * f ** k for f, w in sp) for k in range(5)]
    sc = [sum(abs(w) * abs(f) ** k for f, w in sp) for k in range(5)]
    lab = labels(case)
    if case["central"]:
        if not sp or m[0] == 0 or abs(m[0]) < 1e-6 * sc[0]:
            # total weight zero or pure rounding: rejected or ill-conditioned
            if not sp or all(w == 0 for _, w in sp):
                expect(r.rc != 0, "central moments of a zero-weight spectrum reported with success")
            return lab | {"zero-weight"}
        mean = m[1] / m[0]
        ref = m[:2] + [sum(w * (f - mean) ** k for f, w in sp) / m[0] for k in (2, 3, 4)]
        scale = sc[:2] + [sum(abs(w) * (abs(f) + abs(mean)) ** k for f, w in sp) / abs(m[0]) for k in (2, 3, 4)]
        # the mean itself carries a rounding error amplified by cancellation in the total weight
        scale = [s * (sc[0] / abs(m[0])) for s in scale]
    else:
        ref, scale = m, sc
    must_ok(r, "specmoments")
    if case["verbose"]:
        if case["central"]:
            keys = ["0. moment (weight)", "1. moment", "2. central moment", "3. central moment", "4. central moment"]
        else:
            keys = ["%d. raw moment" % k for k in range(5)]
        d = {l.split("=")[0].strip(): l.split("=")[1] for l in r.out.splitlines() if "=" in l}
        got = [float(d[k]) for k in keys]
        if case["central"] and all(w >= 0 for _, w in sp):
            c2, c3, c4 = ref[2:]
            expect_close(float(d["mean"]), mean, 1e-9, 1e-12, "mean")
            if c2 > 1e-7 * scale[2]:
                s = math.sqrt(c2)
                expect_close(float(d["sigma (std dev)"]), s, 1e-5, 0, "sigma")
                expect_close(float(d["skewness"]), c3 / s ** 3, 1e-4, 1e-4, "skewness")
                expect_close(float(d["kurtosis"]), c4 / s ** 4 - 3, 1e-4, 1e-4, "kurtosis")
    else:
        lines = [l for l in r.out.splitlines() if l.strip()]
        got = [float(x) for x in lines[-1].split()]
    expect(len(got) == 5, "five moments expected, got %r" % got)
    for k in range(5):
        expect_close(got[k], ref[k], 1e-9, 1e-11 * scale[k] + 1e-300, "moment %d" % k)
    return lab | ({"central"} if case["central"] else {"raw"})


@st.composite
def bad_cases(draw):
    c = draw(binspec.spectra(max_nz=2))
    c["tool"] = draw(st.sampled_from(["binavg", "mats", "specmoments"]))
    c["kind"] = draw(st.sampled_from(["truncate", "missing", "nz0"]))
    c["cut"] = draw(st.integers(1, 15))
    return c


def bad(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    if case["tool"] == "specmoments" and case["two"]:
        case = dict(case, two=False, col=1, spectra=[[r[:2] for r in rows] for rows in case["spectra"]])
    sw, pos = binspec.write(wd, case)
    last = os.path.join(wd, "raw.bin") if os.path.exists(os.path.join(wd, "raw.bin")) else os.path.join(wd, pos[1], "raw.bin")
    if case["kind"] == "truncate":
        b = open(last, "rb").read() + b"\1" * 24
        row = 24 if case["two"] else 16
        n = (len(b) // row) * row + case["cut"]
        b = (b + b"\0" * 24)[:n]
        open(last, "wb").write(b)
    elif case["kind"] == "missing":
        os.unlink(last)
    else:
        pos[1] = "0"
    args = sw + pos + (["0.1", "3"] if case["tool"] == "mats" else [])
    r = proc.run([ctx["tools"][case["tool"]]] + args, wd)
    expect_rejected(r, "%s, %s input" % (case["tool"], case["kind"]))
    expect(not os.path.exists(os.path.join(wd, "spec.dat")) and not os.path.exists(os.path.join(wd, "spec.bin")), "output written for invalid input")
    return {"nontrivial", case["tool"] + "-" + case["kind"]}


LAWS = [
    Law("binavg", binspec.spectra(), binavg, 6000),
    Law("mats", mats_cases(), mats, 4000),
    Law("moments", mom_cases(), moments, 6000),
    Law("rejects", bad_cases(), bad, 800),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
