"""Binary raw spectra as written by nrg and read by broaden/binavg/mats/specmoments."""
import os
import struct
from collections import defaultdict

from hypothesis import strategies as st

from .gen import fl, logfl


@st.composite
def spectra(draw, max_nz=4, max_rows=24, wlo=-1.0, whi=1.0, flo=1e-6, fhi=3.0, allow_zero=True):
    nz = draw(st.integers(1, max_nz))
    two = draw(st.sampled_from([False, False, True]))
    fs = st.one_of(logfl(flo, fhi), logfl(flo, fhi).map(lambda x: -x), fl(-fhi, fhi).filter(lambda x: abs(x) > flo))
    if allow_zero:
        fs = st.one_of(fs, fs, fs, st.just(0.0))
    n = draw(st.integers(1, max_rows))
    pool = draw(st.lists(fs, min_size=n, max_size=n))
    w = fl(wlo, whi)
    sp = []
    for _ in range(nz):
        n = draw(st.integers(0 if nz > 1 else 1, max_rows))
        rows = draw(st.lists(st.tuples(st.sampled_from(pool), w, w).map(list), min_size=n, max_size=n))
        if not two:
            rows = [r[:2] for r in rows]
        sp.append(rows)
    if not any(sp):
        sp[0] = [[pool[0], 0.5] + ([0.25] if two else [])]
    return {"spectra": sp, "two": two, "col": draw(st.sampled_from([2, 3])) if two else 1,
            "one": draw(st.booleans()) if nz == 1 else draw(st.sampled_from([False, False, True]))}


def write(wd, case, name="raw.bin"):
    """returns the command-line switches and [name, Nz]"""
    sp = case["spectra"]
    nz = len(sp)
    blobs = [b"".join(struct.pack("<%dd" % len(r), *r) for r in rows) for rows in sp]
    if nz == 1 and case["one"]:
        open(os.path.join(wd, name), "wb").write(blobs[0])
    else:
        for i, b in enumerate(blobs):
            os.mkdir(os.path.join(wd, str(i + 1)))
            open(os.path.join(wd, str(i + 1), name), "wb").write(b)
    sw = (["-o"] if case["one"] else []) + (["-%d" % case["col"]] if case["two"] else [])
    return sw, [name, str(nz)]


def merged(case):
    """sorted [(freq, averaged weight)]"""
    acc = defaultdict(float)
    k = 2 if case["col"] == 3 else 1
    for rows in case["spectra"]:
        for r in rows:
            acc[r[0] + 0.0] += r[k]
    nz = len(case["spectra"])
    return sorted((f, w / nz) for f, w in acc.items())


def nontrivial(case):
    n = sum(len(r) for r in case["spectra"])
    return n >= 3 and len(merged(case)) >= 2
