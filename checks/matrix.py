import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.gen import fl, fmtx, logfl
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.runner import Law, main

PROPERTY = "T11"
RULE = ("Programs of definitions, expressions, vectors and matrices with nested operators, functions, variables, Wilson-chain coefficients of 1-3 "
        "channels (normal and superconducting), layout, comments, several input files, included files and standard input. "
        "Non-trivial: a matrix or vector with an operator of at least two precedence levels and a coefficient or variable.")
ASSUMPTIONS = ["Numbers are written as integers, decimals with optional exponent, or one digit with exponent; a definition whose value starts with a "
               "letter directly after '=' is a parameter line to be skipped, not an assignment.", "Every file ends with a newline."]
KEY = {"gammaPolCh", "coefxi", "coefzeta", "coefdelta", "coefkappa", "coefV", "parse", "Sqrt", "sqrt", "exp", "log", "Pi", "pi"}


def build(scratch, tier):
    return {"tools": B.build_tools(["matrix"], scratch)}


class N:
    """expression node: text pieces are produced later; v value, s magnitude of the sum of absolute terms"""
    __slots__ = ("k", "a", "v", "s")

    def __init__(self, k, a, v, s):
        self.k, self.a, self.v, self.s = k, a, v, s


@st.composite
def num(draw):
    k = draw(st.sampled_from(["int", "int", "dec", "exp", "one", "dot"]))
    if k == "int":
        t = str(draw(st.one_of(st.integers(0, 9), st.integers(0, 99999), st.just(3000000000))))
    elif k == "dec":
        t = "%.*f" % (draw(st.integers(1, 9)), draw(fl(0, 20)))
    elif k == "exp":
        t = "%.*fe%s%d" % (draw(st.integers(1, 12)), draw(fl(1, 9.9)), draw(st.sampled_from(["", "+", "-", "-"])), draw(st.integers(0, 6)))
        if draw(st.booleans()):
            t = t.replace("e", "E")
    elif k == "one":
        t = "%de%s%d" % (draw(st.integers(1, 9)), draw(st.sampled_from(["", "+", "-"])), draw(st.integers(0, 4)))
    else:
        t = draw(st.sampled_from([".5", "2.", ".25", "7.", ".125"]))
    return t, float(t)


def expr(draw, env, depth):
    """env: dict with 'vars' {name: value}, 'leaf': list of (text maker, value)"""
    r = draw(st.integers(0, 9))
    if depth <= 0 or r <= 1:
        q = draw(st.integers(0, 5))
        if q <= 1 and env["vars"]:
            n = draw(st.sampled_from(sorted(env["vars"])))
            v = env["vars"][n]
            return N("leaf", n, v, abs(v))
        if q <= 3 and env["coef"]:
            t, v = draw(st.sampled_from(env["coef"]))
            return N("coef", t, v, abs(v))
        t, v = draw(num())
        return N("leaf", t, v, abs(v))
    a = expr(draw, env, depth - 1)
    if r == 2:
        return N("neg", (a,), -a.v, a.s)
    if r == 3:
        if a.v > 1e-3 * a.s and a.v > 0:
            f = draw(st.sampled_from(["Sqrt", "sqrt", "log"]))
            if f == "log":
                return N("f", (f, a), math.log(a.v), abs(math.log(a.v)) + a.s / a.v)
            return N("f", (f, a), math.sqrt(a.v), a.s / math.sqrt(a.v))
        if a.s < 20:
            return N("f", ("exp", a), math.exp(a.v), math.exp(a.v) * (1 + a.s))
        return a
    b = expr(draw, env, depth - 1)
    if r in (4, 5):
        return N("+", (a, b), a.v + b.v, a.s + b.s)
    if r in (6, 7):
        return N("-", (a, b), a.v - b.v, a.s + b.s)
    if r == 8 and abs(b.v) > 1e-2 * b.s and abs(b.v) > 1e-6:
        return N("/", (a, b), a.v / b.v, a.s * b.s / b.v ** 2)
    if a.s * b.s > 1e12:
        return a
    return N("*", (a, b), a.v * b.v, a.s * b.s)


PREC = {"+": 1, "-": 1, "*": 2, "/": 2}


def text(draw, n, sp):
    """render with the parentheses that are needed, sometimes more"""
    def w():
        return draw(st.sampled_from(sp))

    def r(n, lvl):
        if n.k in ("leaf", "coef"):
            t = n.a
            out, l = t, 9
        elif n.k == "neg":
            out, l = "-" + w() + r(n.a[0], 8), 8
        elif n.k == "f":
            o, c = draw(st.sampled_from(["()", "[]"]))
            out, l = n.a[0] + w() + o + w() + r(n.a[1], 0) + w() + c, 9
        else:
            l = PREC[n.k]
            out = r(n.a[0], l) + w() + n.k + w() + r(n.a[1], l + 1)
        if l < lvl or draw(st.integers(0, 7)) == 0:
            out = "(" + w() + out + w() + ")"
        return out
    return r(n, 0)


def depth(n):
    return 0 if n.k in ("leaf", "coef") else 1 + max(depth(x) for x in n.a if isinstance(x, N))


def uses(n, ks):
    if n.k in ("leaf", "coef"):
        return n.k == "coef" or n.a[0].isalpha()
    return any(uses(x, ks) for x in n.a if isinstance(x, N))


@st.composite
def world(draw):
    """coefficient files"""
    nch = draw(st.integers(0, 3))  # 0: unnumbered
    sc = draw(st.sampled_from([False, False, True]))
    f, coef = {}, []
    for ch in range(1, max(nch, 1) + 1):
        sfx = (str(ch) if nch else "") + ".dat"

        def tab(name, fn):
            v = draw(st.lists(fl(-2, 2), min_size=1, max_size=5))
            f[name + sfx] = draw(st.sampled_from(["\n", " ", "\n\n"])).join(fmtx(x) for x in v) + "\n"
            for i, x in enumerate(v):
                coef.append(("%s[%d,%d]" % (fn, ch, i), x))
        tab("xi", "coefxi")
        tab("zeta", "coefzeta")
        if sc:
            tab("scdelta", "coefdelta")
            tab("sckappa", "coefkappa")
            for i in (1, 2):
                for j in (1, 2):
                    x = draw(fl(-1, 1))
                    f["V%d%d%s" % (i, j, sfx)] = fmtx(x) + "\n"
                    if ch == 1:
                        coef.append(("coefV[%d,%d]" % (i, j), x))
        else:
            th = draw(fl(0, 3))
            f["theta" + sfx] = fmtx(th) + "\n"
            coef.append(("gammaPolCh[%d]" % ch, math.sqrt(th / math.pi)))
    return {"nch": nch, "sc": sc, "files": f, "coef": coef}


@st.composite
def cases(draw):
    w = draw(world())
    env = {"vars": {}, "coef": w["coef"]}
    sp = draw(st.sampled_from([[""], ["", " "], ["", " ", "\t", "  "]]))
    chunks, expected, nt = [], [], False
    used = set()
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["def", "def", "matrix", "matrix", "vector", "expr", "noise"]))
        if k == "noise":
            chunks.append(draw(st.sampled_from(["", "# comment {{1}}", "[param]", "[extra]", "symtype=QS", "ops=A_d n_d {x}", "   "])))
            continue
        if k == "def":
            name = draw(st.sampled_from(["U", "Gamma", "eps", "x1", "delta_2", "B", "aVeryLongName", "e5", "E", "coef", "gammaPol", "parsed", "U"]))
            e = expr(draw, env, draw(st.integers(0, 3)))
            t = text(draw, e, sp)
            gap = draw(st.sampled_from(["", " "])) if not t[0].isalpha() else " "
            chunks.append(name + gap + "=" + gap + t)
            if abs(e.v) > 1e-3 * e.s or e.v == 0:
                env["vars"][name] = e.v
            else:
                env["vars"].pop(name, None)
            used.add(name)
            continue
        nl = ["", " ", "\n", " \n "] if sp != [""] else [""]
        if k == "expr":
            rows, cols = 1, 1
        else:
            rows, cols = (draw(st.integers(1, 4)) if k == "matrix" else 1), draw(st.integers(1, 4))
        es = [[expr(draw, env, draw(st.integers(0, 4))) for _ in range(cols)] for _ in range(rows)]
        if k == "expr":
            chunks.append(text(draw, es[0][0], sp))
        else:
            g = lambda: draw(st.sampled_from(nl))
            rr = ["{" + g() + (g() + "," + g()).join(text(draw, e, sp) for e in r) + g() + "}" for r in es]
            chunks.append(rr[0] if k == "vector" else "{" + g() + (g() + "," + g()).join(rr) + g() + "}")
        expected += [[(e.v, e.s) for e in r] for r in es]
        if k != "expr" and any(depth(e) >= 2 and uses(e, 0) for r in es for e in r):
            nt = True
    # distribute the chunks over files
    nf = draw(st.integers(1, 3))
    cuts = sorted(draw(st.lists(st.integers(0, len(chunks)), min_size=nf - 1, max_size=nf - 1)))
    parts = [chunks[a:b] for a, b in zip([0] + cuts, cuts + [len(chunks)])]
    mode = draw(st.sampled_from(["files", "files", "stdin", "include"]))
    return {"files": w["files"], "nch": w["nch"], "sc": w["sc"], "parts": ["".join(c + "\n" for c in p) for p in parts], "mode": mode,
            "prefix": draw(st.sampled_from([None, "-p", "-P"])), "expected": expected, "nt": nt, "v": draw(st.booleans())}


def command(case, ctx, parts, wd):
    cmd = [ctx["tools"]["matrix"]]
    if case["nch"]:
        cmd += ["-c", str(case["nch"])]
    if case["sc"]:
        cmd.append("-s")
    if case.get("v"):
        cmd.append("-v")
    if case.get("prefix"):
        cmd.append(case["prefix"])
    proc.write(wd, case["files"])
    stdin = None
    if case["mode"] == "files":
        for i, p in enumerate(parts):
            proc.write(wd, {"in%d" % i: p})
            cmd.append("in%d" % i)
    elif case["mode"] == "stdin":
        stdin = "".join(parts).encode()
    else:
        for i, p in enumerate(parts):
            proc.write(wd, {"inc.%d" % i: p})
        proc.write(wd, {"main": "".join("parse inc.%d\n" % i for i in range(len(parts)))})
        cmd.append("main")
    return proc.run(cmd, wd, stdin=stdin)


def run(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    r = must_ok(command(case, ctx, case["parts"], wd), "matrix")
    err = [l for l in r.err.splitlines() if "error" in l.lower() or "not a function" in l]
    expect(not err, "matrix reports %r for a valid program" % err[:3])
    lines = [l for l in r.out.splitlines() if not l.startswith("parsing ")]
    expect(len(lines) == len(case["expected"]), "%d output lines for %d rows" % (len(lines), len(case["expected"])))
    for i, (l, row) in enumerate(zip(lines, case["expected"])):
        if case["prefix"] == "-P":
            expect(l.startswith("= "), "line %d lacks the prefix: %r" % (i, l))
            l = l[2:]
        got = [float(x) for x in l.split(" ")]
        expect(len(got) == len(row), "row %d has %d elements instead of %d" % (i, len(got), len(row)))
        for j, (g, (v, s)) in enumerate(zip(got, row)):
            expect_close(g, v, 1e-14, 1e-13 * s, "element %d,%d" % (i, j))
    lab = {case["mode"], "sc" if case["sc"] else "normal", "channels-%d" % case["nch"]}
    if case["nt"]:
        lab.add("nontrivial")
    return lab


@st.composite
def bad_cases(draw):
    w = draw(world())
    names = ["coefxi", "coefzeta"] + (["coefdelta", "coefkappa", "coefV"] if w["sc"] else ["gammaPolCh"])
    k = draw(st.sampled_from(["index", "index", "index", "channel", "div0", "nofile", "nocoef", "brace", "noinclude"]))
    c = {"kind": k, "files": w["files"], "nch": w["nch"], "sc": w["sc"], "mode": draw(st.sampled_from(["files", "stdin", "include"])),
         "name": draw(st.sampled_from(names)), "i": draw(st.one_of(st.integers(5, 8), st.integers(9, 10 ** 9))), "drop": draw(st.sampled_from(sorted(w["files"])))}
    return c


def bad(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    k = case["kind"]
    nch = max(case["nch"], 1)
    i = case["i"]
    n = case["name"]
    if k == "index":
        # an element the tables do not have
        t = "%s[%d]" % (n, i) if n == "gammaPolCh" else ("%s[%d,%d]" % ((n, 1, i) if i % 2 or n != "coefV" else (n, i, 1)))
    elif k == "channel":
        t = "%s[%d]" % (n, nch + 1 if i % 2 else 0) if n == "gammaPolCh" else "%s[%d,0]" % (n, nch + 1 if i % 2 else 0)
    elif k == "div0":
        t = "1/(%d-%d)" % (i, i)
    elif k == "brace":
        t = "1}"
    elif k == "noinclude":
        t = "parse nofile.%d" % i
    else:
        t = "1+1"
    case = dict(case, parts=["{{1,\n" + t + "}}\n" if k in ("index", "channel", "div0") else t + "\n"])
    if k == "nocoef":
        case["files"] = {a: b for a, b in case["files"].items() if a != case["drop"]}
    if k == "nofile":
        proc.write(wd, case["files"])
        r = proc.run([ctx["tools"]["matrix"]] + (["-c", str(case["nch"])] if case["nch"] else []) + (["-s"] if case["sc"] else []) + ["missing"], wd)
    else:
        r = command(case, ctx, case["parts"], wd)
    expect_rejected(r, "matrix, %s" % k)
    return {"nontrivial", k}


@st.composite
def syn_cases(draw):
    return {"text": draw(st.sampled_from(["{{1,2", "1 +* 2", "{{1,,2}}", "3 4", "(1", "{1,2}}", "x = ", "1..2 3"]))}


def syn(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    proc.write(wd, {"theta.dat": "1\n", "xi.dat": "1\n", "zeta.dat": "1\n", "m": case["text"] + "\n1\n"})
    expect_rejected(proc.run([ctx["tools"]["matrix"], "m"], wd), "matrix, malformed input %r" % case["text"])
    return {"nontrivial"}


LAWS = [
    Law("reference", cases(), run, 5000),
    Law("rejects", bad_cases(), bad, 600),
    Law("syntax", syn_cases(), syn, 60),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
