import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: F401  (sets the number of threads)
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.runner import Invalid, Law, Violation, main

import adapt  # noqa: E402
import avg
import broaden
import bw
import chain
import hilb
import interp
import kk
import linalg
import matrix
import rawspec

PROPERTY = "M01"
RULE = ("The inputs of the other checks of the tools, unchanged or damaged in one to three places (lines and values deleted, repeated, exchanged or replaced by "
        "unusual numbers and text, files truncated, emptied or removed, arguments replaced), for programs compiled with the address and "
        "undefined-behaviour sanitizers and a checked standard library. Non-trivial: a damaged input that was read (the program printed something "
        "or wrote a file), or an unchanged one.")
ASSUMPTIONS = ["Runs that exceed 20 s or 1.5 GB are not judged (counted as outside the domain).",
               "Uninitialised memory that is read inside its bounds is not detected."]
TOOLS = ["nrgchain", "adapt", "hilb", "kk", "broaden", "binavg", "mats", "specmoments", "intavg", "tdavg", "integ", "resample", "matrix", "bw",
         "diag", "unitary", "h5write"]
SAN = ["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:max_allocation_size_mb=1500:hard_rss_limit_mb=2500:exitcode=99:handle_abort=0",
       "UBSAN_OPTIONS": "print_stacktrace=1"}


def build(scratch, tier):
    return {"tools": B.build_tools(TOOLS, scratch, extra=SAN, suffix="_san")}


class Done(BaseException):
    pass


class Report(BaseException):
    pass


def text_damage(rng, t):
    lines = t.split("\n")
    k = rng.randrange(len(lines)) if lines else 0
    how = rng.choice(["del", "dup", "swap", "cut", "tok", "tok", "tok", "tok", "deltok", "addtok", "empty", "ins"])
    if how == "del":
        del lines[k]
    elif how == "dup":
        lines.insert(k, lines[k])
    elif how == "swap":
        j = rng.randrange(len(lines))
        lines[j], lines[k] = lines[k], lines[j]
    elif how == "cut":
        return t[:rng.randrange(len(t) + 1)]
    elif how == "empty":
        return rng.choice(["", "\n", " ", "#\n", "\n\n\n"])
    elif how == "ins":
        lines.insert(k, rng.choice(["", "# x", " ", "1", "1 2", "1 2 3 4 5 6", "x y", "nan nan", "=", "=1", "a=", "[", "\t"]))
    else:
        sep = "=" if "=" in lines[k] else " "
        tok = lines[k].split(sep)
        j = rng.randrange(len(tok))
        if how == "deltok":
            del tok[j]
        elif how == "addtok":
            tok.insert(j, rng.choice(["1", "0", "x", "-1"]))
        else:
            tok[j] = odd_value(rng)
        lines[k] = sep.join(tok)
    return "\n".join(lines)


def odd_value(rng):
    return rng.choice(["0", "-1", "1", "2", "-0.0", "1e-300", "1e300", "1e999", "-1e300", "nan", "inf", "-inf", "x", "", "0x10", "1,5", "1e", "3.7", "1000", "-7",
                       "true", "2147483648", "99999999999999999999"])


def damage(case, cmd, cwd):
    rng = random.Random(case["damage"])
    cmd = list(cmd)
    for _ in range(rng.choice([1, 1, 2, 3])):
        files = sorted(f for f in os.listdir(cwd) if os.path.isfile(os.path.join(cwd, f)))
        what = rng.choice(["file"] * 6 + ["arg", "rm", "bytes"])
        if what == "arg" and len(cmd) > 1:
            k = rng.randrange(1, len(cmd))
            how = rng.choice(["val", "del", "dup"])
            if how == "val":
                cmd[k] = odd_value(rng)
            elif how == "del":
                del cmd[k]
            else:
                cmd.insert(k, cmd[k])
            continue
        if not files:
            continue
        f = os.path.join(cwd, rng.choice(files))
        if what == "rm":
            os.unlink(f)
            continue
        d = open(f, "rb").read()
        binary = b"\0" in d
        if what == "bytes" or binary:
            how = rng.choice(["flip", "cut", "extend"])
            if how == "flip" and d:
                b = bytearray(d)
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                d = bytes(b)
            elif how == "cut":
                d = d[:rng.randrange(len(d) + 1)]
            else:
                d = d + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20)))
            open(f, "wb").write(d)
        else:
            t = text_damage(rng, d.decode("latin1"))
            open(f, "wb").write(t.encode("latin1"))
    return cmd


REAL_RUN = proc.run
BIG = ("allocation-size-too-big", "exceeds maximum supported size", "hard rss limit exhausted", "out-of-memory", "out of memory", "failed to allocate",
       "requested allocation size")


def judge(r, cmd):
    tool = os.path.basename(cmd[0]).replace("_san", "")
    err = r.err
    if any(b in err for b in BIG):
        raise Invalid()
    if r.timeout or r.rc == -9:
        raise Invalid()
    if "AddressSanitizer" in err or "runtime error:" in err:
        i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error:"))
        raise Report("%s: %s" % (tool, err[max(0, i - 150):i + 900]))
    if "Assertion '" in err and "/bits/" in err:
        raise Report("%s: %s" % (tool, err[-600:]))
    if r.rc < 0 and r.rc != -6:
        raise Report("%s was ended by signal %d: %s" % (tool, -r.rc, err[-300:]))


def wrap(mod, law):
    def run(case, ctx):
        lab = {law.name, mod.__name__}

        def hook(cmd, cwd, timeout=60, env=None, stdin=None):
            e = dict(ENV)
            e.update(env or {})
            broken = case["damage"] is not None
            if broken:
                cmd = damage(case, cmd, cwd)
                if stdin is not None and random.Random(case["damage"]).random() < 0.5:
                    stdin = text_damage(random.Random(case["damage"]), stdin.decode("latin1")).encode("latin1")
            before = set(os.listdir(cwd))
            r = REAL_RUN(cmd, cwd, timeout=20 if broken else timeout, env=e, stdin=stdin)
            judge(r, cmd)
            if broken:
                if r.rc == 0 or r.out.strip() or set(os.listdir(cwd)) - before:
                    lab.add("nontrivial")
                lab.add("accepted" if r.rc == 0 else "refused")
                raise Done()
            return r
        old, proc.run = proc.run, hook
        try:
            try:
                law.run(case["case"], ctx)
            except Done:
                return lab
            except Report as e:
                raise Violation(str(e))
            except Invalid:
                raise
            except (Violation, Exception):
                pass            # right or wrong is for the other check to say
            return lab | {"valid", "nontrivial"}
        finally:
            proc.run = old
    return run


@st.composite
def with_damage(draw, strategy):
    return {"damage": draw(st.one_of(st.none(), st.integers(0, 2 ** 31), st.integers(0, 2 ** 31), st.integers(0, 2 ** 31))), "case": draw(strategy)}


LAWS = []
for _m, _names, _n in ((chain, ("reference",), 240), (adapt, ("reference",), 160), (hilb, ("reference",), 300), (kk, ("reference",), 300), (broaden, ("reference",), 400),
                       (rawspec, ("binavg", "mats", "moments"), 240), (avg, ("intavg", "tdavg"), 300), (interp, ("integrals", "resample"), 300),
                       (matrix, ("reference", "syntax"), 400), (bw, ("adaptive",), 200), (linalg, ("eigen", "product", "hdf5"), 240)):
    for _l in _m.LAWS:
        if _l.name in _names:
            LAWS.append(Law("%s-%s" % (_m.__name__, _l.name), with_damage(_l.strategy), wrap(_m, _l), _n))

if __name__ == "__main__":
    main(sys.modules[__name__])
