"""Running command-line programs on generated files inside a private directory."""
import math
import os
import resource
import shutil
import signal
import subprocess

from .runner import HarnessError, Violation


class R:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.rc < 0

    def __repr__(self):
        return "rc=%s out=%r err=%r" % (self.rc, self.out[-400:], self.err[-400:])


def clean(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)


def write(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        with open(p, "wb" if isinstance(t, bytes) else "w") as f:
            f.write(t)


def run(cmd, cwd, timeout=60, env=None, stdin=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": cwd, "LC_ALL": "C", "TMPDIR": cwd, "OPENBLAS_NUM_THREADS": "1",
         "OMP_NUM_THREADS": "1"}
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL if stdin is None else None,
                           input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired as x:
        return R(-999, (x.stdout or b"").decode("latin1"), (x.stderr or b"").decode("latin1"), True)
    return R(p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1"))


def read(d, name):
    p = os.path.join(d, name)
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read().decode("latin1")


def table(text, comment="#"):
    """parse a numeric table; list of lists of floats"""
    rows = []
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith(comment):
            continue
        rows.append([float(x) for x in line.split()])
    return rows


def must_ok(r, what=""):
    if r.timeout:
        raise Violation("%s did not finish within its time limit" % what)
    if r.rc != 0:
        raise Violation("%s failed on valid input: %r" % (what, r))
    return r


def close(a, b, rtol, atol):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def expect_close(a, b, rtol, atol, what):
    if not close(a, b, rtol, atol):
        raise Violation("%s: got %.17g expected %.17g (diff %.3g, rtol %g atol %g)" % (what, a, b, a - b, rtol, atol))


def expect_rejected(r, what):
    """An explicit error: non-zero status; an uncaught exception (SIGABRT) counts, a memory fault or a hang does not."""
    if r.timeout:
        raise Violation("%s: hangs" % what)
    if r.rc == 0:
        raise Violation("%s: accepted with exit status 0" % what)
    if r.rc < 0 and r.rc != -signal.SIGABRT or r.rc == 99 or "AddressSanitizer" in r.err or "runtime error:" in r.err:
        raise Violation("%s: ends in a fault (status %d) %s" % (what, r.rc, r.err[-1500:]))
