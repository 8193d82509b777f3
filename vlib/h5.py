"""Read an HDF5 file through h5dump (no HDF5 bindings here)."""
import re

import numpy as np

from . import proc

_HEAD = re.compile(r'^\s*(GROUP|DATASET|ATTRIBUTE) "(.*)" \{')
_SHAPE = re.compile(r"\{ \( ([\d, ]*) \) /")


def load(fn, wd, want=None):
    """{path: array (or list of strings)}; want: predicate on the path"""
    r = proc.run(["h5dump", "-m", "%.17g", fn], wd)
    if r.rc:
        raise AssertionError("h5dump %s: %s" % (fn, r))
    out, stack = {}, []
    shape, data, kind = None, None, ""
    for l in r.out.splitlines():
        m = _HEAD.match(l)
        s = l.strip()
        if m:
            stack.append(m.group(2))
            shape, data, kind = (), None, m.group(1)
        elif s.startswith("DATASPACE"):
            q = _SHAPE.search(l)
            shape = tuple(int(x) for x in q.group(1).split(",")) if q else ()
        elif s.startswith("DATA {"):
            data = []
            stack.append(None)
        elif stack and stack[-1] is None and s != "}":
            data.append(s)
        elif s == "}" or s.endswith("}") and s.startswith("}"):
            if not stack:
                continue
            top = stack.pop()
            if top is None:
                path = "/".join(x for x in stack if x and x != "/")
                if kind == "DATASET" and (want is None or want(path)):
                    t = " ".join(data)
                    if '"' in t:
                        out[path] = re.findall(r'"([^"]*)"', t)
                    else:
                        try:
                            v = np.array([float(x) for x in re.sub(r"\([\d,]+\):|[{}]", " ", t).replace(",", " ").split()])
                            if "{" in t:      # complex numbers
                                v = v[::2] + 1j * v[1::2]
                            out[path] = v.reshape(shape) if shape and np.prod(shape) == v.size else v
                        except ValueError:
                            out[path] = t
        elif s.endswith("{"):
            stack.append("")
    return out
