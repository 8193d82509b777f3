"""Sharded, seeded property runner on top of Hypothesis.

A check module defines
    PROPERTY  id,  TITLE,  RULE (text of the non-triviality rule),  ASSUMPTIONS (list)
    build(scratch, tier) -> ctx (dict; picklable not needed: workers are forked after the build)
    LAWS = [Law(...)]
Each law draws a JSON-able case from a Hypothesis strategy and runs `run(case, ctx)`, which returns a set/list of labels
(the label "nontrivial" counts the case) or raises Violation.  All random choices are Hypothesis', seeded by VERIF_SEED, the law
and the shard, so a run is a pure function of the code and the seed.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import seed as hseed
from hypothesis.internal.conjecture.engine import ConjectureRunner

# every case is drawn independently: the variations of earlier cases that Hypothesis mixes in (up to half of all) make the choice among
# the alternatives (symmetries, kinds of invalid input, ...) very uneven
if hasattr(ConjectureRunner, "generate_mutations_from"):
    ConjectureRunner.generate_mutations_from = lambda self, data: None

warnings.filterwarnings("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class Invalid(Exception):
    """The case is outside the domain of the property (counted, not a failure)."""


class HarnessError(Exception):
    """The harness itself failed."""


class _Stop(BaseException):
    pass


class Law:
    def __init__(self, name, strategy, run, quick, thorough=None, shrink_s=60, known=None, max_wall=None, fixed=()):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.shrink_s = shrink_s
        self.known = known          # known(case, msg) -> id of a listed known finding or None
        self.fixed = list(fixed)    # explicit cases always run first (boundary cases)


def run_law(law, case, ctx):
    """Output the oracle cannot even interpret (not a table, missing rows, ...) is a violation as well: the tool exited with success."""
    try:
        return law.run(case, ctx)
    except FileNotFoundError as e:
        # a result that was not written
        if e.filename and os.path.isdir(ctx["wd"]) and os.path.realpath(os.path.join(ctx["wd"], str(e.filename))).startswith(os.path.realpath(ctx["wd"]) + os.sep):
            raise Violation("the file %s does not exist" % os.path.basename(str(e.filename)))
        raise
    except (Violation, Invalid, HarnessError, MemoryError, OSError):
        raise
    except Exception as e:
        raise Violation("uninterpretable result: " + "".join(traceback.format_exception(e))[-1500:])


def jdump(x):
    return json.dumps(x, sort_keys=True, default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    raise TypeError(type(o))


def case_hash(x):
    return hashlib.blake2b(jdump(x).encode(), digest_size=8).hexdigest()


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("findings", []) if e.get("property") == prop]


def _worker(mod, ctx, shard, nshards, seed, tier, deadline, outq, known_ids):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    wd = tempfile.mkdtemp(prefix="s%d_" % shard, dir=ctx["scratch"])
    os.chdir(wd)
    ctx = dict(ctx)
    ctx["wd"] = wd
    res = []
    for law in mod.LAWS:
        n = law.thorough if tier == "thorough" else law.quick * getattr(mod, "QUICKX", 2)
        n = (n + nshards - 1 - shard) // nshards if n < nshards else (n + nshards - 1) // nshards
        if n <= 0:
            continue
        st = {"law": law.name, "evals": 0, "invalid": 0, "labels": {}, "nt": set(), "samples": [], "fail": None,
              "known": {}, "timeout": False, "error": None, "planned": n}
        state = {"first_fail": None, "best": None}

        def body(case, law=law, st=st, state=state, cap=0.0):
            now = time.time()
            if now > deadline:
                st["timeout"] = True
                raise _Stop()
            if state["first_fail"] and now - state["first_fail"] > law.shrink_s:
                raise _Stop()
            if not state["first_fail"]:
                st["evals"] += 1
            try:
                if os.environ.get("VERIF_TIMES"):
                    try:
                        labels = run_law(law, case, ctx) or ()
                    finally:
                        print("TIME %s %.2f %s" % (law.name, time.time() - now, jdump(case)[:400]), flush=True)
                else:
                    labels = run_law(law, case, ctx) or ()
            except Invalid:
                st["invalid"] += 1
                return
            except Violation as e:
                kid = law.known(case, str(e)) if law.known else None
                if kid and kid in known_ids:
                    st["known"][kid] = st["known"].get(kid, 0) + 1
                    return
                if os.environ.get("VERIF_DEBUG"):
                    print("DEBUG %s: %s\n   %s" % (law.name, str(e)[-700:], jdump(case)[:1500]), flush=True)
                    return
                if not state["first_fail"]:
                    state["first_fail"] = time.time()
                size = len(jdump(case))
                if state["best"] is None or size <= state["best"][0]:
                    state["best"] = (size, case, str(e))
                raise
            if state["first_fail"]:
                return
            for l in labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if "nontrivial" in labels:
                st["nt"].add(case_hash(case))
                if len(st["samples"]) < 2:
                    st["samples"].append(case)

        try:
            for c in law.fixed[shard::nshards]:
                body(c)
            hs = int(hashlib.sha256(("%d/%s/%d" % (seed, law.name, shard)).encode()).hexdigest()[:12], 16)

            @hseed(hs)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                      report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.shrink))
            @given(law.strategy)
            def test(case):
                body(case)

            test()
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException as e:  # noqa
            if state["best"] is None:
                st["error"] = "".join(traceback.format_exception(e))[-4000:]
        if state["best"]:
            st["fail"] = {"case": json.loads(jdump(state["best"][1])), "msg": state["best"][2]}
        st["nt"] = list(st["nt"])
        st["samples"] = [json.loads(jdump(s)) for s in st["samples"]]
        res.append(st)
        outq.put((shard, st))
        if st["fail"]:
            break
    outq.put((shard, None))


def _scratch_root():
    for d in (os.environ.get("VERIF_SCRATCH"), "/dev/shm", "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 3e9:
                return d
    return tempfile.gettempdir()


def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    os.replace(p + ".tmp", p)


def trunc(o, n=600):
    """shorten long strings/lists in a sample for the evidence file"""
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + "...[%d chars]" % len(o)
    if isinstance(o, list):
        return [trunc(x, n) for x in (o if len(o) <= 40 else o[:40])] + (["...%d items" % len(o)] if len(o) > 40 else [])
    if isinstance(o, dict):
        return {k: trunc(v, n) for k, v in o.items()}
    return o


def main(mod, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 1
        elif argv[i] == "--law":
            only = argv[i + 1]
            i += 1
        i += 1
    if only:
        mod.LAWS = [l for l in mod.LAWS if l.name == only]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = mod.PROPERTY
    t0 = time.time()
    random.seed(seed)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop, dir=_scratch_root())
    code = 2
    try:
        code = _main(mod, prop, tier, seed, t0, scratch, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def _main(mod, prop, tier, seed, t0, scratch, replay):
    from . import build as B
    try:
        ctx = mod.build(scratch, tier)
    except B.BuildError as e:
        print("ERROR: %s: cannot build the code under test\n%s" % (prop, e))
        return 2
    ctx["scratch"] = scratch
    tb = time.time() - t0
    laws = {l.name: l for l in mod.LAWS}
    if replay:
        r = json.load(open(replay))
        wd = tempfile.mkdtemp(dir=scratch)
        os.chdir(wd)
        ctx["wd"] = wd
        try:
            run_law(laws[r["law"]], r["case"], ctx)
        except Violation as e:
            print(str(e))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        print("replay passes")
        return 0
    nsh = int(os.environ.get("VERIF_JOBS", "8"))
    budget = float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "7200"))
    deadline = t0 + budget
    known = load_known(prop)
    known_ids = {k["id"] for k in known}
    mpc = mp.get_context("fork")
    q = mpc.Queue()
    sys.stdout.flush()
    total = nsh * (getattr(mod, "SPLIT", 1) if tier == "quick" else 1)    # more shards than workers even out the load

    procs = {}

    def launch():
        s = len(procs)
        procs[s] = mpc.Process(target=_worker, args=(mod, ctx, s, total, seed, tier, deadline, q, known_ids))
        procs[s].start()
    for _ in range(nsh):
        launch()
    done, results = set(), []
    failed = False
    while len(done) < len(procs):
        try:
            sh, st = q.get(timeout=2)
        except Exception:
            dead = [s for s, p in procs.items() if not p.is_alive() and s not in done]
            if dead:
                try:
                    sh, st = q.get(timeout=2)
                except Exception:
                    for s in dead:
                        print("ERROR: worker %d died (exit %s)" % (s, procs[s].exitcode))
                    for p in procs.values():
                        p.kill()
                    return 2
            else:
                continue
        if st is None:
            done.add(sh)
            if len(procs) < total and not failed:
                launch()
        else:
            failed = failed or bool(st["fail"])
            results.append((sh, st))
    for p in procs.values():
        p.join()
    # aggregate
    agg = {}
    errors, fails, knownhits = [], [], {}
    for sh, st in sorted(results, key=lambda r: (r[1]["law"], r[0])):
        a = agg.setdefault(st["law"], {"evals": 0, "invalid": 0, "labels": {}, "nt": set(), "samples": [], "timeout": False, "planned": 0})
        a["evals"] += st["evals"]
        a["invalid"] += st["invalid"]
        a["planned"] += st["planned"]
        a["nt"].update(st["nt"])
        a["timeout"] |= st["timeout"]
        for k, v in st["labels"].items():
            a["labels"][k] = a["labels"].get(k, 0) + v
        a["samples"] += st["samples"]
        if st["error"]:
            errors.append((st["law"], st["error"]))
        if st["fail"]:
            fails.append((st["law"], st["fail"]))
        for k, v in st["known"].items():
            knownhits[k] = knownhits.get(k, 0) + v
    # confirm failures: the smallest case per law, replayed 3 times without Hypothesis
    violations = []
    unconfirmed = []
    wd = tempfile.mkdtemp(dir=scratch)
    os.chdir(wd)
    ctx["wd"] = wd
    for law in sorted({f[0] for f in fails}):
        cands = sorted([f[1] for f in fails if f[0] == law], key=lambda f: len(jdump(f["case"])))
        for f in cands:
            n, msg = 0, f["msg"]
            for _ in range(3):
                try:
                    run_law(laws[law], f["case"], ctx)
                except Violation as e:
                    n, msg = n + 1, str(e)
                except Invalid:
                    pass
            if n == 3:
                violations.append((law, f["case"], msg))
                break
            unconfirmed.append((law, f["msg"]))
    # known findings are re-demonstrated on their recorded input
    for k in known:
        if k.get("law") in laws and "case" in k:
            try:
                run_law(laws[k["law"]], k["case"], ctx)
                print("NOTE: known finding %s no longer fails" % k["id"])
            except Violation as e:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            except Invalid:
                print("NOTE: known finding %s: recorded case invalid" % k["id"])
    lawinfo = {}
    samples = []
    for name in [l.name for l in mod.LAWS]:
        if name in agg:
            a = agg[name]
            lawinfo[name] = {"cases": a["evals"], "out_of_domain": a["invalid"], "distinct_nontrivial": len(a["nt"]),
                             "labels": dict(sorted(a["labels"].items())), "time_cut": a["timeout"]}
            samples += [{"law": name, "case": trunc(s)} for s in a["samples"][:2]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": sum(a["evals"] for a in agg.values()),
                       "distinct_nontrivial": sum(len(a["nt"]) for a in agg.values()),
                       "rule": mod.RULE, "laws": lawinfo, "samples": samples[:24],
                       "known_finding_hits": knownhits, "build_s": round(tb, 1),
                       "unconfirmed_failures": len(unconfirmed)},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 1),
          "violations": len(violations)}
    write_evidence(prop, ev)
    for name, li in lawinfo.items():
        print("%-28s cases %6d nontrivial %6d invalid %5d%s" % (name, li["cases"], li["distinct_nontrivial"], li["out_of_domain"],
                                                                 " TIME-CUT" if li["time_cut"] else ""))
        if os.environ.get("VERIF_LABELS"):
            print("    ", li["labels"])
    print("%s %s seed=%d build %.1fs total %.1fs" % (prop, tier, seed, tb, time.time() - t0))
    if violations:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for law, case, msg in violations:
            rp = os.path.join(rd, "%s_%s_seed%d.json" % (prop, law, seed))
            with open(rp, "w") as f:
                json.dump({"property": prop, "law": law, "case": case, "message": msg}, f, indent=1, default=_default)
            print("law %s: %s" % (law, msg[:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        for law, e in errors[:3]:
            print("ERROR in law %s:\n%s" % (law, e))
        return 2
    for law, msg in unconfirmed:
        print("NOTE: unconfirmed (not reproducible 3x) failure in %s: %s" % (law, msg[:500]))
    dead_laws = [n for n, li in lawinfo.items() if li["cases"] > 0 and li["distinct_nontrivial"] == 0]
    if dead_laws:
        print("ERROR: laws without non-trivial cases: %s" % dead_laws)
        return 2
    return 0
