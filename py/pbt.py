"""Runs the Python property tests of a module: Hypothesis generates plain-data cases, each test
is an oracle over one case; a failure (or a crash of the process) is shrunk and written as a
JSON replay file.

  pbt.py MODULE --property C01 --tier quick --seed 1 --evidence OUT --replay-dir DIR
  pbt.py MODULE --replay FILE
"""

import argparse
import hashlib
import importlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait as mpwait

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy as np
from hypothesis import given, settings, HealthCheck, Phase, Verbosity, seed as hyp_seed
from hypothesis.errors import Flaky, UnsatisfiedAssumption
import hypothesis.internal.conjecture.engine as hyp_engine

hyp_engine.MAX_SHRINKING_SECONDS = 40
MAX_SHRINK = 100  # seconds from a test's first failure until it is reported, shrunk or not

TESTS = []


class Violation(AssertionError):
    pass


class Case(object):
    """what a test tells about the case it ran"""
    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def label(self, s):
        self.labels.add(s)


def prop(pid, name, strategy, quick, thorough, rule):
    """registers test(case, info) for the property; runs `quick` or `thorough` examples"""
    def deco(fn):
        TESTS.append(dict(property=pid, name="%s_%s" % (pid, name), strategy=strategy, quick=quick, thorough=thorough, rule=rule, fn=fn))
        return fn
    return deco


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol, msg):
    a, b = float(a), float(b)
    if not (abs(a - b) <= tol) and not (a == b):
        raise Violation("%s: %r vs %r (tolerance %g)" % (msg, a, b, tol))


def plain(x):
    """a JSON-able copy"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    return x


def reset_rng(n=0):
    """every example starts from the same random state of all generators"""
    np.random.seed(n % (1 << 31))
    random.seed(n)
    try:
        from distributions.hp.random import seed as hp_seed
    except ImportError:
        return
    hp_seed(1 + n % ((1 << 31) - 3))


def run_test(t, conn, n, seed, scratch):
    stat = dict(evaluations=0, nontrivial=0, hashes=set(), labels={}, samples=[], discarded=0)
    current = {}

    def body(case):
        text = json.dumps(plain(case))
        with open(scratch, "w") as f:  # survives a crash of this process
            f.write(text)
        current["case"] = text
        reset_rng(0)
        info = Case()
        stat["evaluations"] += 1
        signal.alarm(120)
        try:
            t["fn"](json.loads(text), info)
        except UnsatisfiedAssumption:
            stat["discarded"] += 1
            raise
        except BaseException as e:
            error = "%s: %s" % (type(e).__name__, str(e)[:1500])
            if "failed" not in stat:
                stat["failed"], stat["error"], stat["since"] = text, error, time.time()
            if "best" not in stat or len(text) <= stat["best"]:
                stat["best"] = len(text)
                with open(scratch + ".tmp", "w") as f:
                    json.dump(dict(case=text, error=error, since=stat["since"]), f)
                os.rename(scratch + ".tmp", scratch + ".failed")
            raise
        finally:
            signal.alarm(0)
        for l in info.labels:
            stat["labels"][l] = stat["labels"].get(l, 0) + 1
        if info.nontrivial:
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in stat["hashes"]:
                stat["hashes"].add(h)
                if len(stat["samples"]) < 2:
                    stat["samples"].append(text[:700])

    def on_alarm(sig, frame):
        raise Violation("no result after 120 s")
    signal.signal(signal.SIGALRM, on_alarm)
    runner = given(t["strategy"])(body)
    runner = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), print_blob=False,
                      verbosity=Verbosity.quiet, report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink])(runner)
    runner = hyp_seed(seed)(runner)
    t0 = time.time()
    failure = None
    try:
        runner()
    except Flaky as e:  # failed once, passed when repeated: the code remembers something between cases
        failure = dict(case=stat.get("failed") or current.get("case"), error="%s (did not fail again when repeated in the same process)" % stat.get("error", str(e)[:1500]), traceback="")
    except BaseException as e:
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        failure = dict(case=current.get("case"), error="%s: %s" % (type(e).__name__, str(e)[:1500]), traceback=tb[-4000:])
        if current.get("case") is None:
            failure["internal"] = True
    conn.send(dict(name=t["name"], rule=t["rule"], evaluations=stat["evaluations"], hashes=stat["hashes"],
                   discarded=stat["discarded"], labels=stat["labels"], samples=stat["samples"], cpu_s=round(time.time() - t0, 2), failure=failure))
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--property", default="")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--evidence")
    ap.add_argument("--replay-dir", default=".")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.modules["pbt"] = sys.modules["__main__"]
    if a.replay:
        r = json.load(open(a.replay))
        a.property = r["test"].split("_")[0]
    os.environ["PBT_PROPERTY"] = a.property
    importlib.import_module(a.module)
    if a.replay:
        t = [t for t in TESTS if t["name"] == r["test"]][0]
        print(t["name"], json.dumps(r["case"])[:3000])
        reset_rng(0)
        try:
            t["fn"](r["case"], Case())
        except BaseException:
            traceback.print_exc()
            return 1
        print("PASS")
        return 0

    import multiprocessing
    ctx = multiprocessing.get_context("fork")
    todo = []
    for t in TESTS:
        if t["property"] == a.property and a.only in t["name"]:
            n = max(1, int(t[a.tier] * a.scale))
            shards = max(1, min(a.jobs, n // 8))
            todo += [(t, n // shards + (i < n % shards), a.seed * 1000 + i) for i in range(shards)]
    results, running, rc, failed = {}, {}, 0, set()
    os.makedirs(a.replay_dir, exist_ok=True)

    def fail(t, case, error, tb=""):
        if t["name"] in failed:
            return
        failed.add(t["name"])
        path = os.path.join(a.replay_dir, "py-%s.json" % t["name"])
        with open(path, "w") as f:
            json.dump(dict(module=a.module, test=t["name"], error=error, case=case, traceback=tb), f, indent=1)
        print("FAILURE\t%s\t%s\t%s" % (t["name"], path, (error + " on case " + json.dumps(case)).replace("\n", " ").replace("\t", " ")[:900]))

    def clean(scratch):
        for f in (scratch, scratch + ".tmp", scratch + ".failed"):
            if os.path.exists(f):
                os.remove(f)

    while todo or running:
        todo = [x for x in todo if x[0]["name"] not in failed]
        while todo and len(running) < a.jobs:
            t, n, seed = todo.pop(0)
            rd, wr = ctx.Pipe(False)
            scratch = os.path.join(a.replay_dir, ".current-%s-%d-%d" % (t["name"], os.getpid(), seed))
            sys.stdout.flush()
            p = ctx.Process(target=run_test, args=(t, wr, n, seed, scratch))
            p.start()
            wr.close()
            running[rd] = (t, p, scratch)
        ready = mpwait(list(running), 5)
        slow = {}  # a failing test that shrinks for too long is stopped, and its best case so far reported
        for rd, (t, p, scratch) in running.items():
            if rd not in ready and os.path.exists(scratch + ".failed"):
                best = json.load(open(scratch + ".failed"))
                if time.time() - best["since"] > MAX_SHRINK:
                    slow[rd] = best
        for rd in ready + list(slow):
            t, p, scratch = running.pop(rd)
            r = None
            if rd in slow:
                p.kill()
                r = dict(name=t["name"], rule=t["rule"], evaluations=1, hashes=set(), discarded=0, labels={}, samples=[], cpu_s=MAX_SHRINK,
                         failure=dict(case=slow[rd]["case"], error=slow[rd]["error"], traceback=""))
            else:
                try:
                    r = rd.recv()
                except EOFError:
                    pass
            p.join()
            case = None
            if os.path.exists(scratch):
                try:
                    case = json.load(open(scratch))
                except ValueError:
                    pass
            clean(scratch)
            if r is None:  # the process died inside a case
                rc = 1
                fail(t, case, "the process died (exit code %s)" % p.exitcode)
                r = dict(name=t["name"], rule=t["rule"], evaluations=1, hashes=set(), discarded=0, labels={}, samples=[], cpu_s=0)
            f = r.pop("failure", None)
            if f:
                if f.get("internal"):
                    print("ERROR in %s: %s\n%s" % (t["name"], f["error"], f["traceback"]))
                    return 3
                rc = 1
                fail(t, json.loads(f["case"]), f["error"], f["traceback"])
                # the other shards of this test need not finish
                for rd2, (t2, p2, s2) in list(running.items()):
                    if t2 is t:
                        running.pop(rd2)
                        p2.kill()
                        p2.join()
                        clean(s2)
            o = results.setdefault(t["name"], dict(name=t["name"], rule=t["rule"], evaluations=0, hashes=set(), discarded=0, labels={}, samples=[], cpu_s=0))
            for k in ("evaluations", "discarded", "cpu_s"):
                o[k] = round(o[k] + r[k], 2)
            o["hashes"] |= r["hashes"]
            for k, v in r["labels"].items():
                o["labels"][k] = o["labels"].get(k, 0) + v
            o["samples"] = (o["samples"] + r["samples"])[:3]
            if f or r["cpu_s"] == 0:
                break
    results = sorted(results.values(), key=lambda r: r["name"])
    for r in results:
        r["distinct_nontrivial"] = len(r.pop("hashes"))
    if a.evidence:
        with open(a.evidence, "w") as f:
            json.dump(dict(targets=results), f)
    return rc


if __name__ == "__main__":
    sys.exit(main())
