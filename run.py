#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]

Builds what the property's check needs from /repo's working tree, runs its generated-input
search (C++ targets through cpp/engine.cc, Python tests through py/pbt.py), writes
evidence/<property>.json, and exits 0 (held on everything explored), 1 (VIOLATION line
printed) or 2 (no answer: the check itself could not be built or run)."""

import argparse
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import vbuild
from checks import CHECKS

REPLAYS = os.path.join(V, "replays")


def known_findings():
    """[(property, id, description)] of the findings recorded and not repaired"""
    out = []
    for line in open(os.path.join(V, "KNOWN_FINDINGS")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def py_env():
    return dict(os.environ, PYTHONPATH=vbuild.TREE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                OPENBLAS_NUM_THREADS="1", NUMPY_EXPERIMENTAL_DTYPE_API="1", PYTHONWARNINGS="ignore")


def build(check, tier):
    vbuild.sync()
    b = vbuild.Builder()
    bins = []
    for spec in check.get("cpp", []):
        for variant, (parts, quick, thorough) in spec["variants"].items():
            n = quick if tier == "quick" else thorough
            if n:
                bins.append((b.harness(spec["src"], variant, parts), spec, variant, n))
    fuzz = []
    if tier == "thorough":
        for spec in check.get("cpp", []):
            if spec.get("fuzz"):
                parts, targets = spec["fuzz"]
                fuzz.append((b.harness(spec["src"], "fuzz", parts), b.harness(spec["src"], "san", parts), targets))
    if check.get("exts"):
        b.exts(check["exts"])
    b.run()
    return bins, fuzz


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0, help="multiplies the number of cases")
    a = ap.parse_args()
    t0 = time.time()
    pid, check = a.property, CHECKS[a.property]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if a.replay:
        return replay(pid, check, a.replay)
    try:
        bins, fuzz = build(check, a.tier)
    except vbuild.BuildError as e:
        print("ERROR: the check could not be built from the current tree\n%s" % e)
        return 2
    t_build = time.time() - t0
    failures, targets, labels, errors = [], [], {}, []
    evdir = os.path.join(vbuild.B, "ev")
    os.makedirs(evdir, exist_ok=True)
    jobs = os.environ.get("VT_JOBS", "8")
    budget = 300 if a.tier == "quick" else 420

    for path, spec, variant, n in bins:
        ev = os.path.join(evdir, "%s-%s-%s.json" % (pid, spec["src"], variant))
        cmd = [path, "--seed", str(a.seed), "--cases", str(int(n * a.scale)), "--jobs", jobs, "--only", spec["prefix"],
               "--evidence", ev, "--replay-dir", REPLAYS, "--tag", variant + "-", "--max-seconds", str(budget)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "FAILURE":
                with open(f[2], "r+") as g:
                    text = g.read()
                    g.seek(0)
                    g.write("# engine cpp %s %s %s\n%s" % (spec["src"], variant, "".join(map(str, spec["variants"][variant][0])), text))
                failures.append((f[2], "%s (%s build): %s" % (f[1], variant, f[3])))
            elif line.strip():
                print(line[:2000])
        if p.returncode not in (0, 1):
            errors.append("%s exited with %d: %s" % (os.path.basename(path), p.returncode, out[-2000:]))
            continue
        for t in json.load(open(ev))["targets"]:
            t["name"] = "%s/%s" % (t["name"], variant)
            targets.append(t)
            for k, c in t["labels"].items():
                labels[k] = labels.get(k, 0) + c

    if fuzz:
        run_fuzz(pid, fuzz, a.seed, targets, failures)

    for mod in check.get("py", []):
        ev = os.path.join(evdir, "%s-%s.json" % (pid, mod))
        if os.path.exists(ev):
            os.remove(ev)
        p = subprocess.run(["/usr/bin/python3", "-W", "ignore", os.path.join(V, "py", "pbt.py"), mod, "--property", pid, "--tier", a.tier,
                            "--seed", str(a.seed), "--jobs", jobs, "--evidence", ev, "--replay-dir", REPLAYS, "--scale", str(a.scale)],
                           env=py_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "FAILURE":
                failures.append((f[2], "%s: %s" % (f[1], f[3])))
            elif line.strip():
                print(line[:2000])
        if p.returncode not in (0, 1) or not os.path.exists(ev):
            errors.append("py/%s.py exited with %d: %s" % (mod, p.returncode, out[-2000:]))
            continue
        for t in json.load(open(ev))["targets"]:
            targets.append(t)
            for k, c in t["labels"].items():
                labels[k] = labels.get(k, 0) + c

    # findings that were recorded, and ones that were not
    listed = {(p, i): d for p, i, d in known_findings()}
    for k in sorted(labels):
        if k.startswith("known:"):
            if (pid, k[6:]) in listed:
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, k[6:], listed[pid, k[6:]]))
            else:
                path = os.path.join(REPLAYS, "%s-%s.txt" % (pid, k[6:]))
                with open(path, "w") as f:
                    f.write("deviation '%s', not listed in KNOWN_FINDINGS, seen in %d cases\n" % (k[6:], labels[k]))
                failures.append((path, "deviation '%s' is not listed in KNOWN_FINDINGS" % k[6:]))

    evals = sum(t["evaluations"] for t in targets)
    samples = []
    for t in targets:
        for s in t["samples"][:1]:
            if len(samples) < 24:
                samples.append("%s: %s" % (t["name"], s))
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sum(t["distinct_nontrivial"] for t in targets),
            "discarded": sum(t["discarded"] for t in targets),
            "rule": "Each case is built from a sequence of random choices; distinct = distinct choice sequence (C++) or distinct "
                    "generated value (Python). Non-trivial, per target: " + "; ".join(sorted({t["name"].split("/")[0] + ": " + t["rule"] for t in targets})),
            "samples": samples,
            "targets": [{k: t[k] for k in ("name", "evaluations", "distinct_nontrivial", "discarded", "labels", "cpu_s", "stopped_early") if k in t} for t in targets],
            "build_s": round(t_build, 1),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(failures),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for path, msg in failures:
        print("%s" % msg[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for e in errors:
        print("ERROR: " + e)
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)"
          % (pid, a.tier, evals, ev["coverage"]["distinct_nontrivial"], len(failures), ev["wall_s"], t_build))
    if failures:
        return 1
    return 2 if errors else 0


def run_fuzz(pid, fuzz, seed, targets, failures):
    """Coverage-guided search with libFuzzer over the same targets; a crash is turned into choices, shrunk and replayed."""
    work = []
    for fbin, sbin, names in fuzz:
        for n in names:
            work.append((fbin, sbin, n))
    if not work:
        return
    secs = max(20, int(200 * 8 / max(8, len(work))))

    def one(item):
        fbin, sbin, name = item
        d = os.path.join(vbuild.B, "fuzz", "%s-%s" % (pid, name))
        sh = subprocess.run(["mkdir", "-p", d + "/corpus"])
        for f in os.listdir(d):
            if f.startswith("crash") or f.startswith("timeout"):
                os.remove(os.path.join(d, f))
        p = subprocess.run([fbin, "-seed=%d" % seed, "-max_total_time=%d" % secs, "-max_len=2048", "-timeout=30", "-rss_limit_mb=3000",
                            "-artifact_prefix=%s/" % d, "-print_final_stats=1", d + "/corpus"],
                           env=dict(os.environ, ENGINE_TARGET=name), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", out)
        execs = int(m.group(1)) if m else 0
        ncov = re.findall(r"cov: (\d+)", out)
        units = len(os.listdir(d + "/corpus"))
        crash = [f for f in sorted(os.listdir(d)) if f.startswith(("crash", "timeout"))]
        found = None
        if crash:
            r = subprocess.run([sbin, "--only", name, "--from-bytes", os.path.join(d, crash[0]), "--replay-dir", REPLAYS, "--tag", "fuzz-"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            found = r.stdout.decode(errors="replace")
        subprocess.run(["rm", "-rf", os.path.abspath(d)])
        return name, execs, units, ncov[-1] if ncov else "0", found

    with ThreadPoolExecutor(8) as pool:
        for name, execs, units, cov, found in pool.map(one, work):
            targets.append({"name": name + "/libfuzzer", "rule": "libFuzzer kept the input for new coverage (%s edges)" % cov, "evaluations": execs,
                            "distinct_nontrivial": units, "discarded": 0, "labels": {}, "samples": [], "cpu_s": secs})
            for line in (found or "").splitlines():
                f = line.split("\t")
                if f[0] == "FAILURE":
                    with open(f[2], "r+") as g:
                        text = g.read()
                        g.seek(0)
                        g.write("# engine cpp\n" + text)
                    failures.append((f[2], "%s (libFuzzer): %s" % (f[1], f[3])))
                else:
                    print("libFuzzer:", line)


def replay(pid, check, path):
    text = open(path).read()
    m = re.search(r"^# engine cpp (\S+) (\S+) (\d+)", text, re.M)
    bins, _ = build(check, "quick")
    if m:
        out = os.path.join(vbuild.B, "bin", "%s-%s-%s" % m.groups())
        return subprocess.run([out, "--replay", path]).returncode
    if text.startswith("{"):
        mod = json.loads(text)["module"]
        return subprocess.run(["/usr/bin/python3", os.path.join(V, "py", "pbt.py"), mod, "--replay", path], env=py_env()).returncode
    for b, spec, variant, n in bins:
        subprocess.run([b, "--replay", path])
    return 0


if __name__ == "__main__":
    sys.exit(main())
