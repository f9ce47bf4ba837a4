"""C26: calls outside an operation's domain that the library checks raise an error, in every
flavor, and leave the objects and the process fit for use."""

import importlib
import json
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import pm
from pm import flavors
from pbt import prop, check, Violation
from distributions import fileutil, util
from distributions.io import stream
from distributions.dbg.clustering import LowEntropy as DbgLE
from distributions.lp import clustering as lpc
from distributions.lp import random as lpr
from distributions.lp.mixture import MixtureIdTracker

MIX = [m for m in pm.MODELS if m != "niw"]
far = st.one_of(st.just(0), st.integers(0, 3), st.integers(0, 1 << 30))  # how far beyond the end


def refused(fn, what, *args):
    """fn must raise; returns the error"""
    try:
        got = fn()
    except (Violation, MemoryError):
        raise
    except Exception as e:
        return e
    raise Violation("no error from %s, which returned %r" % (what % args if args else what, got))


def beyond(n, x):
    """an index that is out of bounds of n entries: x >= 0 lies beyond the end, x < 0 below 0"""
    return n + x if x >= 0 else x


index = st.one_of(far, st.integers(-3, -1), st.integers(-(1 << 30), -1))


# ---------------------------------------------------------------- lp mixtures

@st.composite
def g_mix(draw):
    model = draw(st.sampled_from(MIX))
    shared, pool = draw(pm.GEN[model]())
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        if draw(st.booleans()):
            ops.append([draw(st.sampled_from(["add", "add", "rem", "new", "del"])), draw(st.integers(0, 7)), draw(st.integers(0, len(pool) - 1))])
        else:
            ops.append(["bad", draw(st.sampled_from(["get", "add", "rem", "del", "score", "array", "value"])), draw(index), draw(st.integers(0, len(pool) - 1))])
    return dict(model=model, shared=shared, pool=pool, ops=ops, groups=draw(st.integers(1, 5)))


def mix_state(m, model, mix, shared, pool):
    out = []
    for i in range(len(mix)):
        g = pm.new_group(m, shared)
        g.merge(shared, mix[i])
        out.append(json.dumps(g.dump(), sort_keys=True))
    for v in pool:
        acc = np.zeros(len(mix), dtype=np.float32)
        mix.score_value(shared, v, acc)
        out.append([float(x) for x in acc] + [mix.score_value_group(shared, i, v) for i in range(len(mix))])
    return out + [mix.score_data(shared)]


@prop("C26", "py_mixture", g_mix(), 2000, 80000, "a mixture that holds values survived a misuse")
def mixture(case, info):
    model, pool = case["model"], case["pool"]
    (_, m), = flavors(model, ["lp"])
    shared = pm.make_shared(m, model, case["shared"])
    info.label(model)
    mixes = []
    for _ in range(2):  # the second one never sees a misuse
        mix = m.Mixture()
        for _ in range(case["groups"]):
            mix.append(pm.new_group(m, shared))
        mix.init(shared)
        mixes.append(mix)
    bags = [pm.Bag() for _ in range(case["groups"])]
    mix = mixes[0]
    for op in case["ops"]:
        if op[0] != "bad":
            v, gid = pool[op[2]], op[1] % len(bags)
            if op[0] == "add":
                bags[gid].add(v)
                for x in mixes:
                    x.add_value(shared, gid, v)
            elif op[0] == "rem" and bags[gid].has(v):
                bags[gid].remove(v)
                for x in mixes:
                    x.remove_value(shared, gid, v)
            elif op[0] == "new":
                bags.append(pm.Bag())
                for x in mixes:
                    x.add_group(shared)
            elif op[0] == "del" and len(bags) > 1 and not (model == "dpd" and bags[gid].n()):
                bags[gid] = bags[-1]
                bags.pop()
                for x in mixes:
                    x.remove_group(shared, gid)
            continue
        kind, n = op[1], len(bags)
        gid, v = beyond(n, op[2]), pool[op[3]]
        info.label(kind)
        before = mix_state(m, model, mix, shared, pool)
        what = "%s mixture of %d groups: %s %d" % (model, n, kind, gid)
        if kind == "get":
            refused(lambda: mix[gid], what)
        elif kind == "add":
            refused(lambda: mix.add_value(shared, gid, v), what)
        elif kind == "rem":
            refused(lambda: mix.remove_value(shared, gid, v), what)
        elif kind == "del":
            refused(lambda: mix.remove_group(shared, gid), what)
        elif kind == "score":
            refused(lambda: mix.score_value_group(shared, gid, v), what)
        elif kind == "array":
            size = n + 1 + op[2] % 5 if op[2] % 2 else max(0, n - 1 - op[2] % 3)
            acc = np.arange(size, dtype=np.float32)
            refused(lambda: mix.score_value(shared, v, acc), "%s mixture of %d groups: %d slots for scores", model, n, size)
            check(list(acc) == list(range(size)), "a refused score_value wrote to its array: %r", acc)
        elif model == "dd":
            dim = len(case["shared"]["alphas"])
            w, i = beyond(dim, op[2]), op[3] % n
            acc = np.zeros(n, dtype=np.float32)
            for name, fn in [("add_value", lambda: mix.add_value(shared, i, w)), ("remove_value", lambda: mix.remove_value(shared, i, w)),
                             ("score_value", lambda: mix.score_value(shared, w, acc)), ("score_value_group", lambda: mix.score_value_group(shared, i, w))]:
                refused(fn, "dd mixture of dimension %d: %s of %d", dim, name, w)
            check(not acc.any(), "a refused score_value wrote to its array: %r", acc)
        elif model == "dpd":
            for w in (pm.OTHER, unknown(case["shared"], op[2])):
                refused(lambda: mix.add_value(shared, op[3] % n, w), "dpd mixture: add_value of %d", w)
                refused(lambda: mix.remove_value(shared, op[3] % n, w), "dpd mixture: remove_value of %d", w)
        after = mix_state(m, model, mix, shared, pool)
        check(before == after, "%s changed the mixture from %r to %r", what, before, after)
        if any(b.n() for b in bags):
            info.nontrivial = True
    a, b = [mix_state(m, model, x, shared, pool) for x in mixes]
    check(a == b, "%s: the misused mixture is %r, its twin %r", model, a, b)


def unknown(s, x):
    """a value the dpd shared does not know"""
    w = abs(x) % 4000000000
    while str(w) in s["betas"] or w == pm.OTHER:
        w += 1
    return w


# ---------------------------------------------------------------- groups

@st.composite
def g_group(draw):
    case = draw(pm.g_case(("dd", "dpd", "nich", "niw"), groups=2, max_ops=10))
    case["bad"] = draw(index)
    case["count"] = draw(st.integers(1, 5))
    return case


def group_state(model, m, shared, g, bag, pool):
    d = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in g.dump().items()}
    return d, shared_state(shared), [g.score_value(shared, pm.value(model, v)) for v in pool] if model != "niw" else None


def shared_state(shared):
    return json.dumps({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in shared.dump().items()}, sort_keys=True)


@prop("C26", "py_group", g_group(), 2500, 100000, "the misused group holds values")
def group(case, info):
    model, s, pool = case["model"], case["shared"], case["pool"]
    info.label(model)
    for f, m in flavors(model):
        if model in ("dd", "nich", "niw") and f != "lp":  # these flavors do not check values
            continue
        shared, g, bag = pm.history(model, m, case)
        info.nontrivial |= bag.n() > 0
        ops = ["add_value", "remove_value", "add_repeated_value", "score_value"]
        if model == "dd":
            bad = [beyond(len(s["alphas"]), case["bad"])]
        elif model == "dpd":
            bad = [pm.OTHER, unknown(s, case["bad"])]
            ops = ops[:3]
        elif model == "niw":
            d = len(s["mu"])
            e = abs(case["bad"]) % 6 + 1
            bad = [np.zeros(e + (e == d)) + 0.5]
            ops = ops[:3]  # Eigen aborts when asked to score these
        else:  # nich groups refuse removals from an empty group
            while bag.n():
                v = bag.items[0][0]
                g.remove_value(shared, v)
                bag.remove(v)
            bad, ops = [pool[0]], ["remove_value"]
        before = group_state(model, m, shared, g, bag, pool)
        for v in bad:
            for op in ops:
                args = (shared, v, case["count"]) if op == "add_repeated_value" else (shared, v)
                refused(lambda: getattr(g, op)(*args), "%s %s %s of %r", model, f, op, v)
                after = group_state(model, m, shared, g, bag, pool)
                check(before == after, "%s %s: a refused %s of %r changed the group from %r to %r", model, f, op, v, before, after)
        if model == "dpd":
            refused(lambda: shared.add_value(pm.OTHER), "dpd %s shared: add_value of OTHER", f)
            refused(lambda: shared.remove_value(pm.OTHER), "dpd %s shared: remove_value of OTHER", f)
            check(before == group_state(model, m, shared, g, bag, pool), "dpd %s: refused calls changed the shared", f)
        pm.run_ops(model, m, shared, g, bag, pool, case["hist"][1])
        pm.compare_dump(check, model, f, s, bag, g.dump(), "after a misuse")


# ---------------------------------------------------------------- loading

@st.composite
def g_load(draw):
    case = draw(pm.g_case(("dd", "dpd", "niw"), max_ops=8))
    case["how"] = draw(st.integers(0, 7))
    case["size"] = draw(st.one_of(st.integers(257, 300), st.integers(257, 20000)))
    case["x"] = draw(pm.logfloat(0.01, 10))
    case["wire"] = draw(st.booleans())
    return case


def message(f, model, kind):
    from distributions.io import schema_pb2
    name = dict(dd="DirichletDiscrete", dpd="DirichletProcessDiscrete", niw="NormalInverseWishart")[model]
    return getattr(getattr(schema_pb2, name), kind)()


@prop("C26", "py_load", g_load(), 1500, 60000, "the state that was refused came after one with values")
def load(case, info):
    model, s, how, x = case["model"], case["shared"], case["how"], case["x"]
    for f, m in flavors(model):
        shared, g, bag = pm.history(model, m, case)
        info.nontrivial |= bag.n() > 0
        good, good_group = shared.dump(), g.dump()
        bad = bad_group = msg = bad_msg = None
        if model == "dd":
            if f == "dbg":
                continue
            bad, bad_group = dict(alphas=[x] * case["size"]), dict(counts=[1] * case["size"])
            if f == "lp":
                msg, bad_msg = message(f, model, "Shared"), message(f, model, "Shared")
                msg.alphas.extend(good["alphas"])
                bad_msg.alphas.extend(bad["alphas"])
        elif model == "dpd":
            msg = message(f, model, "Shared")
            shared.protobuf_dump(msg)
            bad_msg = message(f, model, "Shared")
            bad_msg.CopyFrom(msg)
            if f == "lp":  # only a repeated value is refused
                k = bad_msg.values[how % len(bad_msg.values)]
                bad_msg.values.append(k)
                bad_msg.betas.append(0.001)
                bad_msg.counts.append(1)
            else:
                if how % 3 == 0:
                    bad_msg.values.append(5000)
                elif how % 3 == 1:
                    bad_msg.betas.append(0.001)
                else:
                    bad_msg.counts.append(1)
                bad = dict(good, betas=dict(good["betas"]))
                k = sorted(good["betas"])[how % len(good["betas"])]
                bad["betas"][k] = -x if how % 2 else 1 + x
        else:
            if f == "lp":  # only a missing matrix is refused
                bad, bad_group = dict(good, psi=None), dict(good_group, sum_xxT=None)
            else:
                d = len(s["mu"])
                bad = [dict(good, kappa=-x), dict(good, kappa=0.0), dict(good, nu=d - x), dict(good, psi=np.eye(d + 1)), dict(good, mu=np.zeros(d + 1)),
                       dict(good, psi=np.zeros((d, d + 1))), dict(good, mu=np.zeros((d, 1))), dict(good, nu=-x)][how]
                bad_group = [dict(good_group, count=-1 - how), dict(good_group, sum_xxT=np.eye(d + 1)), dict(good_group, sum_x=np.zeros(d + 1)), dict(good_group, sum_xxT=np.zeros((d, d + 1)))][how % 4]
                msg = message(f, model, "Shared")
                shared.protobuf_dump(msg)
                bad_msg = message(f, model, "Shared")
                bad_msg.CopyFrom(msg)
                if how % 3 == 0:
                    bad_msg.psi.append(1)
                elif how % 3 == 1:
                    bad_msg.mu.append(1)
                else:
                    bad_msg.nu = d - x
        info.label("%s %s" % (model, f))
        want = json.dumps(plain(good), sort_keys=True)
        victims = [("a fresh", m.Shared()), ("a used", pm.make_shared(m, model, s))]
        for name, sh in victims:
            if bad is not None:
                refused(lambda: sh.load(bad), "%s %s: %s shared's load of %.300r", model, f, name, bad)
                usable(sh, "shared", model, f, name)
                sh.load(good)
                check(json.dumps(plain(sh.dump()), sort_keys=True) == want, "%s %s: %s shared that refused a state loads %r as %r", model, f, name, good, sh.dump())
            if bad_msg is not None:
                refused(lambda: sh.protobuf_load(bad_msg), "%s %s: %s shared's protobuf_load of %.300s", model, f, name, bad_msg)
                usable(sh, "shared", model, f, name)
                sh.protobuf_load(msg)
                got = m.Shared()
                got.protobuf_load(msg)
                check(same(plain(sh.dump()), plain(got.dump())), "%s %s: %s shared that refused a message loads %r, a fresh one %r", model, f, name, sh.dump(), got.dump())
        if bad_group is None:
            continue
        want = json.dumps(plain(good_group), sort_keys=True)
        used = pm.history(model, m, case)[1]
        for name, gr in [("a fresh", m.Group()), ("a used", used)]:
            if name == "a fresh":
                gr.init(shared)
            refused(lambda: gr.load(bad_group), "%s %s: %s group's load of %.300r", model, f, name, bad_group)
            usable(gr, "group", model, f, name)
            gr.load(good_group)
            check(json.dumps(plain(gr.dump()), sort_keys=True) == want, "%s %s: %s group that refused a state loads %r as %r", model, f, name, good_group, gr.dump())


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def plain(d):
    return {str(k): (v.tolist() if isinstance(v, np.ndarray) else {str(a): b for a, b in v.items()} if isinstance(v, dict) else v) for k, v in d.items()}


def usable(obj, kind, model, f, name):
    """after a refused load a dump stays within the object"""
    if model == "dd":
        d = obj.dump()
        k = "alphas" if kind == "shared" else "counts"
        check(len(d[k]) <= 256, "dd %s: %s %s that refused a state dumps %d %s", f, name, kind, len(d[k]), k)


# ---------------------------------------------------------------- clustering

@st.composite
def g_cluster(draw):
    counts = draw(st.lists(st.integers(0, 6), max_size=6)) + [0] * draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        ops.append([draw(st.sampled_from(["add", "rem", "bad add", "bad rem", "bad empty"])), draw(index), draw(st.integers(0, 50))])
    return dict(kind=draw(st.sampled_from(["py", "le"])), alpha=draw(pm.logfloat(0.01, 50)), d=draw(pm.linfloat(0, 0.95)), counts=counts, ops=ops, x=draw(pm.logfloat(0.001, 10)),
                N=draw(st.integers(1, 200)), over=draw(st.integers(0, 30)), groups=draw(st.integers(2, 6)), how=draw(st.integers(0, 20)))


def driver_state(mix, model):
    s = np.zeros(len(mix), dtype=np.float32)
    mix.score_value(model, s)
    return sorted(mix.empty_groupids), [float(x) for x in s]


@prop("C26", "py_driver", g_cluster(), 1500, 60000, "a driver that holds items survived a misuse")
def driver(case, info):
    info.label(case["kind"])
    if case["kind"] == "py":
        model = lpc.PitmanYor.from_dict(dict(alpha=case["alpha"], d=case["d"]))
    else:
        model = lpc.LowEntropy.from_dict(dict(dataset_size=10000))
    Mixture = type(model).Mixture
    full = [c or 1 for c in case["counts"]]
    refused(lambda: Mixture().init(model, full), "%s: a driver without empty groups, %r", case["kind"], full)
    mix, ref = Mixture(), list(case["counts"])
    mix.init(model, list(ref))
    for op, x, y in case["ops"]:
        if op == "add":
            g = y % len(ref)
            mix.add_value(model, g)
            ref[g] += 1
            if ref[g] == 1:
                ref.append(0)
        elif op == "rem":
            some = [i for i, c in enumerate(ref) if c]
            if some:
                g = some[y % len(some)]
                mix.remove_value(model, g)
                ref[g] -= 1
                if not ref[g]:
                    ref[g] = ref[-1]
                    ref.pop()
        else:
            g = beyond(len(ref), x)
            before = driver_state(mix, model)
            if op == "bad add":
                refused(lambda: mix.add_value(model, g), "%s driver of %d groups: add_value to %d", case["kind"], len(ref), g)
            elif op == "bad rem":
                refused(lambda: mix.remove_value(model, g), "%s driver of %d groups: remove_value from %d", case["kind"], len(ref), g)
            else:
                g = [i for i, c in enumerate(ref) if not c][0]
                refused(lambda: mix.remove_value(model, g), "%s driver with counts %r: remove_value from the empty group %d", case["kind"], ref, g)
            after = driver_state(mix, model)
            check(before == after, "%s driver: %s %d changed it from %r to %r", case["kind"], op, g, before, after)
            info.label(op)
            info.nontrivial |= any(ref)
        check(len(mix) == len(ref), "%s driver has %d groups, should have %d", case["kind"], len(mix), len(ref))
        check(sorted(mix.empty_groupids) == [i for i, c in enumerate(ref) if not c], "%s driver: empty groups %r, counts are %r", case["kind"], sorted(mix.empty_groupids), ref)


@prop("C26", "py_clustering", g_cluster(), 1500, 60000, "always")
def clustering(case, info):
    info.nontrivial = True
    good = dict(alpha=case["alpha"], d=case["d"])
    x, how, N = case["x"], case["how"], case["N"]
    py = lpc.PitmanYor.from_dict(good)
    before = py.dump()
    for bad in [dict(good, alpha=0.0), dict(good, alpha=-x), dict(good, d=-min(x, 1.0)), dict(good, d=1.0), dict(good, d=1 + x)]:
        refused(lambda: py.load(bad), "PitmanYor.load(%r)", bad)
        check(py.dump() == before, "a refused load changed PitmanYor from %r to %r", before, py.dump())
        refused(lambda: lpc.PitmanYor(**bad), "PitmanYor(**%r)", bad)
    le = lpc.LowEntropy.from_dict(dict(dataset_size=N))
    refused(lambda: le.load(dict(dataset_size=-1 - how)), "LowEntropy.load(%d)", -1 - how)
    check(le.dump() == dict(dataset_size=N), "a refused load changed LowEntropy to %r", le.dump())
    refused(lambda: DbgLE().load(dict(dataset_size=-1 - how)), "dbg LowEntropy.load(%d)", -1 - how)
    dbg = DbgLE(N)
    over = N + 1 + case["over"]
    counts = [1 + how] * (over // (1 + how) + 1)
    for name, model in [("lp", le), ("dbg", dbg)]:
        refused(lambda: model.sample_assignments(over), "%s LowEntropy(%d).sample_assignments(%d)", name, N, over)
        refused(lambda: model.score_counts(counts), "%s LowEntropy(%d).score_counts(%r)", name, N, counts)
        refused(lambda: model.score_add_value(how, 1, over - 1), "%s LowEntropy(%d).score_add_value(%d, 1, %d)", name, N, how, over - 1)
        refused(lambda: model.score_add_value(how, 0, 0, 0), "%s LowEntropy.score_add_value without empty groups", name)
        refused(lambda: model.score_remove_value(1, 1, 0), "%s LowEntropy.score_remove_value from nothing", name)
        check(len(model.sample_assignments(N)) == N, "%s LowEntropy(%d).sample_assignments", name, N)
    gap = how % (case["groups"] - 1)
    assign = {}
    for g in range(case["groups"]):
        if g != gap:
            for _ in range(1 + case["over"] % 3):
                assign[len(assign)] = g
    refused(lambda: lpc.count_assignments(assign), "count_assignments(%r)", assign)
    assign[len(assign)] = gap
    got = lpc.count_assignments(assign)
    check(list(got) == [sum(1 for g in assign.values() if g == i) for i in range(case["groups"])], "count_assignments(%r) is %r", assign, got)


@st.composite
def g_tracker(draw):
    return dict(n=draw(st.integers(0, 5)), ops=draw(st.lists(st.tuples(st.sampled_from(["add", "rem", "bad rem", "bad packed", "bad global", "gone"]), index, st.integers(0, 50)), min_size=1, max_size=20)))


@prop("C26", "py_tracker", g_tracker(), 1000, 40000, "a removed group's id was asked for")
def tracker(case, info):
    t = MixtureIdTracker()
    t.init(case["n"])
    ids, gone, top = list(range(case["n"])), [], case["n"]
    for op, x, y in case["ops"]:
        p = beyond(len(ids), x)
        if op == "add":
            t.add_group()
            ids.append(top)
            top += 1
        elif op == "rem" and ids:
            i = y % len(ids)
            gone.append(ids[i])
            t.remove_group(i)
            ids[i] = ids[-1]
            ids.pop()
        elif op == "bad rem":
            refused(lambda: t.remove_group(p), "remove_group(%d) of %d", p, len(ids))
        elif op == "bad packed":
            refused(lambda: t.packed_to_global(p), "packed_to_global(%d) of %d", p, len(ids))
        elif op == "bad global":
            refused(lambda: t.global_to_packed(beyond(top, x)), "global_to_packed(%d) of %d", beyond(top, x), top)
        elif op == "gone" and gone:
            g = gone[y % len(gone)]
            refused(lambda: t.global_to_packed(g), "global_to_packed(%d), removed", g)
            info.nontrivial = True
        for i, g in enumerate(ids):
            check(t.packed_to_global(i) == g and t.global_to_packed(g) == i, "ids are %r, but packed %d is global %d and global %d packed %d", ids, i, t.packed_to_global(i), g, t.global_to_packed(g))


# ---------------------------------------------------------------- random, util, streams

@prop("C26", "py_random", st.fixed_dictionaries(dict(seed=st.integers(0, 1000), items=st.lists(st.integers(0, 9), min_size=2, max_size=6), n=st.integers(0, 1))), 300, 10000, "always")
def rand(case, info):
    info.nontrivial = True
    refused(lambda: lpr.sample_pair_from_urn(case["items"][:case["n"]]), "sample_pair_from_urn of %d items", case["n"])
    refused(lambda: lpr.sample_discrete(np.zeros(0, dtype=np.float32)), "sample_discrete of no probabilities")
    a, b = lpr.sample_pair_from_urn(list(range(len(case["items"]))))
    check(a != b and 0 <= a < len(case["items"]) and 0 <= b < len(case["items"]), "sample_pair_from_urn drew %r", (a, b))


def quiet(fn, *args, **kw):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kw)


@st.composite
def g_util(draw):
    return dict(n=draw(st.integers(2, 8)), more=draw(st.integers(1, 3)), total=draw(st.integers(200, 5000)), small=draw(st.integers(0, 100)), x=draw(pm.logfloat(1e-3, 10)), at=draw(st.integers(0, 99)))


@prop("C26", "py_util", g_util(), 400, 15000, "always")
def utilities(case, info):
    info.nontrivial = True
    n, total, x = case["n"], case["total"], case["x"]
    probs = [1.0 / n] * n
    counts = [total // n] * n
    size = sum(counts)
    fit = util.multinomial_goodness_of_fit
    check(0 <= quiet(fit, probs, counts, size) <= 1, "p-value of %r", counts)
    refused(lambda: quiet(fit, probs, counts + [0] * case["more"], size), "multinomial_goodness_of_fit of %d probabilities and %d counts", n, n + case["more"])
    refused(lambda: quiet(fit, probs[:-1], counts, size), "multinomial_goodness_of_fit of %d probabilities and %d counts", n - 1, n)
    refused(lambda: quiet(fit, probs, counts, size + case["more"]), "multinomial_goodness_of_fit of counts that sum to another total")
    refused(lambda: quiet(fit, [1 + x] + probs[1:], counts, size), "multinomial_goodness_of_fit with a probability of %r", 1 + x)
    few = [1] + [0] * (n - 1)
    refused(lambda: quiet(fit, probs, few, 1), "multinomial_goodness_of_fit of one sample")
    us = [(i + 0.5) / 500 for i in range(500)]
    check(0 <= quiet(util.unif01_goodness_of_fit, us) <= 1, "p-value of a grid")
    for bad in (-x, 1 + x):
        wrong = list(us)
        wrong[case["at"]] = bad
        refused(lambda: quiet(util.unif01_goodness_of_fit, wrong), "unif01_goodness_of_fit with a sample of %r", bad)
    refused(lambda: quiet(util.unif01_goodness_of_fit, us[:1 + case["small"]]), "unif01_goodness_of_fit of %d samples", 1 + case["small"])
    refused(lambda: quiet(util.density_goodness_of_fit, us[:case["small"]], [1.0] * case["small"]), "density_goodness_of_fit of %d samples", case["small"])
    refused(lambda: quiet(util.density_goodness_of_fit, us, [1.0] * (len(us) - case["more"])), "density_goodness_of_fit of too few densities")
    table = {i: p for i, p in enumerate(probs)}
    samples = [i % n for i in range(max(total, 120))]
    check(0 <= quiet(util.discrete_goodness_of_fit, samples, table) <= 1, "p-value of even samples")
    refused(lambda: quiet(util.discrete_goodness_of_fit, samples[:case["small"]], table), "discrete_goodness_of_fit of %d samples", case["small"])
    wrong = list(samples)
    wrong[case["at"]] = n + case["more"]
    refused(lambda: quiet(util.discrete_goodness_of_fit, wrong, table), "discrete_goodness_of_fit with an impossible sample")


json_item = st.recursive(st.one_of(st.integers(-9, 9), st.text(alphabet="ab\"\\\n,]", max_size=4), st.none()), lambda v: st.one_of(st.lists(v, max_size=3), st.dictionaries(st.text(alphabet="ab", max_size=2), v, max_size=2)), max_leaves=4)
g_stream = st.fixed_dictionaries(dict(items=st.lists(json_item, min_size=1, max_size=5), cut=st.integers(1, 60), kind=st.sampled_from(["a.json", "a.json.gz", "a.json.bz2"]),
                                      form=st.integers(0, 5), text=st.text(alphabet="ab é", max_size=5)))


@prop("C26", "py_streams", g_stream, 500, 20000, "a shortened file with at least two items")
def streams(case, info):
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        path = os.path.join(d, case["kind"])
        refused(lambda: stream.json_stream_load(path), "json_stream_load of no file")
        refused(lambda: stream.protobuf_stream_load(path), "protobuf_stream_load of no file")
        refused(lambda: stream.json_load(path), "json_load of no file")
        items = case["items"]
        wrong = [json.dumps(items), json.dumps(dict(a=items)), "", "[" + json.dumps(items[0]) + "\n]", " [\n]", "{\n}"][case["form"]]
        with stream.open_compressed(path, "w") as f:
            f.write(wrong)
        e = refused(lambda: stream.json_stream_load(path), "json_stream_load of %r", wrong)
        check(isinstance(e, IOError), "json_stream_load of %r raised %r", wrong, e)
        # a file that lost its end is reported, not silently shortened
        stream.json_stream_dump(items, path)
        with stream.open_compressed(path, "r") as f:
            text = f.read()
        check(list(stream.json_stream_load(path)) == items, "json stream of %r", items)
        short = text[:max(2, len(text) - case["cut"])]
        with stream.open_compressed(path, "w") as f:
            f.write(short)
        info.nontrivial = len(items) > 1 and len(short) > 2
        info.label(case["kind"])
        refused(lambda: list(stream.json_stream_load(path)), "json_stream_load of %r, cut from %r", short, text)
        with stream.open_compressed(path, "wb") as f:
            for bad in (case["text"], 5, None, [b"x"]):
                refused(lambda: stream.protobuf_stream_write(bad, f), "protobuf_stream_write of %r", bad)
            stream.protobuf_stream_write(b"ok", f)
        check(list(stream.protobuf_stream_load(path)) == [b"ok"], "a stream that refused items holds %r", list(stream.protobuf_stream_load(path)))
    finally:
        shutil.rmtree(d)
