"""Properties of the clustering priors and packed bookkeeping in the Python flavors."""

import itertools
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from hypothesis import assume

import pm
from pbt import prop, check, close, reset_rng
from distributions.dbg.clustering import LowEntropy as DbgLE
from distributions.lp import clustering as lpc

LpLE, LpPY = lpc.LowEntropy, lpc.PitmanYor
ELOG = 6.5e-5


def elgam(x):
    return 1.2e-5 * (1 + abs(math.lgamma(x))) + 4e-7 * x * (abs(math.log(x)) + 1 / x)


def py_add(m, size, nonempty, n, empty):
    return math.log((m["alpha"] + m["d"] * nonempty) / ((n + m["alpha"]) * empty)) if size == 0 else math.log((size - m["d"]) / (n + m["alpha"]))


def py_counts(m, counts):
    """(log probability, allowed error) of a partition with these group sizes"""
    s = n = k = 0
    tol = 1e-5
    for c in counts:
        if c:
            s += math.log(m["alpha"] + m["d"] * k) + math.lgamma(c - m["d"]) - math.lgamma(1 - m["d"])
            tol += 3 * ELOG + (elgam(c - m["d"]) + elgam(1 - m["d"]) + elgam(m["alpha"] + n + c) + elgam(m["alpha"] + n) if c > 2 else 0)
            n += c
            k += 1
    return s - math.lgamma(m["alpha"] + n) + math.lgamma(m["alpha"]), tol


def le_add(N, size, n, empty):
    if size == 0:
        s = -math.log(empty)
        if n + 1 < N:
            k = n + 1.0
            s += math.log(N / k) * (0.45 - 0.1 / k - 0.1 / N)
        return s
    return size * math.log((size + 1.0) / size) + math.log(size + 1.0)


def le_tol(size):
    return 2e-4 if size == 0 or size > 10000 else 8e-5 * (1 + size)


_logz = [0.0]


def log_z(n):
    """log of the sum over the set partitions of n items of the product of size ** size"""
    while len(_logz) <= n:
        m = len(_logz)
        t = [math.lgamma(m) - math.lgamma(k) - math.lgamma(m - k + 1) + k * math.log(k) + _logz[m - k] for k in range(1, m + 1)]
        top = max(t)
        _logz.append(top + math.log(sum(math.exp(x - top) for x in t)))
    return _logz[n]


def le_weight(counts):
    return sum(c * math.log(c) for c in counts if c > 1)


def le_counts(N, counts):
    """(log score, allowed error of a double flavor)"""
    n, k = sum(counts), sum(1 for c in counts if c)
    s = le_weight(counts) - log_z(n)
    tol = 1e-7 + (3e-4 * log_z(n) if n >= 48 else 2e-8 * log_z(n))
    if n != N:
        s += math.log(N / float(n)) * (0.45 - 0.1 / n - 0.1 / N) * (k - 1)
        a, b = math.log(n), math.log(N)
        s += 0.061 * a * (a - b) * (a + b) ** 0.75
    return s, tol


g_py = st.fixed_dictionaries(dict(alpha=pm.logfloat(0.01, 500), d=st.one_of(st.just(0.0), pm.linfloat(0, 0.96, 48))))
g_counts = st.lists(st.one_of(st.integers(0, 3), st.integers(0, 12), st.integers(0, 60)), min_size=1, max_size=10)


# ---------------------------------------------------------------- C09, C10, C18: scores

@prop("C09", "py_scores", st.fixed_dictionaries(dict(m=g_py, counts=g_counts, empty=st.integers(1, 6), order=st.integers(0, 1000))), 6000, 250000, "at least two nonempty groups")
def c09_scores(case, info):
    m, counts = case["m"], case["counts"]
    py = LpPY.from_dict(m)
    n, k = sum(counts), sum(1 for c in counts if c)
    info.nontrivial = k >= 2
    want, tol = py_counts(m, counts)
    close(py.score_counts(counts), want, tol, "score_counts of %r with %r" % (counts, m))
    other = [counts[i] for i in np.random.RandomState(case["order"]).permutation(len(counts))]
    close(py.score_counts(other), want, max(tol, py_counts(m, other)[1]), "score_counts of %r with %r" % (other, m))
    for e in (1, case["empty"]):
        for c in sorted(set(counts) | {0}):
            s = py.score_add_value(c, k, n, e) if e != 1 else py.score_add_value(c, k, n)
            close(s, py_add(m, c, k, n, e), 2 * ELOG, "score_add_value(%d, %d, %d, %d) with %r" % (c, k, n, e, m))
            back = py.score_remove_value(c + 1, k + (c == 0), n + 1, e) if e != 1 else py.score_remove_value(c + 1, k + (c == 0), n + 1)
            close(back, -s, 1e-6 * (1 + abs(s)), "score_remove_value is not the reverse of adding to a group of %d" % c)
    # the probabilities of everywhere the next item can go
    tot = sum(math.exp(py.score_add_value(c, k, n)) for c in counts if c) + math.exp(py.score_add_value(0, k, n))
    close(tot, 1, 3e-4, "the probabilities of all choices of the next item with %r and %r" % (counts, m))
    # adding one item changes score_counts by its score
    for i, c in enumerate(counts):
        more = list(counts)
        more[i] += 1
        close(py.score_counts(more) - py.score_counts(counts), py.score_add_value(c, k, n), tol + py_counts(m, more)[1] + 2 * ELOG, "adding an item to group %d of %r with %r" % (i, counts, m))


def le_flavors():
    return [("dbg", DbgLE), ("lp", LpLE)]


g_le = st.fixed_dictionaries(dict(counts=st.one_of(g_counts, st.lists(st.integers(1, 6), min_size=1, max_size=6)), more=st.one_of(st.just(0), st.integers(0, 30), st.integers(0, 2000)), empty=st.integers(1, 5), order=st.integers(0, 1000)))


def le_check(case, info, pid):
    counts, empty = case["counts"], case["empty"]
    n, k = sum(counts), sum(1 for c in counts if c)
    assume(n > 0)
    N = n + case["more"]
    info.nontrivial = k >= 2
    info.label("complete" if N == n else "partial")
    got = {}
    for f, LE in le_flavors():
        le = LE(dataset_size=N)
        want, tol = le_counts(N, counts)
        if f == "lp":
            tol += 8e-5 * (n + 4) + 1e-5 * (1 + log_z(n)) + 3e-5 * abs(math.log(N)) ** 2 + 1e-4 * k
        s = le.score_counts(list(counts))
        close(s, want, tol, "%s score_counts of %r with dataset_size %d" % (f, counts, N))
        other = [counts[i] for i in np.random.RandomState(case["order"]).permutation(len(counts))]
        close(le.score_counts(other), s, 1e-9 + (2e-6 * (10 + abs(s) + le_weight(counts) + log_z(n)) * (1 + k) if f == "lp" else 1e-10 * (abs(s) + le_weight(counts))), "%s score_counts depends on the order of %r" % (f, counts))
        close(le.score_counts([c for c in counts if c]), s, 1e-9 + (2e-6 * (10 + abs(s) + le_weight(counts)) if f == "lp" else 1e-10 * le_weight(counts)), "%s score_counts depends on the empty groups of %r" % (f, counts))
        got[f] = [(s, le_counts(N, counts)[1] + tol)]
        le2 = LE(dataset_size=N + 1)
        for e in (1, empty):
            for c in sorted(set(counts) | {0, 10000 if n > 500 else 0}):
                t = le_tol(c) if f == "lp" else 1e-10 * (1 + c) + (1e-4 if c > 10000 else 0)
                a = le2.score_add_value(c, k, n, e) if e != 1 else le2.score_add_value(c, k, n)
                close(a, le_add(N + 1, c, n, e), t, "%s score_add_value(%d, %d, %d, %d) with dataset_size %d" % (f, c, k, n, e, N + 1))
                back = le2.score_remove_value(c + 1, k + (c == 0), n + 1, e) if e != 1 else le2.score_remove_value(c + 1, k + (c == 0), n + 1)
                close(back, -a, 1e-6 * (1 + abs(a)), "%s score_remove_value is not the reverse of adding to a group of %d" % (f, c))
                got[f].append((a, t))
        # while all items are there, adding an item to a group changes the weight by its score
        if N == n and n < 47 and f == "dbg":
            z = le.log_partition_function(n)
            close(z, log_z(n), 2e-8 * (1 + z), "dbg log_partition_function(%d)" % n)
    for (x, tx), (y, ty) in zip(got["dbg"], got["lp"]):
        close(x, y, tx + ty, "dbg and lp LowEntropy scores with %r" % (case,))


@prop("C10", "py_scores", g_le, 5000, 200000, "at least two nonempty groups")
def c10_scores(case, info):
    le_check(case, info, "C10")


@prop("C18", "py_low_entropy", g_le, 4000, 150000, "at least two nonempty groups")
def c18_low_entropy(case, info):
    le_check(case, info, "C18")


def partitions(n, top=None):
    top = n if top is None else top
    if n == 0:
        yield []
        return
    for k in range(min(n, top), 0, -1):
        for rest in partitions(n - k, k):
            yield [k] + rest


def multiplicity(shape):
    m = math.lgamma(sum(shape) + 1)
    for k in shape:
        m -= math.lgamma(k + 1)
    for k in set(shape):
        m -= math.lgamma(shape.count(k) + 1)
    return m


@prop("C10", "py_all_partitions", st.fixed_dictionaries(dict(n=st.integers(1, 18))), 60, 400, "at least four items")
def c10_all(case, info):
    n = case["n"]
    info.nontrivial = n >= 4
    for f, LE in le_flavors():
        le = LE(dataset_size=n)
        close(sum(math.exp(multiplicity(s) + le.score_counts(s)) for s in partitions(n)), 1, 1e-6 if f == "dbg" else 2e-4 * n, "%s: the probabilities of all partitions of %d items" % (f, n))


@prop("C09", "py_all_partitions", st.fixed_dictionaries(dict(n=st.integers(1, 12), m=g_py)), 200, 8000, "at least four items")
def c09_all(case, info):
    n, m = case["n"], case["m"]
    info.nontrivial = n >= 4
    py = LpPY.from_dict(m)
    tol = max(py_counts(m, s)[1] for s in partitions(n))
    close(sum(math.exp(multiplicity(s) + py.score_counts(s)) for s in partitions(n)), 1, 2 * tol, "the probabilities of all partitions of %d items with %r" % (n, m))


# ---------------------------------------------------------------- C11: samples

def seat(model, m, counts, n):
    if model == "py":
        p = [math.exp(py_add(m, c, len(counts), n, 1)) for c in counts] + [math.exp(py_add(m, 0, len(counts), n, 1))]
    else:
        p = [math.exp(le_add(m, c, n, 1)) for c in counts] + [math.exp(le_add(m, 0, n, 1))]
    t = sum(p)
    return [x / t for x in p]


g_sample = st.fixed_dictionaries(dict(which=st.sampled_from(["py", "le dbg", "le lp"]), m=g_py, n=st.integers(0, 9), more=st.one_of(st.just(0), st.integers(0, 100)), seed=st.integers(1, 1 << 20)))


def valid(check, a, n, what):
    check(len(a) == n, "%s: %d assignments, not %d" % (what, len(a), n))
    top = 0
    for g in a:
        check(0 <= g <= top, "%s: group ids of %r are not in order of first use", what, a)
        top = max(top, g + 1)


@prop("C11", "py_samples", g_sample, 250, 10000, "at least three items")
def c11_samples(case, info):
    n = case["n"]
    info.label(case["which"])
    info.nontrivial = n >= 3
    if case["which"] == "py":
        model, kind, m = LpPY.from_dict(case["m"]), "py", case["m"]
    else:
        kind, m = "le", max(1, n) + case["more"]
        model = (DbgLE if "dbg" in case["which"] else LpLE)(dataset_size=m)
    k = min(n, 4)
    for attempt, (draws, level) in enumerate([(400, 1e-3), (1500, 1e-4), (3000, 1e-6)]):
        reset_rng(case["seed"] + attempt)
        seen, last = {}, [[] for _ in range(n)]
        us, var = np.zeros(n), np.zeros(n)
        for _ in range(draws):
            a = model.sample_assignments(n)
            valid(check, a, n, case["which"])
            seen[tuple(a[:k])] = seen.get(tuple(a[:k]), 0) + 1
            counts = []
            for i, g in enumerate(a):  # a martingale: did item i open a group, less its probability
                p = seat(kind, m, counts, i)[-1] if i else 1.0
                us[i] += (g == len(counts)) - p
                var[i] += p * (1 - p)
                if g == len(counts):
                    counts.append(1)
                else:
                    counts[g] += 1
        ps = [1.0]
        for i in range(n):
            if var[i] > 8:
                ps.append(2 * pm.sps.norm.sf(abs(us[i]) / math.sqrt(var[i])))
        obs, exp = [], []

        def walk(a, counts, p):
            if len(a) == k:
                obs.append(seen.pop(tuple(a), 0))
                exp.append(p * draws)
                return
            for g, q in enumerate(seat(kind, m, counts, len(a)) if a else [1.0]):
                c = list(counts)
                if g == len(c):
                    c.append(1)
                else:
                    c[g] += 1
                walk(a + [g], c, p * q)
        walk([], [], 1.0)
        check(not seen, "impossible assignments %r", seen)
        ps.append(chi2(obs, exp))
        if min(ps) > level:
            return
    check(False, "%s: the partitions of %d items do not follow the prior: p = %g three times over", case["which"], n, min(ps))


def chi2(obs, exp):
    pairs = sorted(zip(exp, obs))
    o, e, accum = [], [], [0.0, 0.0]
    for x, y in pairs:
        accum[0] += x
        accum[1] += y
        if accum[0] >= 5:
            e.append(accum[0])
            o.append(accum[1])
            accum = [0.0, 0.0]
    if e:
        e[-1] += accum[0]
        o[-1] += accum[1]
    if len(e) < 2:
        return 1.0
    return pm.sps.chi2.sf(sum((a - b) ** 2 / b for a, b in zip(o, e)), len(e) - 1)


@prop("C11", "py_count_assignments", st.fixed_dictionaries(dict(a=st.lists(st.integers(0, 6), max_size=30), key=st.integers(1, 50))), 1500, 60000, "at least two groups")
def c11_count(case, info):
    ids = {}
    a = [ids.setdefault(g, len(ids)) for g in case["a"]]
    info.nontrivial = len(ids) >= 2
    want = [a.count(g) for g in range(len(ids))]
    got = lpc.count_assignments({i * case["key"] - 7: g for i, g in enumerate(a)})
    check(got == want, "count_assignments of %r gave %r", a, got)


# ---------------------------------------------------------------- C07: packed mixtures

@st.composite
def g_packed(draw):
    ops = [[draw(st.sampled_from("aaaadddi")), draw(st.integers(0, 9))] for _ in range(draw(st.integers(0, 40)))]
    return dict(which=draw(st.sampled_from(["py", "le"])), m=draw(g_py), counts=draw(st.lists(st.integers(0, 4), max_size=6)), empties=draw(st.integers(1, 3)), ops=ops, stride=draw(st.integers(1, 3)))


@prop("C07", "py_packed", g_packed(), 2500, 100000, "a group came into use or was removed")
def c07_packed(case, info):
    m = case["m"]
    counts = list(case["counts"]) + [0] * case["empties"]
    total = 400
    model = LpPY.from_dict(m) if case["which"] == "py" else LpLE(dataset_size=total)
    mix = model.Mixture()
    mix.init(model, list(counts))
    info.label(case["which"])

    def verify():
        check(len(mix) == len(counts), "%d groups, should be %d", len(mix), len(counts))
        empties = sorted(mix.empty_groupids)
        check(empties == [i for i, c in enumerate(counts) if c == 0], "empty groups %r of %r", empties, counts)
        n, e = sum(counts), len(empties)
        out = np.full(len(counts) * case["stride"], 99.0, dtype=np.float32)[::case["stride"]]
        mix.score_value(model, out)
        check(len(out) == len(counts), "score_value gave %d scores for %d groups", len(out), len(counts))
        for i, c in enumerate(counts):
            if case["which"] == "py":
                close(float(out[i]), py_add(m, c, len(counts) - e, n, e), 3 * ELOG + 1e-6 * 10, "score of group %d of %r with %r" % (i, counts, m))
            else:
                close(float(out[i]), le_add(total, c, n, e), le_tol(c), "score of group %d of %r" % (i, counts))

    verify()
    for op, i in case["ops"]:
        i %= len(counts)
        if op == "a":
            opened = counts[i] == 0
            counts[i] += 1
            check(bool(mix.add_value(model, i)) == opened, "add_value to group %d of %r: wrong answer about adding a group", i, counts)
            if opened:
                counts.append(0)
                info.nontrivial = True
        elif op == "d" and counts[i]:
            counts[i] -= 1
            gone = counts[i] == 0
            check(bool(mix.remove_value(model, i)) == gone, "remove_value from group %d of %r: wrong answer about removing a group", i, counts)
            if gone:
                info.nontrivial = True
                counts[i] = counts[-1]
                counts.pop()
        elif op == "i":
            mix.init(model, list(counts))
        else:
            continue
        verify()


# ---------------------------------------------------------------- C08: ids

@prop("C08", "py_tracker", st.fixed_dictionaries(dict(start=st.integers(0, 6), ops=st.lists(st.tuples(st.sampled_from("aaddi"), st.integers(0, 9)), max_size=40))), 2500, 100000, "a group other than the last was removed")
def c08_tracker(case, info):
    from distributions.lp.mixture import MixtureIdTracker
    t = MixtureIdTracker()
    t.init(case["start"])
    ids, new = list(range(case["start"])), case["start"]
    for op, i in case["ops"]:
        if op == "a":
            t.add_group()
            ids.append(new)
            new += 1
        elif op == "d" and ids:
            i %= len(ids)
            info.nontrivial = info.nontrivial or i + 1 < len(ids)
            t.remove_group(i)
            ids[i] = ids[-1]
            ids.pop()
        elif op == "i":
            if i == 0:
                t.init()
            else:
                t.init(i)
            ids, new = list(range(i)), i
        for packed, glob in enumerate(ids):
            check(t.packed_to_global(packed) == glob, "packed_to_global(%d) is %r, should be %d", packed, t.packed_to_global(packed), glob)
            check(t.global_to_packed(glob) == packed, "global_to_packed(%d) is %r, should be %d", glob, t.global_to_packed(glob), packed)


# ---------------------------------------------------------------- C17, C23

@prop("C17", "py_clustering", st.fixed_dictionaries(dict(m=g_py, N=st.integers(0, 1 << 20), counts=g_counts)), 1200, 50000, "a discount or a data set size")
def c17_clustering(case, info):
    from distributions.io import schema_pb2
    info.nontrivial = case["m"]["d"] > 0 or case["N"] > 0
    raws = [(LpPY, schema_pb2.Clustering.PitmanYor, case["m"]), (LpLE, schema_pb2.Clustering.LowEntropy, {"dataset_size": case["N"]}), (DbgLE, schema_pb2.Clustering.LowEntropy, {"dataset_size": case["N"]})]
    for cls, Message, raw in raws:
        a = cls.from_dict(raw)
        check(a.dump() == raw, "%s: dump %r after load of %r", cls.__name__, a.dump(), raw)
        if "dataset_size" in raw:
            check(a.dataset_size == raw["dataset_size"], "dataset_size")
        else:
            check(a.alpha == raw["alpha"] and a.d == raw["d"], "alpha and d")
        msg = Message()
        a.protobuf_dump(msg)
        a.protobuf_dump(msg)
        copy = Message()
        copy.ParseFromString(msg.SerializeToString())
        b = cls.from_dict({"dataset_size": 3} if "dataset_size" in raw else {"alpha": 2.0, "d": 0.5})
        b.protobuf_load(copy)
        check(b.dump() == raw, "%s: %r came back from a message as %r", cls.__name__, raw, b.dump())
        check(cls.from_protobuf(copy) == raw, "%s.from_protobuf", cls.__name__)
        other, old, c = Message(), Message(), cls.from_dict(b.dump())
        cls.to_protobuf(raw, other)
        check(other == msg, "%s.to_protobuf wrote %r, protobuf_dump %r", cls.__name__, other, msg)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a.dump_protobuf(old)
            c.load_protobuf(old)
        check(old == msg and c.dump() == raw, "%s: dump_protobuf and load_protobuf gave %r and %r", cls.__name__, old, c.dump())
        if cls is LpPY:
            check(cls(**raw).dump() == raw, "%s(**raw)", cls.__name__)
            check(b.score_counts(case["counts"]) == a.score_counts(case["counts"]), "scores after the round trip")
        elif case["N"] >= sum(case["counts"]) > 0:
            check(b.score_counts(case["counts"]) == a.score_counts(case["counts"]), "scores after the round trip")


@prop("C23", "py_clustering", g_packed(), 600, 25000, "at least two groups")
def c23_clustering(case, info):
    counts = list(case["counts"]) + [0] * case["empties"]
    info.nontrivial = len(counts) >= 2
    for model in ([LpPY.from_dict(case["m"])] if case["which"] == "py" else [LpLE(dataset_size=400), DbgLE(dataset_size=400)]):
        n, k = sum(counts), sum(1 for c in counts if c)
        if n == 0:
            continue

        def ask():
            return [model.score_counts(list(counts)), model.score_add_value(max(counts), k, n), model.score_remove_value(max(counts), k, n), model.score_add_value(0, k, n)]
        one, raw = ask(), model.dump()
        model.sample_assignments(20)
        check(ask() == one and model.dump() == raw, "asking %r for scores or samples changed its scores", raw)
        if hasattr(model, "Mixture"):
            mix = model.Mixture()
            mix.init(model, list(counts))
            a, b = np.zeros(len(counts), dtype=np.float32), np.ones(len(counts), dtype=np.float32)
            mix.score_value(model, a)
            ask()
            mix.score_value(model, b)
            check(a.tobytes() == b.tobytes(), "score_value twice: %r and %r", a, b)
