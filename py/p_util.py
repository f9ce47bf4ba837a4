"""C22: the score and goodness-of-fit utilities."""

import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats as sps

import pm
from pbt import prop, check, close
from distributions import util


def quiet(fn, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kwargs)


# ---------------------------------------------------------------- scores

number = st.one_of(st.floats(-50, 50), st.integers(-40, 40), st.floats(-1e4, 1e4), st.just(0))
score_case = st.fixed_dictionaries(dict(
    scores=st.lists(number, min_size=1, max_size=30), shift=st.one_of(st.integers(-2000, 2000), st.floats(-1e4, 1e4)),
    neginf=st.integers(0, 3), form=st.sampled_from(["list", "tuple", "array", "int array"]), perm=st.integers(0, 10**6)))


@prop("C22", "py_scores_to_probs", score_case, 4000, 200000, "at least two different finite scores")
def scores_to_probs(case, info):
    s = list(case["scores"])
    if case["form"] == "int array":
        s = [int(x) for x in s]
    elif case["neginf"] and len(s) > 1:
        info.label("-inf")
        s[case["neginf"] % len(s)] = -math.inf
        if all(x == -math.inf for x in s):
            s[0] = 0.0
    info.nontrivial = len(set(x for x in s if x > -math.inf)) > 1
    info.label(case["form"])
    make = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=float), "int array": lambda x: np.array(x, dtype=int)}[case["form"]]
    arg = make(s)
    before = list(arg)
    probs = util.scores_to_probs(arg)
    check(list(arg) == before, "scores_to_probs changed its argument: %r to %r", before, list(arg))
    check(len(probs) == len(s), "%d scores gave %d probabilities", len(s), len(probs))
    top = max(s)
    w = [math.exp(x - top) for x in s]
    total = math.fsum(w)
    for i, p in enumerate(probs):
        close(p, w[i] / total, 1e-12 + 1e-11 * w[i] / total, "probability %d of scores %r" % (i, s))
    close(math.fsum(probs), 1, 1e-12 * len(s), "the probabilities' sum")
    if case["form"] != "int array":
        shifted = util.scores_to_probs(make([x + case["shift"] for x in s]))
        for i, (p, q) in enumerate(zip(probs, shifted)):
            close(p, q, 1e-10, "probability %d after a shift by %r" % (i, case["shift"]))
    perm = np.random.RandomState(case["perm"]).permutation(len(s))
    permuted = util.scores_to_probs(make([s[i] for i in perm]))
    for j, i in enumerate(perm):
        close(permuted[j], probs[i], 1e-12, "probability of score %r after permuting" % s[i])


@prop("C22", "py_empirical_kl", st.fixed_dictionaries(dict(p=st.lists(st.floats(0.01, 1), min_size=1, max_size=20), scale=st.integers(1, 30))), 1500, 50000, "model differs from uniform")
def empirical_kl(case, info):
    p = np.array(case["p"]) / sum(case["p"])
    info.nontrivial = len(set(case["p"])) > 1
    n = len(p)
    # KL(uniform over the n data points || p), each data point scored by the model
    direct = math.fsum((1.0 / n) * (math.log(1.0 / n) - math.log(x)) for x in p)
    score = math.fsum(math.log(x) for x in p)
    kl = util.score_to_empirical_kl(score, n)
    close(kl, direct, 1e-10 * (1 + abs(direct)), "score_to_empirical_kl")
    check(kl >= -1e-12, "KL divergence %r is negative", kl)
    k = case["scale"]
    close(util.score_to_empirical_kl(k * score, k * n), -score / n - math.log(k * n), 1e-10 * (1 + abs(score)), "score_to_empirical_kl of %d copies" % k)


# ---------------------------------------------------------------- Pearson's test

@st.composite
def multinomial_case(draw):
    k = draw(st.integers(2, 25))
    return dict(weights=draw(st.lists(st.floats(0.05, 1), min_size=k, max_size=k)), n=draw(st.integers(30, 3000)), seed=draw(st.integers(0, 10**6)),
                zeros=draw(st.integers(0, 2)), hit=draw(st.booleans()), truncate=draw(st.integers(0, 4)), noise=draw(st.sampled_from([0, 0, 0.2, 1, 3])))


@prop("C22", "py_multinomial", multinomial_case(), 3000, 150000, "the counts differ from their means")
def multinomial(case, info):
    w = np.array(case["weights"])
    p = w / w.sum()
    n = max(case["n"], int(math.ceil(1.5 / min(p * (1 - p)))))
    rs = np.random.RandomState(case["seed"])
    q = p * np.exp(case["noise"] * rs.randn(len(p)))
    counts = rs.multinomial(n, q / q.sum())
    probs, counts = list(p), [int(c) for c in counts]
    truncated = 0 < case["truncate"] < len(probs)
    if truncated:
        info.label("truncated")
        probs, counts = probs[:-case["truncate"]], counts[:-case["truncate"]]
    used = list(zip(probs, counts))
    chi2 = math.fsum((c - n * x) ** 2 / (n * x) for x, c in used)
    dof = len(used) - (0 if truncated else 1)
    expected = sps.chi2.sf(chi2, dof)
    for z in range(case["zeros"]):
        i = (case["seed"] + z) % (len(probs) + 1)
        c = 0
        if case["hit"] and z == 0:
            info.label("impossible outcome")
            c, expected = 1, 0.0
            if not truncated:
                j = max(range(len(counts)), key=lambda j: counts[j])
                counts[j] -= 1  # keeps the total
        probs.insert(i, 0.0)
        counts.insert(i, c)
    info.nontrivial = chi2 > 0
    pb, cb = list(probs), list(counts)
    got = quiet(util.multinomial_goodness_of_fit, probs, counts, n, truncated=truncated)
    check(probs == pb and counts == cb, "the arguments were changed")
    check(0 <= got <= 1, "p-value %r", got)
    close(got, expected, 1e-9 + 1e-7 * expected, "p-value of counts %r at probabilities %r" % (counts[:8], probs[:8]))
    perm = rs.permutation(len(probs))
    close(quiet(util.multinomial_goodness_of_fit, [probs[i] for i in perm], [counts[i] for i in perm], n, truncated=truncated), expected, 1e-9 + 1e-7 * expected, "p-value after permuting")
    if case["seed"] % 3 == 0 and any(counts):
        check(quiet(util.multinomial_goodness_of_fit, probs, counts, n, truncated=truncated, plot=True) == got, "plotting changes the p-value")


@prop("C22", "py_certain", st.fixed_dictionaries(dict(n=st.integers(2, 500), off=st.integers(0, 3), zeros=st.integers(0, 4), at=st.integers(0, 4))), 500, 10000, "always")
def certain(case, info):
    """an outcome of probability 1"""
    info.nontrivial = True
    n, z = case["n"], case["zeros"]
    off = case["off"] if z else 0
    off = min(off, n)
    probs, counts = [0.0] * z, [0] * z
    at = min(case["at"], z)
    probs.insert(at, 1.0)
    counts.insert(at, n - off)
    if off:
        counts[(at + 1) % len(counts)] += off
        info.label("other outcomes seen")
    check(quiet(util.multinomial_goodness_of_fit, probs, counts, n) == (0 if off else 1), "p-value of %r at %r", counts, probs)


# ---------------------------------------------------------------- discrete data

@st.composite
def discrete_case(draw):
    k = draw(st.integers(2, 24))
    return dict(weights=draw(st.lists(st.floats(0.02, 1), min_size=k, max_size=k)), n=draw(st.integers(101, 4000)), seed=draw(st.integers(0, 10**6)),
                keys=draw(st.sampled_from(["int", "str", "bool-ish", "negative"])), trunc=draw(st.sampled_from([None, 0, 1, 2, 3, 5, 8, 8, 12, 30, "default", "default"])),
                wrong=draw(st.booleans()), tight=draw(st.booleans()))


@prop("C22", "py_discrete", discrete_case(), 2500, 100000, "more than two outcomes")
def discrete(case, info):
    """against Pearson's test of the most probable outcomes, and calibration and power"""
    w = np.array(case["weights"])
    p = w / w.sum()
    k = len(p)
    info.nontrivial = k > 2
    n = max(case["n"], int(math.ceil(8 / min(p * (1 - p)))))
    if case["tight"]:
        n = max(101, int(math.ceil(1.2 / min(p * (1 - p)))))  # some outcomes are never seen
    keys = {"int": list(range(k)), "negative": [-3 * i for i in range(k)], "str": ["k%d" % i for i in range(k)], "bool-ish": [(i, i % 2 == 0) for i in range(k)]}[case["keys"]]
    rs = np.random.RandomState(case["seed"])
    kwargs = {} if case["trunc"] == "default" else dict(truncate_beyond=case["trunc"])
    keep = 8 if case["trunc"] == "default" else case["trunc"]
    truncated = bool(keep) and keep < k
    if truncated:
        info.label("truncated")
    order = sorted(range(k), key=lambda i: -p[i])[:keep if truncated else k]
    ties = len(set(p)) < k

    def gof(q):
        counts = rs.multinomial(n, q)
        if any(counts == 0):
            info.label("unseen outcome")
        samples = [keys[i] for i in range(k) for _ in range(counts[i])]
        rs.shuffle(order_ := list(range(n)))
        samples = [samples[i] for i in order_]
        pd = {keys[i]: p[i] for i in rs.permutation(k)}
        got = quiet(util.discrete_goodness_of_fit, samples, pd, **kwargs)
        check(0 <= got <= 1, "p-value %r", got)
        if not (ties and truncated):
            chi2 = math.fsum((counts[i] - n * p[i]) ** 2 / (n * p[i]) for i in order)
            expected = sps.chi2.sf(chi2, len(order) - (0 if truncated else 1))
            close(got, expected, 1e-9 + 1e-7 * expected, "p-value of %d samples over %d outcomes" % (n, k))
        return got
    if case["tight"]:
        gof(p)
    elif not case["wrong"]:
        info.label("right model")
        check(any(gof(p) > 1e-4 for _ in range(4)), "samples of the claimed distribution are rejected (probabilities %r, n=%d)", list(p), n)
    else:
        q = np.roll(p, 1)
        # expected statistic of the wrong model over the outcomes looked at
        power = n * math.fsum((q[i] - p[i]) ** 2 / p[i] for i in order)
        if power > 10 * (len(order) + 10) and not (ties and truncated):
            info.label("wrong model")
            check(any(gof(q) < 1e-3 for _ in range(4)), "samples of another distribution are accepted (%r claimed, %r drawn, n=%d)", list(p), list(q), n)
        else:
            gof(q)


# ---------------------------------------------------------------- densities

@prop("C22", "py_unif01", st.fixed_dictionaries(dict(n=st.one_of(st.integers(300, 3000), st.integers(300, 30000)), seed=st.integers(0, 10**6), ends=st.integers(0, 3),
                                                    kind=st.sampled_from(["uniform", "uniform", "beta", "grid", "list"]))), 700, 20000, "always")
def unif01(case, info):
    n = case["n"]
    rs = np.random.RandomState(case["seed"])
    info.nontrivial = True
    info.label(case["kind"])

    def draw():
        x = rs.beta(2, 1.4, size=n) if case["kind"] == "beta" else np.arange(n) / float(n - 1) if case["kind"] == "grid" else rs.rand(n)
        if case["ends"] & 1:
            x[0] = 0.0
        if case["ends"] & 2:
            x[-1] = 1.0
        return x
    ps = []
    for _ in range(4):
        x = draw()
        arg = list(x) if case["kind"] == "list" else x.copy()
        got = quiet(util.unif01_goodness_of_fit, arg)
        check(0 <= got <= 1, "p-value %r", got)
        check(np.array_equal(np.array(arg), x), "the samples were changed")
        y = x[rs.permutation(n)]
        check(quiet(util.unif01_goodness_of_fit, y) == got, "the p-value depends on the order of the samples")
        bins = int(round(n ** 0.333))
        counts = np.bincount(np.minimum((x * bins).astype(int), bins - 1), minlength=bins)
        chi2 = float(((counts - n / float(bins)) ** 2).sum() / (n / float(bins)))
        expected = sps.chi2.sf(chi2, bins - 1)
        close(got, expected, 1e-9 + 1e-6 * expected, "p-value of %d samples in %d bins" % (n, bins))
        ps.append(got)
        if case["kind"] == "grid" or (got > 1e-4) == (case["kind"] != "beta"):
            break
    if case["kind"] == "beta":
        check(min(ps) < 1e-3, "beta(2, 1.4) samples pass for uniform ones: p = %r", ps)
    elif case["kind"] == "grid":
        check(ps[0] > 0.999 or n < 400, "an even grid is rejected: p = %r", ps)
    else:
        check(max(ps) > 1e-4, "uniform samples are rejected: p = %r", ps)


DENSITIES = {
    "normal": lambda a: sps.norm(0, 1),
    "exponential": lambda a: sps.expon(),
    "uniform": lambda a: sps.uniform(),
    "gamma": lambda a: sps.gamma(a),
    "logistic": lambda a: sps.logistic(),
    "t": lambda a: sps.t(a + 1),
    "beta": lambda a: sps.beta(a, 2),
}


@prop("C22", "py_density", st.fixed_dictionaries(dict(kind=st.sampled_from(sorted(DENSITIES)), a=st.floats(1, 20), n=st.integers(400, 6000), seed=st.integers(0, 10**6),
                                                     scale=st.integers(-20, 20), wrong=st.sampled_from([None, None, "half", "double", "shuffled", "wide"]))), 900, 30000, "always")
def density(case, info):
    """a continuous sample against its density: calibrated, powerful, and equivariant"""
    info.nontrivial = True
    info.label(case["kind"])
    info.label(case["wrong"] or "right model")
    d = DENSITIES[case["kind"]](case["a"])
    n = case["n"]
    rs = np.random.RandomState(case["seed"])
    scale = 2.0 ** case["scale"]
    ps = []
    for _ in range(4):
        x = d.rvs(size=n, random_state=rs)
        p = d.pdf(x)
        if case["wrong"] == "half":
            p = p / 2
        elif case["wrong"] == "double":
            p = p * 2
        elif case["wrong"] == "shuffled":
            p = p[rs.permutation(n)]
        elif case["wrong"] == "wide":
            p = d.pdf(x / 2) / 2
        xb, pb = list(x), list(p)
        got = quiet(util.density_goodness_of_fit, xb, pb)
        check(0 <= got <= 1, "p-value %r", got)
        check(xb == list(x) and pb == list(p), "the arguments were changed")
        perm = rs.permutation(n)
        check(quiet(util.density_goodness_of_fit, [xb[i] for i in perm], [pb[i] for i in perm]) == got, "the p-value depends on the order of the samples")
        close(quiet(util.density_goodness_of_fit, [v * scale for v in xb], [v / scale for v in pb]), got, 1e-9, "p-value after rescaling by %r" % scale)
        close(quiet(util.density_goodness_of_fit, [-v for v in xb], pb), got, 1e-9, "p-value of the mirrored samples")
        ps.append(got)
        if (got > 1e-4) == (case["wrong"] is None):
            break
    if case["wrong"] is None:
        check(max(ps) > 1e-4, "samples of the claimed density are rejected: %s n=%d p=%r", case["kind"], n, ps)
    elif case["wrong"] in ("half", "double") or n > 2500 and (case["wrong"] == "wide" or case["kind"] in ("normal", "exponential", "logistic", "t")):
        info.label("must be rejected")
        check(min(ps) < 1e-3, "samples of another density are accepted: %s %s n=%d p=%r", case["kind"], case["wrong"], n, ps)


# ---------------------------------------------------------------- bins

@st.composite
def bin_case(draw):
    k = draw(st.integers(1, 20))
    n = draw(st.one_of(st.integers(k, 3 * k), st.integers(k, 300)))
    kind = draw(st.sampled_from(["int", "float"]))
    el = st.integers(-10**6, 10**6) if kind == "int" else st.floats(-1e6, 1e6).map(lambda x: x + 0.0)
    samples = draw(st.lists(el, min_size=n, max_size=n, unique=True)) if n <= 40 else draw(st.just(None))
    return dict(k=k, n=n, samples=samples, seed=draw(st.integers(0, 10**6)), support=draw(st.booleans()), default=draw(st.booleans()),
                pin=draw(st.sampled_from(["", "", "low", "high"])), gap=draw(st.integers(0, 1)))


@prop("C22", "py_bins", bin_case(), 3000, 150000, "samples do not divide evenly")
def bins(case, info):
    k, n = case["k"], case["n"]
    if case["default"] and n >= 10:
        k = 10
    x = case["samples"]
    if x is None:
        x = [float(v) for v in np.random.RandomState(case["seed"]).randn(n) * 1000]
    info.nontrivial = n % k != 0
    if k > 1:
        info.label("several bins")
    # a support that begins or ends at zero, and one that ends where the samples do
    shift = min(x) - case["gap"] if case["pin"] == "low" else max(x) + case["gap"] if case["pin"] == "high" else 0
    if len(set(v - shift for v in x)) == n:
        x = [v - shift for v in x]
    lo, hi = min(x) - case["gap"], max(x) + case["gap"]
    args, kwargs = (list(x),), {}
    if not (case["default"] and n >= 10):
        kwargs["k"] = k
    if case["support"]:
        info.label("support")
        kwargs["support"] = [lo, hi]
    counts, ranges = util.bin_samples(*args, **kwargs)
    check(args[0] == x, "the samples were changed")
    check(kwargs.get("support", [lo, hi]) == [lo, hi], "the support was changed")
    check(len(counts) == k and np.shape(ranges) == (k, 2), "shapes %r, %r for %d bins", np.shape(counts), np.shape(ranges), k)
    check(sum(counts) == n, "counts %r of %d samples", list(counts), n)
    check(max(counts) - min(counts) <= 1, "uneven counts %r", list(counts))
    for i in range(k - 1):
        check(ranges[i][1] == ranges[i + 1][0], "gap or overlap between bins %d and %d: %r", i, i + 1, ranges.tolist()[:6])
    check(ranges[0][0] == (lo if case["support"] else min(x)), "lower end %r", ranges[0][0])
    check(ranges[-1][1] == (hi if case["support"] else max(x)), "upper end %r", ranges[-1][1])
    for i in range(k):
        a, b = ranges[i]
        inside = sum(1 for v in x if a <= v and (v < b or (i == k - 1 and v <= b)))
        check(inside == counts[i], "bin %d [%r, %r) holds %d samples, reported %d", i, a, b, inside, counts[i])


@prop("C22", "py_histogram", st.fixed_dictionaries(dict(x=st.lists(st.integers(0, 30), min_size=1, max_size=200), extra=st.one_of(st.none(), st.integers(0, 5)), form=st.sampled_from(["list", "array"]))), 2000, 60000, "two different values")
def histogram(case, info):
    x = case["x"]
    info.nontrivial = len(set(x)) > 1
    arg = list(x) if case["form"] == "list" else np.array(x)
    if case["extra"] is None:
        h = util.histogram(arg)
        size = max(x) + 1
    else:
        size = max(x) + 1 + case["extra"]
        h = util.histogram(arg, size)
        info.label("bin_count given")
    check(len(h) == size, "%d bins", len(h))
    for i in range(size):
        check(h[i] == x.count(i), "bin %d holds %d of %d", i, h[i], x.count(i))
    check(list(arg) == x, "the samples were changed")
