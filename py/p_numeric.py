"""Properties of the numeric functions and samplers exposed to Python (dbg, hp, lp)."""

import math

import numpy as np
from hypothesis import strategies as st
from hypothesis import assume
from scipy import special as sp
from scipy import stats as sps

import pm
from pbt import prop, check, close, reset_rng
import distributions.dbg.random as dbgr
import distributions.hp.random as hpr
import distributions.lp.random as lpr
import distributions.lp.special as lps
import distributions.dbg.special as dbgs


# ---------------------------------------------------------------- C12

@st.composite
def positive_float(draw):
    """a positive single-precision float by bit pattern, biased to table and segment edges"""
    e = draw(st.integers(-126, 127))
    m = draw(st.one_of(st.sampled_from([0, 1, (1 << 23) - 1, 1 << 22]), st.integers(0, (1 << 23) - 1)))
    return float(np.float32(math.ldexp(1 + m / float(1 << 23), e)))


@prop("C12", "py_special", st.fixed_dictionaries(dict(x=positive_float(), y=st.one_of(pm.logfloat(0.05, 1000), positive_float()))), 6000, 300000, "always")
def c12_special(case, info):
    x, y = case["x"], case["y"]
    info.nontrivial = True
    close(lps.fast_log(x), math.log(x), 6.5e-5 + 2e-7 * abs(math.log(x)), "fast_log(%r)" % x)
    if 1e-3 < y < 1e9:
        info.label("lgamma")
        l = math.lgamma(y)
        close(lps.fast_lgamma(y), l, 2e-5 * (1 + abs(l)), "fast_lgamma(%r)" % y)
        close(dbgs.gammaln(y), l, 1e-12 * (1 + abs(l)), "gammaln(%r)" % y)
    if 0.0625 <= y < 1e6:
        info.label("lgamma_nu")
        close(lps.fast_lgamma_nu(y), math.lgamma(y / 2 + 0.5) - math.lgamma(y / 2), 0.0155 + 1e-6 * math.log(y + 2), "fast_lgamma_nu(%r)" % y)


_stirling = [[1]]


def stirling(n):
    while len(_stirling) <= n:
        p = _stirling[-1] + [0]
        m = len(_stirling) - 1
        _stirling.append([(p[k - 1] if k else 0) + m * p[k] for k in range(m + 2)])
    return _stirling[n]


@prop("C12", "py_stirling", st.fixed_dictionaries(dict(n=st.one_of(st.integers(0, 40), st.integers(0, 120)))), 200, 3000, "n of at least 2")
def c12_stirling(case, info):
    n = case["n"]
    info.nontrivial = n >= 2
    row = lps.log_stirling1_row(n)
    want = stirling(n)
    check(len(row) == len(want), "row %d has %d entries", n, len(row))
    for k, (x, w) in enumerate(zip(row, want)):
        if w == 0:
            check(x == -math.inf or x == 0 and n == 0, "log of the Stirling number (%d, %d) is %r", n, k, x)
        else:
            close(x, math.log(w), 3e-4 + (2e-6 if n < 32 else 0.065) * math.log(w), "log of the Stirling number (%d, %d)" % (n, k))


@st.composite
def g_mvt(draw):
    d = draw(st.integers(1, 5))
    a = np.array(draw(st.lists(st.integers(-4, 4), min_size=d * d, max_size=d * d)), dtype=float).reshape(d, d) / 4
    S = (a.dot(a.T) + np.eye(d) * draw(st.sampled_from([0.5, 1.0, 4.0]))).astype(np.float32).astype(float)
    S = (S + S.T) / 2
    vec = st.lists(pm.linfloat(-3, 3, 60), min_size=d, max_size=d)
    return dict(x=draw(vec), mu=draw(vec), sigma=S.tolist(), nu=draw(pm.logfloat(0.5, 50)))


@prop("C12", "py_student_t", g_mvt(), 3000, 120000, "more than one dimension")
def c12_student_t(case, info):
    x, mu, S, nu = np.array(case["x"]), np.array(case["mu"]), np.array(case["sigma"]), case["nu"]
    d = len(x)
    info.nontrivial = d > 1
    z = x - mu
    q = float(z.dot(np.linalg.solve(S, z)))
    want = math.lgamma(0.5 * (nu + d)) - math.lgamma(0.5 * nu) - 0.5 * (d * math.log(nu * math.pi) + np.linalg.slogdet(S)[1] + (nu + d) * math.log1p(q / nu))
    close(dbgr.score_student_t(x, nu, mu, S), want, 1e-9 * (1 + abs(want)) * (1 + nu), "dbg score_student_t")
    cond = np.linalg.cond(S)
    close(lpr.score_student_t(x, nu, mu, S), want, 3e-4 * (1 + d) + 6e-5 * (nu + d) + 2e-6 * (nu + d) * cond, "lp score_student_t")
    if d == 1:
        from distributions.dbg.models.nich import score_student_t as scalar
        close(scalar(x[0], nu, mu[0], S[0, 0]), want, 1e-9 * (1 + abs(want)) * (1 + nu), "dbg scalar score_student_t")


# ---------------------------------------------------------------- C14

g_scores = st.lists(st.one_of(pm.linfloat(-8, 8, 160), pm.linfloat(-200, 200, 80), st.just(-1e30)), min_size=1, max_size=12)


def softmax(s):
    s = np.array(s, dtype=float)
    p = np.exp(s - s.max())
    return p / p.sum()


@prop("C14", "py_scores", st.fixed_dictionaries(dict(scores=g_scores, seed=st.integers(1, 1 << 30), shift=pm.linfloat(-50, 50, 100))), 5000, 200000, "at least two outcomes that are not negligible")
def c14_scores(case, info):
    scores = case["scores"]
    if max(scores) < -1e29:
        scores[0] = 0.0
    p = softmax(scores)
    info.nontrivial = (p > 1e-3).sum() >= 2
    top = max(scores)
    want = top + math.log(sum(math.exp(s - top) for s in scores))
    close(lpr.log_sum_exp(list(scores)), want, 1.5e-4 + 3e-7 * abs(top), "log_sum_exp of %r" % scores)
    for i in range(len(scores)):
        close(lpr.prob_from_scores(i, list(scores)), p[i], 3e-4 * p[i] + 2e-6 + 1e-6 * abs(top) * p[i], "prob_from_scores(%d, %r)" % (i, scores))
    for k in range(3):
        reset_rng(case["seed"] + k)
        i, prob = lpr.sample_prob_from_scores(list(scores))
        check(0 <= i < len(scores), "sample_prob_from_scores drew %r of %d", i, len(scores))
        check(p[i] > 1e-12, "sample_prob_from_scores drew %r, which has probability %g", i, p[i])
        close(prob, p[i], 1e-3 * p[i] + 1e-6, "the probability of what sample_prob_from_scores drew")
        j = dbgr.sample_discrete_log(list(scores))
        check(0 <= j < len(scores) and p[j] > 0, "sample_discrete_log drew %r", j)
        q = (p / p.max()).astype(np.float32)
        n = lpr.sample_discrete((q / q.sum()).astype(np.float32))
        check(0 <= n < len(scores) and q[n] > 0, "lp sample_discrete drew %r of %r", n, q)
        n = dbgr.sample_discrete((q * 3.0).tolist())
        check(0 <= n < len(scores) and q[n] > 0, "dbg sample_discrete drew %r of %r", n, q)


def gof(counts, p):
    pairs = sorted(zip(np.array(p) * sum(counts), counts))
    o, e, acc = [], [], [0.0, 0.0]
    for x, y in pairs:
        acc[0] += x
        acc[1] += y
        if acc[0] >= 5:
            e.append(acc[0])
            o.append(acc[1])
            acc = [0.0, 0.0]
    if e:
        e[-1] += acc[0]
        o[-1] += acc[1]
    if len(e) < 2:
        return 1.0
    return sps.chi2.sf(sum((a - b) ** 2 / b for a, b in zip(o, e)), len(e) - 1)


LADDER = [(300, 1e-3), (1200, 1e-4), (3000, 1e-6)]


def ladder(case, what, pvalue):
    """fails when three draws in a row, each larger, all look wrong"""
    for attempt, (n, level) in enumerate(LADDER):
        reset_rng(case["seed"] + 104729 * attempt)
        p = pvalue(n)
        if p > level:
            return
    check(False, "%s: p = %g three times over", what, p)


@prop("C14", "py_frequencies", st.fixed_dictionaries(dict(w=st.lists(st.one_of(st.integers(0, 3), st.integers(1, 20)), min_size=1, max_size=9), seed=st.integers(1, 1 << 30), stride=st.integers(1, 3), scale=pm.logfloat(0.01, 50))), 300, 12000, "at least two possible outcomes")
def c14_frequencies(case, info):
    w = np.array(case["w"], dtype=float)
    assume(w.sum() > 0)
    p = w / w.sum()
    k = len(w)
    info.nontrivial = (w > 0).sum() >= 2
    scores = [math.log(x) + 3.25 if x else -1e30 for x in p]
    q = np.zeros(k * case["stride"], dtype=np.float32)[::case["stride"]]
    q[:] = p
    unnorm = (p * case["scale"]).tolist()
    ways = [("lp sample_discrete", lambda: lpr.sample_discrete(q)), ("dbg sample_discrete", lambda: dbgr.sample_discrete(unnorm)),
            ("dbg sample_discrete with a total", lambda: dbgr.sample_discrete(unnorm, total=sum(unnorm))),
            ("lp sample_prob_from_scores", lambda: lpr.sample_prob_from_scores(list(scores))[0]), ("dbg sample_discrete_log", lambda: dbgr.sample_discrete_log(scores))]
    for what, f in ways:
        def pv(n):
            c = np.bincount([f() for _ in range(n)], minlength=k)
            check(len(c) == k and not c[w == 0].any(), "%s drew an impossible outcome: %r", what, c)
            return gof(c, p)
        ladder(case, "%s with %r" % (what, p.tolist()), pv)


@prop("C14", "py_urn", st.fixed_dictionaries(dict(n=st.integers(2, 7), seed=st.integers(1, 1 << 30), same=st.booleans())), 60, 2500, "more than two items")
def c14_urn(case, info):
    n = case["n"]
    urn = [object() for _ in range(n)]
    if case["same"] and n > 2:
        urn[1] = urn[0]  # the same item twice
    info.nontrivial = n > 2
    ids = {id(x): i for i, x in reversed(list(enumerate(urn)))}

    def pv(N):
        c = np.zeros((n, n))
        for _ in range(N):
            a, b = lpr.sample_pair_from_urn(urn)
            c[ids[id(a)], ids[id(b)]] += 1
        e = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if i != j:
                    e[ids[id(urn[i])], ids[id(urn[j])]] += 1.0 / n / (n - 1)
        check(not c[e == 0].any(), "sample_pair_from_urn drew one position twice")
        return gof(c.flatten(), e.flatten())
    ladder(case, "sample_pair_from_urn of %d" % n, pv)


# ---------------------------------------------------------------- C16

def ks(u):
    u = np.array(u, dtype=float)
    check(np.all(np.isfinite(u)), "a draw is not a number")
    k = 10
    c = np.bincount(np.clip((u * k).astype(int), 0, k - 1), minlength=k)
    n = len(u)
    return min(sps.kstest(u, "uniform").pvalue, sps.chi2.sf(((c - n / k) ** 2 / (n / float(k))).sum(), k - 1), lag(u))


def lag(u):
    """successive draws are independent"""
    n = len(u)
    if n < 100:
        return 1.0
    c = np.zeros((3, 3))
    for a, b in zip(u[:-1], u[1:]):
        c[min(int(a * 3), 2), min(int(b * 3), 2)] += 1
    e = np.outer(c.sum(1), c.sum(0)) / c.sum()
    return sps.chi2.sf(((c - e) ** 2 / np.maximum(e, 1e-9)).sum(), 4) if e.min() > 5 else 1.0



_tie = np.random.RandomState(0)

g_scalar = st.fixed_dictionaries(dict(a=pm.logfloat(0.3, 30), b=pm.logfloat(0.3, 30), mu=pm.linfloat(-5, 5, 50), big=pm.logfloat(0.1, 300), r=st.integers(1, 9), p=pm.linfloat(0.05, 0.95, 90), seed=st.integers(1, 1 << 30)))


def scalar_samplers(c):
    a, b, mu, big, r, p = c["a"], c["b"], c["mu"], c["big"], c["r"], c["p"]
    N = lambda v, var: sp.ndtr((v - mu) / math.sqrt(var))
    pois = lambda v: (sp.pdtr(v - 1, big) if v > 0 else 0.0) + _tie.random_sample() * math.exp(v * math.log(big) - big - math.lgamma(v + 1))
    nb = lambda v: (sp.betainc(r, v, p) if v > 0 else 0.0) + _tie.random_sample() * math.exp(math.lgamma(r + v) - math.lgamma(r) - math.lgamma(v + 1) + r * math.log(p) + v * math.log1p(-p))
    bern = lambda v: (1 - p) * bool(v) + _tie.random_sample() * (p if v else 1 - p)
    return [
        ("hp.sample_normal", lambda: hpr.sample_normal(mu, a), lambda v: N(v, a)),
        ("dbg.sample_normal", lambda: dbgr.sample_normal(mu, a), lambda v: N(v, a)),
        ("hp.sample_chisq", lambda: hpr.sample_chisq(a), lambda v: sp.chdtr(a, v)),
        ("dbg.sample_chi2", lambda: dbgr.sample_chi2(a), lambda v: sp.chdtr(a, v)),
        ("hp.sample_gamma", lambda: hpr.sample_gamma(a, b), lambda v: sp.gammainc(a, v / b)),
        ("dbg.sample_gamma", lambda: dbgr.sample_gamma(a, b), lambda v: sp.gammainc(a, v / b)),
        ("hp.sample_poisson", lambda: hpr.sample_poisson(big), pois),
        ("dbg.sample_poisson", lambda: dbgr.sample_poisson(big), pois),
        ("dbg.sample_beta", lambda: dbgr.sample_beta(a, b), lambda v: sp.betainc(a, b, v)),
        ("dbg.sample_negative_binomial", lambda: dbgr.sample_negative_binomial(p, r), nb),
        ("dbg.sample_bernoulli", lambda: dbgr.sample_bernoulli(p), bern),
        ("dbg.sample_dirichlet", lambda: dbgr.sample_dirichlet([a, b, 1.5])[0], lambda v: sp.betainc(a, b + 1.5, v)),
    ]


@prop("C16", "py_scalar", g_scalar, 60, 2500, "always")
def c16_scalar(case, info):
    info.nontrivial = True
    for what, draw, cdf in scalar_samplers(case):
        def pv(n):
            _tie.seed(case["seed"] % (1 << 31))
            return ks([cdf(draw()) for _ in range(n if "sample_ne" not in what else min(n, 1000))])
        ladder(case, "%s with %r" % (what, case), pv)


@st.composite
def g_matrix(draw):
    d = draw(st.integers(1, 4))
    a = np.array(draw(st.lists(st.integers(-4, 4), min_size=d * d, max_size=d * d)), dtype=float).reshape(d, d) / 4
    S = a.dot(a.T) + np.eye(d) * draw(st.sampled_from([0.5, 1.0, 4.0]))
    return dict(S=S.tolist(), nu=d + draw(st.one_of(st.integers(0, 8).map(float), pm.linfloat(0.05, 12, 60))), mu=draw(st.lists(pm.linfloat(-3, 3, 12), min_size=d, max_size=d)),
                lam=draw(pm.logfloat(0.2, 10)), dof=draw(pm.logfloat(1, 30)), seed=draw(st.integers(1, 1 << 30)))


def wishart_us(W, nu, S, vecs):
    """transforms that are uniform when W ~ Wishart(nu, S)"""
    d = len(S)
    out = []
    for a in vecs:
        out.append(sp.chdtr(nu, a.dot(W).dot(a) / a.dot(S).dot(a)))
        out.append(sp.chdtr(nu - d + 1, a.dot(np.linalg.solve(S, a)) / a.dot(np.linalg.solve(W, a))))
    return out


def min_ks(rows):
    A = np.array(rows)
    return min(ks(A[:, i]) for i in range(A.shape[1]))


@prop("C16", "py_matrix", g_matrix(), 60, 2500, "more than one dimension")
def c16_matrix(case, info):
    S, nu, mu, lam, dof = np.array(case["S"]), case["nu"], np.array(case["mu"]), case["lam"], case["dof"]
    d = len(S)
    info.nontrivial = d > 1
    vecs = [np.eye(d)[i] for i in range(d)] + ([np.ones(d), np.array([(-1.0) ** i for i in range(d)])] if d > 1 else [])
    Si = np.linalg.inv(S)
    for what, f in [("sample_wishart", dbgr.sample_wishart), ("sample_wishart_v2", dbgr.sample_wishart_v2), ("sample_wishart_naive", dbgr.sample_wishart_naive)]:
        v = nu
        if what == "sample_wishart_naive":
            v = int(math.ceil(nu))
        if v < d + 0.2 and d > 1:
            v = type(v)(d + 1)
        ladder(case, "%s with %r" % (what, case), lambda n: min_ks([wishart_us(f(v, S), v, S, vecs) for _ in range(min(n, 1500))]))
    v = max(nu, d + 0.5)
    ladder(case, "sample_inverse_wishart with %r" % case, lambda n: min_ks([wishart_us(np.linalg.inv(dbgr.sample_inverse_wishart(v, S)), v, Si, vecs) for _ in range(min(n, 1500))]))

    def niw(n):
        rows = []
        for _ in range(min(n, 1500)):
            m, cov = dbgr.sample_normal_inverse_wishart(mu, lam, S, v)
            z = m - mu
            rows.append(wishart_us(np.linalg.inv(cov), v, Si, vecs[:1]) + [sp.chdtr(d, lam * z.dot(np.linalg.solve(cov, z)))] +
                        [sp.ndtr(math.sqrt(lam) * a.dot(z) / math.sqrt(a.dot(cov).dot(a))) for a in vecs])
        return min_ks(rows)
    ladder(case, "sample_normal_inverse_wishart with %r" % case, niw)

    def student(n):
        rows = []
        for _ in range(n):
            z = dbgr.sample_student_t(dof, mu, S) - mu
            rows.append([sp.fdtr(d, dof, z.dot(Si).dot(z) / d)] + [sp.stdtr(dof, a.dot(z) / math.sqrt(a.dot(S).dot(a))) for a in vecs])
        return min_ks(rows)
    ladder(case, "sample_student_t with %r" % case, student)


def stick_u(gamma, b, end):
    """transform of a Beta(1, gamma) fraction b, with everything within `end` of 1 lumped together"""
    rest = max(0.0, 1 - b)
    return 1 - (rest if rest > end else end * _tie.random_sample() ** (1 / gamma)) ** gamma


@prop("C16", "py_stick", st.fixed_dictionaries(dict(gamma=pm.logfloat(0.2, 10), seed=st.integers(1, 1 << 30))), 60, 2000, "always")
def c16_stick(case, info):
    gamma = case["gamma"]
    info.nontrivial = True
    _tie.seed(case["seed"] % (1 << 31))

    def pv(n):
        first, second = [], []
        for _ in range(min(n, 1000)):
            b = dbgr.sample_stick(gamma)
            check(sorted(b) == list(range(len(b))) and len(b) > 0, "sample_stick has keys %r", sorted(b))
            check(abs(sum(b.values()) - 1) < 1e-9 and min(b.values()) >= 0, "sample_stick sums to %r", sum(b.values()))
            first.append(stick_u(gamma, b[0], 0.02))
            if b[0] < 0.5:
                second.append(stick_u(gamma, b[1] / (1 - b[0]), 0.04))
        # normalising a stick cut off at 0.999 moves the pieces by a thousandth, which a margin covers
        ps = [1.0]
        for x, margin in ((first, 0.012), (second, 0.035)):
            if len(x) > 50:
                dev = sps.kstest(x, "uniform").statistic - margin
                if dev > 0:
                    ps.append(float(sps.kstwobign.sf(dev * math.sqrt(len(x)))))
        return min(ps)
    ladder(case, "sample_stick(%r)" % gamma, pv)


@prop("C16", "py_partition", st.fixed_dictionaries(dict(counts=st.lists(st.integers(0, 4), min_size=1, max_size=4), seed=st.integers(1, 1 << 30))), 120, 5000, "at least two groups with items")
def c16_partition(case, info):
    counts = case["counts"]
    n = sum(counts)
    items = [10 * i + 3 for i in range(n)]
    info.nontrivial = sum(1 for c in counts if c) >= 2
    if n == 0:
        check([list(g) for g in dbgr.sample_partition_from_counts(items, counts)] == [[] for _ in counts], "an empty partition")
        return

    def pv(N):
        where = np.zeros((n, len(counts)))
        pair = 0
        for _ in range(N):
            part = dbgr.sample_partition_from_counts(items, counts)
            check([len(g) for g in part] == counts, "sizes of %r", part)
            check(sorted(x for g in part for x in g) == items, "items of %r", part)
            for k, g in enumerate(part):
                for x in g:
                    where[(x - 3) // 10, k] += 1
            pair += any(items[0] in g and items[-1] in g for g in part)
        ps = [gof(where[i], [c / float(n) for c in counts]) for i in range(n)]
        if n > 1:
            p = sum(c * (c - 1.0) for c in counts) / n / (n - 1)
            ps.append(gof([pair, N - pair], [p, 1 - p]) if 0 < p < 1 else 1.0)
        return min(ps)
    ladder(case, "sample_partition_from_counts of %r" % counts, pv)
