"""The conjugate models as the Python tests see them: generators of parameters, values and
histories; the flavors; what a group holds and how it scores according to the textbook formulas,
in double precision, with the error the single-precision flavor (lp) is allowed."""

import importlib
import math

import numpy as np
from hypothesis import strategies as st
from scipy import special as sp
from scipy import stats as sps

OTHER = 0xFFFFFFFF
HAS_HP = ("dd", "gp", "nich")
MODELS = ("bb", "bnb", "dd", "dpd", "gp", "nich", "niw")
DISCRETE = ("bb", "bnb", "dd", "dpd", "gp")
_mods = {}


def f32(x):
    return float(np.float32(x))


def flavors(model, which=None):
    """[(flavor name, module)]"""
    if model not in _mods:
        names = ["dbg", "lp"] + (["hp"] if model in HAS_HP else [])
        _mods[model] = [(f, importlib.import_module("distributions.%s.models.%s" % (f, model))) for f in names]
    return [fm for fm in _mods[model] if which is None or fm[0] in which]


# ---------------------------------------------------------------- generators

def logfloat(lo, hi):
    return st.integers(0, 400).map(lambda k: f32(lo * (hi / lo) ** (k / 400.0)))


def linfloat(lo, hi, n=400):
    return st.integers(0, n).map(lambda k: f32(lo + (hi - lo) * k / n))


@st.composite
def g_bb(draw):
    lo, hi = draw(st.sampled_from([(0.05, 100), (0.05, 100), (1e-3, 1e4)]))
    return dict(alpha=draw(logfloat(lo, hi)), beta=draw(logfloat(lo, hi))), [True, False]


@st.composite
def g_dd(draw):
    dim = draw(st.sampled_from([2, 2, 3, 4, 5, 8, 12, 17, 40, 256]))
    par = logfloat(*draw(st.sampled_from([(0.05, 20), (0.05, 20), (2e-3, 1e3)])))
    if dim > 20:
        al = draw(st.lists(par, min_size=3, max_size=3))
        alphas = [al[i % 3] for i in range(dim)]
        pool = draw(st.lists(st.integers(0, dim - 1), min_size=1, max_size=8))
    else:
        alphas = draw(st.lists(par, min_size=dim, max_size=dim))
        pool = list(range(dim))
    return dict(alphas=alphas), pool


@st.composite
def g_dpd(draw, other=True):
    key = st.one_of(st.integers(0, 20), st.sampled_from([127, 128, 10000, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 20000]))
    keys = draw(st.lists(key, min_size=1, max_size=8, unique=True))
    w = draw(st.lists(st.integers(1, 30), min_size=len(keys), max_size=len(keys)))
    w0 = draw(st.integers(0, 20)) if other else 0
    tot = sum(w) + (w0 + sum(w) // 50 + 1 if w0 else 0)
    cnt = draw(st.lists(st.integers(1, 6), min_size=len(keys), max_size=len(keys)))
    return dict(gamma=draw(logfloat(0.1, 20)), alpha=draw(logfloat(*draw(st.sampled_from([(0.1, 20), (0.1, 20), (0.02, 1e3)])))),
                betas={str(k): f32(float(x) / tot) for k, x in zip(keys, w)}, counts={str(k): c for k, c in zip(keys, cnt)}), keys


@st.composite
def g_gp(draw):
    v = st.one_of(st.integers(0, 12), st.integers(0, 150), st.integers(0, 1000))
    par = logfloat(*draw(st.sampled_from([(0.1, 30), (0.1, 30), (5e-3, 1e3)])))
    return dict(alpha=draw(par), inv_beta=draw(par)), draw(st.lists(v, min_size=1, max_size=5))


@st.composite
def g_bnb(draw):
    v = st.one_of(st.integers(0, 12), st.integers(0, 150), st.integers(0, 1000))
    par = logfloat(*draw(st.sampled_from([(0.1, 50), (0.1, 50), (5e-3, 1e3)])))
    return dict(alpha=draw(par), beta=draw(par), r=draw(st.one_of(st.integers(1, 9), st.integers(1, 200)))), draw(st.lists(v, min_size=1, max_size=5))


@st.composite
def g_nich(draw):
    if draw(st.integers(0, 2)):
        return (dict(mu=draw(linfloat(-3, 3)), kappa=draw(logfloat(0.2, 10)), sigmasq=draw(logfloat(0.5, 10)), nu=draw(logfloat(1, 20))),
                draw(st.lists(linfloat(-5, 5), min_size=1, max_size=6)))
    # any scale, any offset
    scale, base = draw(st.sampled_from([0.01, 1.0, 100.0, 1e4])), draw(st.sampled_from([0.0, 0.0, 50.0, -3000.0]))
    v = linfloat(-5, 5).map(lambda x: f32(base + scale * x))
    return (dict(mu=draw(st.one_of(linfloat(-3, 3), v)), kappa=draw(logfloat(0.01, 100)), sigmasq=draw(logfloat(0.01, 1e4)), nu=draw(logfloat(0.2, 300))),
            draw(st.lists(v, min_size=1, max_size=6)))


@st.composite
def g_niw(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 4]))
    a = draw(st.lists(st.integers(-3, 3), min_size=d * d, max_size=d * d))
    A = np.array(a, dtype=float).reshape(d, d) / 4.0
    psi = (A.dot(A.T) + np.eye(d) * draw(st.sampled_from([0.5, 1.0, 2.0]))).astype(np.float32).astype(float)
    psi = (psi + psi.T) / 2
    vec = st.lists(linfloat(-3, 3, 24), min_size=d, max_size=d)
    if draw(st.integers(0, 2)):
        return (dict(mu=draw(vec), kappa=draw(logfloat(0.3, 10)), psi=psi.tolist(), nu=f32(d + draw(linfloat(0, 10, 40)))),
                draw(st.lists(vec, min_size=1, max_size=5)))
    # any scale
    scale = draw(st.sampled_from([0.125, 1.0, 16.0, 1024.0]))
    vec = vec.map(lambda x: [scale * y for y in x])
    psi = psi * draw(st.sampled_from([scale, scale * scale, 1.0]))
    return (dict(mu=draw(vec), kappa=draw(logfloat(0.01, 100)), psi=psi.tolist(), nu=f32(d + draw(logfloat(0.01, 200)))),
            draw(st.lists(vec, min_size=1, max_size=5)))


GEN = dict(bb=g_bb, dd=g_dd, dpd=g_dpd, gp=g_gp, bnb=g_bnb, nich=g_nich, niw=g_niw)


@st.composite
def g_ops(draw, npool, max_ops=24, repeat=True, remove=True, max_repeat=40):
    kinds = ["a", "a", "a"] + (["r"] if repeat else []) + (["d", "d"] if remove else [])
    ops = []
    for _ in range(draw(st.integers(0, max_ops))):
        k = draw(st.sampled_from(kinds))
        i = draw(st.integers(0, npool - 1))
        ops.append([k, i, draw(st.integers(0, max_repeat))] if k == "r" else [k, i])
    return ops


@st.composite
def g_case(draw, models, groups=1, max_ops=24, repeat=True, remove=True, **kw):
    """parameters, a pool of values, `groups` histories over the pool and some probes"""
    model = draw(st.sampled_from(list(models)))
    shared, pool = draw(GEN[model](**(kw if model == "dpd" else {})))
    case = dict(model=model, shared=shared, pool=pool)
    case["hist"] = [draw(g_ops(len(pool), max_ops, repeat, remove, 8 if model == "niw" else 40)) for _ in range(groups)]
    case["seed"] = draw(st.integers(1, 1 << 20))
    return case


# ---------------------------------------------------------------- running histories

def raw_shared(model, s):
    if model == "niw":
        return dict(mu=np.array(s["mu"], dtype=float), kappa=s["kappa"], psi=np.array(s["psi"], dtype=float), nu=s["nu"])
    if model == "dpd":
        return dict(gamma=s["gamma"], alpha=s["alpha"], betas={int(k): b for k, b in s["betas"].items()}, counts={int(k): c for k, c in s["counts"].items()})
    return dict(s)


def make_shared(m, model, s):
    return m.Shared.from_dict(raw_shared(model, s))


def value(model, v):
    return np.array(v, dtype=float) if model == "niw" else v


def new_group(m, shared, used=None):
    g = m.Group()
    g.init(shared)
    return g


class Bag(object):
    """the multiset of values a group should hold, and what went in and out on the way"""
    def __init__(self):
        self.items = []  # [value, count] in order of first addition
        self.moves = 0   # how many additions and removals
        self.peak = 0    # largest number of values held
        self.top = 0     # largest count value seen
        self.big = 1.0   # largest magnitude seen

    def add(self, v, n=1):
        for it in self.items:
            if it[0] == v:
                it[1] += n
                break
        else:
            self.items.append([v, n])
        self.moves += 1
        self.peak = max(self.peak, self.n())
        if isinstance(v, int):
            self.top = max(self.top, v)
        self.big = max(self.big, float(np.max(np.abs(np.array(v, dtype=float)))))

    def has(self, v):
        return any(it[0] == v and it[1] > 0 for it in self.items)

    def remove(self, v):
        for it in self.items:
            if it[0] == v:
                it[1] -= 1
        self.items = [it for it in self.items if it[1]]
        self.moves += 1

    def n(self):
        return sum(c for _, c in self.items)

    def count(self, v):
        return sum(c for x, c in self.items if x == v)

    def all(self):
        return [v for v, c in self.items for _ in range(c)]

    def copy(self):
        b = Bag()
        b.items = [list(it) for it in self.items]
        b.moves, b.peak, b.top, b.big = self.moves, self.peak, self.top, self.big
        return b

    def plus(self, other):
        b = self.copy()
        for v, c in other.items:
            b.add(v, c)
        b.moves += other.moves
        b.peak = max(b.peak, other.peak)
        b.top = max(b.top, other.top)
        b.big = max(b.big, other.big)
        return b


def run_ops(model, m, shared, group, bag, pool, ops):
    for op in ops:
        v = pool[op[1]]
        pv = value(model, v)
        if op[0] == "a":
            group.add_value(shared, pv)
            bag.add(v)
        elif op[0] == "r":
            group.add_repeated_value(shared, pv, op[2])
            if op[2]:
                bag.add(v, op[2])
        elif op[0] == "d" and bag.has(v):
            group.remove_value(shared, pv)
            bag.remove(v)


def bag_of(pool, ops):
    b = Bag()
    for op in ops:
        v = pool[op[1]]
        if op[0] == "a":
            b.add(v)
        elif op[0] == "r":
            if op[2]:
                b.add(v, op[2])
        elif b.has(v):
            b.remove(v)
    return b


def history(model, m, case, k=0):
    shared = make_shared(m, model, case["shared"])
    group = new_group(m, shared)
    bag = Bag()
    run_ops(model, m, shared, group, bag, case["pool"], case["hist"][k])
    return shared, group, bag


# ---------------------------------------------------------------- what a group holds

def expected_dump(model, s, bag):
    """{key: (value, scale)}: a double flavor must be within 1e-11 of the scale per move, lp within 4e-7"""
    n = bag.n()
    it = bag.items
    if model == "bb":
        return dict(heads=(bag.count(True), 0), tails=(bag.count(False), 0))
    if model == "bnb":
        return dict(count=(n, 0), sum=(sum(v * c for v, c in it), 0))
    if model == "gp":
        peak = math.lgamma(bag.top + 1) * max(1, bag.peak)
        return dict(count=(n, 0), sum=(sum(v * c for v, c in it), 0), log_prod=(sum(c * math.lgamma(v + 1) for v, c in it), 4 * max(1.0, peak)))
    if model == "dd":
        return dict(counts=([bag.count(i) for i in range(len(s["alphas"]))], 0))
    if model == "dpd":
        return dict(counts=({v: c for v, c in it if c}, 0))
    if model == "nich":
        mean = sum(v * c for v, c in it) / n if n else 0.0
        ctv = sum(c * (v - mean) ** 2 for v, c in it)
        big = bag.big
        return dict(count=(n, 0), mean=(mean, big * 4), count_times_variance=(ctv, big * big * 8 * max(1, bag.peak)))
    if model == "niw":
        d = len(s["mu"])
        X = np.zeros(d)
        XX = np.zeros((d, d))
        for v, c in it:
            v = np.array(v)
            X += c * v
            XX += c * np.outer(v, v)
        return dict(count=(n, 0), sum_x=(X, 4 * bag.big * max(1, bag.peak)), sum_xxT=(XX, 4 * bag.big ** 2 * max(1, bag.peak)))


def unit(flavor):
    return 4e-7 if flavor == "lp" else 1e-11


def compare_dump(check, model, flavor, s, bag, dump, what):
    exp = expected_dump(model, s, bag)
    check(sorted(exp) == sorted(dump), "%s %s %s: dump has keys %s" % (model, flavor, what, sorted(dump)))
    for k, (e, scale) in exp.items():
        got = dump[k]
        if model == "dpd":
            got = {int(a): int(b) for a, b in got.items() if b}
            check(got == e, "%s %s %s: counts %r, should be %r" % (model, flavor, what, got, e))
            continue
        a, b = np.array(got, dtype=float), np.array(e, dtype=float)
        check(a.shape == b.shape, "%s %s %s: %s has shape %s" % (model, flavor, what, k, a.shape))
        tol = unit(flavor) * scale * (4 + bag.moves)
        check(np.all(np.abs(a - b) <= tol), "%s %s %s: %s is %r, should be %r (tolerance %g)" % (model, flavor, what, k, got, e, tol))
        if k == "count_times_variance":
            check(a >= 0, "%s %s %s: %s is negative: %r" % (model, flavor, what, k, got))


# ---------------------------------------------------------------- textbook scores

class Acc(object):
    """a sum of terms with its magnitude and the error lp's approximations may make"""
    def __init__(self):
        self.v = self.m = self.e = self.stat = 0.0

    def put(self, x, e=0.0):
        self.v += x
        self.m += abs(x)
        self.e += e + 3e-7 * abs(x)
        return self

    def log(self, c, x):
        l = math.log(x)
        return self.put(c * l, abs(c) * 6.5e-5)

    def lgam(self, c, x):
        l = math.lgamma(x)
        # lp rounds the argument to single precision
        return self.put(c * l, abs(c) * (1.2e-5 * (1 + abs(l)) + 1.5e-7 * x * (abs(math.log(x)) + 1 / x)))

    def stats(self, x):
        """the effect of an error of the statistics of one unit (see unit())"""
        self.stat += x
        return self

    def lgnu(self, x):
        return self.put(math.lgamma(0.5 * x + 0.5) - math.lgamma(0.5 * x), 0.016)

    def tol(self, flavor):
        if flavor == "lp":
            return self.e * 1.3 + 2e-5 + 4e-6 * self.m + 4e-7 * self.stat
        return 1e-9 + 1e-10 * self.m + 1e-11 * self.stat


def nich_post(s, bag):
    n = bag.n()
    d = expected_dump("nich", s, bag)
    mean, ctv = d["mean"][0], d["count_times_variance"][0]
    k, nu = s["kappa"] + n, s["nu"] + n
    mu = (s["kappa"] * s["mu"] + mean * n) / k
    ss = s["nu"] * s["sigmasq"] + ctv + n * s["kappa"] * (mean - s["mu"]) ** 2 / k
    return mu, k, ss / nu, nu


def nich_errors(s, bag):
    """errors, in units, of the mean and of the posterior sum of squares, and that sum"""
    n = bag.n()
    d = expected_dump("nich", s, bag)
    mean = d["mean"][0]
    k = s["kappa"] + n
    dmean, dctv = [(4 + bag.moves) * d[x][1] if n else 0.0 for x in ("mean", "count_times_variance")]
    gap = abs(mean - s["mu"]) if n else 0.0
    ulp = abs(mean) + abs(s["mu"]) if n else 0.0
    dss = dctv + n * s["kappa"] / k * (2 * gap + (dmean + ulp) * 4e-7) * (dmean + ulp)
    _, _, sig, nu = nich_post(s, bag)
    return dmean, dss, sig * nu


def niw_post(s, bag):
    n = bag.n()
    d = expected_dump("niw", s, bag)
    X, XX = d["sum_x"][0], d["sum_xxT"][0]
    mu0 = np.array(s["mu"])
    k, nu = s["kappa"] + n, s["nu"] + n
    xbar = X / n if n else mu0
    mu = (s["kappa"] * mu0 + n * xbar) / k
    S = XX - n * np.outer(xbar, xbar) if n else XX * 0
    psi = np.array(s["psi"]) + S + s["kappa"] * n / k * np.outer(xbar - mu0, xbar - mu0)
    return mu, k, psi, nu


def ref_value(model, s, bag, v):
    """Acc of the predictive score of v"""
    a = Acc()
    n = bag.n()
    if model == "bb":
        a.log(1, (s["alpha" if v else "beta"] + bag.count(v)) / (s["alpha"] + s["beta"] + n))
    elif model == "dd":
        al = s["alphas"]
        a.log(1, (al[v] + bag.count(v)) / (sum(al) + n))
        a.e += 2e-7 * len(al)
    elif model == "dpd":
        betas = {int(k): b for k, b in s["betas"].items()}
        if v == OTHER:
            b0 = 1 - sum(betas.values())
            a.log(1, b0 * s["alpha"] / (s["alpha"] + n))
            a.e += 1e-6 / b0
        else:
            a.log(1, (betas[v] * s["alpha"] + bag.count(v)) / (s["alpha"] + n))
            a.e += 1e-6
    elif model == "gp":
        al = s["alpha"] + sum(x * c for x, c in bag.items)
        ib = s["inv_beta"] + n
        a.lgam(1, al + v).lgam(-1, al).log(al, ib).log(-(al + v), 1 + ib).lgam(-1, v + 1)
        a.e += 2e-7 * (al + v) / ib
    elif model == "bnb":
        al = s["alpha"] + s["r"] * n
        be = s["beta"] + sum(x * c for x, c in bag.items)
        r = s["r"]
        a.lgam(1, al + be).lgam(-1, al + be + r + v).lgam(1, al + r).lgam(-1, al).lgam(1, be + v).lgam(-1, be)
    elif model == "nich":
        mu, k, sig, nu = nich_post(s, bag)
        lam = k / ((k + 1) * sig)
        a.lgnu(nu).log(0.5, lam / (math.pi * nu)).log(-(0.5 * nu + 0.5), 1 + lam * (v - mu) ** 2 / nu)
        dmean, dss, ss = nich_errors(s, bag)
        ulp = abs(v) + abs(mu) + abs(s["mu"])  # rounding of the distance to the mean
        a.stats(0.5 * (nu + 1) * math.sqrt(lam / nu) * (dmean * n / k + ulp) + (0.5 * nu + 1) * (dss / ss + 1))
    elif model == "niw":
        mu, k, psi, nu = niw_post(s, bag)
        d = len(mu)
        dof = nu - d + 1
        sig = psi * (k + 1) / (k * dof)
        z = np.array(v) - mu
        S = float(z.dot(np.linalg.solve(sig, z)))
        cond = np.linalg.cond(psi)
        a.lgam(1, 0.5 * (dof + d)).lgam(-1, 0.5 * dof).log(-0.5 * d, dof * math.pi).put(-0.5 * np.linalg.slogdet(sig)[1], 2e-4 * d)
        a.log(-0.5 * (dof + d), 1 + S / dof)
        a.stats(6.5 * (dof + d) * cond * niw_amp(s, bag, psi))
    return a


def niw_amp(s, bag, psi):
    """how much cancellation amplifies single-precision rounding of the statistics"""
    d = expected_dump("niw", s, bag)
    XX = d["sum_xxT"][0]
    lo = np.linalg.eigvalsh(psi)[0]
    big = max(4 * bag.big ** 2, 9.0 * float(np.max(np.abs(s["mu"]))) ** 2)
    return 1 + (np.trace(XX) + big * max(1, bag.peak)) / max(lo, 1e-30) / max(1.0, np.linalg.cond(psi))


def lmvgamma(a, x, c, d):
    a.put(c * d * (d - 1) / 4.0 * math.log(math.pi), 1e-4)
    for j in range(d):
        a.lgam(c, x - 0.5 * j)


def ref_data(model, s, bag):
    """Acc of the marginal score of everything in the bag"""
    a = Acc()
    n = bag.n()
    if model == "bb":
        h, t = s["alpha"] + bag.count(True), s["beta"] + bag.count(False)
        a.lgam(1, s["alpha"] + s["beta"]).lgam(-1, h + t).lgam(1, h).lgam(-1, s["alpha"]).lgam(1, t).lgam(-1, s["beta"])
    elif model == "dd":
        al = s["alphas"]
        for i, x in enumerate(al):
            a.lgam(1, x + bag.count(i)).lgam(-1, x)
        a.lgam(1, sum(al)).lgam(-1, sum(al) + n)
        a.e += 2e-6 * len(al)
    elif model == "dpd":
        betas = {int(k): b for k, b in s["betas"].items()}
        for v, c in bag.items:
            p = betas[v] * s["alpha"]
            a.lgam(1, p + c).lgam(-1, p)
            a.e += 1e-6
        a.lgam(1, s["alpha"]).lgam(-1, s["alpha"] + n)
    elif model == "gp":
        al = s["alpha"] + sum(x * c for x, c in bag.items)
        ib = s["inv_beta"] + n
        a.lgam(1, al).lgam(-1, s["alpha"]).log(-al, ib).log(s["alpha"], s["inv_beta"])
        lp = sum(c * math.lgamma(x + 1) for x, c in bag.items)
        a.put(-lp, 1.2e-5 * (lp + 4) + 4e-7 * (4 + bag.moves) * expected_dump("gp", s, bag)["log_prod"][1])
    elif model == "bnb":
        al = s["alpha"] + s["r"] * n
        be = s["beta"] + sum(x * c for x, c in bag.items)
        a.lgam(1, s["alpha"] + s["beta"]).lgam(-1, al + be).lgam(1, al).lgam(-1, s["alpha"]).lgam(1, be).lgam(-1, s["beta"])
    elif model == "nich":
        mu, k, sig, nu = nich_post(s, bag)
        a.lgam(1, nu / 2).lgam(-1, s["nu"] / 2).log(0.5, s["kappa"] / k).log(0.5 * s["nu"], s["nu"] * s["sigmasq"]).log(-0.5 * nu, nu * sig)
        a.put(-n / 2.0 * math.log(math.pi))
        dmean, dss, ss = nich_errors(s, bag)
        a.stats(0.5 * nu * (dss / ss + 1))
    elif model == "niw":
        mu, k, psi, nu = niw_post(s, bag)
        d = len(mu)
        lmvgamma(a, nu / 2, 1, d)
        lmvgamma(a, s["nu"] / 2, -1, d)
        a.put(s["nu"] / 2 * np.linalg.slogdet(np.array(s["psi"]))[1], 1e-4 * s["nu"])
        a.put(-nu / 2 * np.linalg.slogdet(psi)[1], 1e-4 * nu)
        a.put(-n * d / 2.0 * math.log(math.pi)).log(d / 2.0, s["kappa"] / k)
        a.stats(6.5 * nu * d * np.linalg.cond(psi) * niw_amp(s, bag, psi))
    return a


def sane(model, s, bag):
    """lp's niw scores only when single precision keeps the scatter matrix positive definite"""
    if model != "niw":
        return True
    mu, k, psi, nu = niw_post(s, bag)
    return np.linalg.cond(psi) < 1000 and niw_amp(s, bag, psi) * 1e-5 < 0.05


# ---------------------------------------------------------------- predictive distributions, for draws

def pit(model, s, bag, v, u):
    """the probability integral transform of draw v (u breaks ties of discrete values) or None"""
    n = bag.n()
    if model in ("bb", "dd", "dpd"):
        keys = [False, True] if model == "bb" else list(range(len(s["alphas"]))) if model == "dd" else sorted(int(k) for k in s["betas"]) + [OTHER]
        lo = 0.0
        for k in keys:
            if model == "dpd" and k == OTHER:
                b0 = max(0.0, 1 - sum(s["betas"].values()))
                p = b0 * s["alpha"] / (s["alpha"] + n)
            elif model == "dpd":
                p = (s["betas"][str(k)] * s["alpha"] + bag.count(k)) / (s["alpha"] + n)
            else:
                p = math.exp(ref_value(model, s, bag, k).v)
            if k == v:
                return lo + u * p
            lo += p
        return None
    if model == "gp":
        al = s["alpha"] + sum(x * c for x, c in bag.items)
        ib = s["inv_beta"] + n
        p = ib / (1 + ib)
        pmf = math.exp(math.lgamma(al + v) - math.lgamma(al) - math.lgamma(v + 1) + al * math.log(p) - v * math.log1p(ib))
        return (float(sp.betainc(al, v, p)) if v > 0 else 0.0) + u * pmf
    if model == "bnb":
        al = s["alpha"] + s["r"] * n
        be = s["beta"] + sum(x * c for x, c in bag.items)
        ks = np.arange(0, v + 1)
        r = s["r"]
        from scipy.special import gammaln as G
        lp = G(r + ks) - G(ks + 1) - G(r) + G(al + be) - G(al) - G(be) + G(al + r) + G(be + ks) - G(al + be + r + ks)
        p = np.exp(lp)
        return float(p[:-1].sum() + u * p[-1])
    if model == "nich":
        mu, k, sig, nu = nich_post(s, bag)
        return float(sp.stdtr(nu, (v - mu) / math.sqrt((1 + k) * sig / k)))
