"""Properties of the conjugate models in every Python flavor (dbg, hp, lp)."""

import copy
import itertools
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from hypothesis import assume

import pm
from pm import MODELS, flavors, g_case, value
from pbt import prop, check, close, reset_rng

NT = "a history with at least two distinct values or a removal"


def note(info, case, bag, k=0):
    info.label(case["model"])
    ops = case["hist"][k]
    if any(o[0] == "d" for o in ops):
        info.label("removal")
    if any(o[0] == "r" for o in ops):
        info.label("repeated")
    if bag.n() == 0:
        info.label("empty")
    if len(bag.items) >= 2 or bag.moves > bag.n():
        info.nontrivial = True


def probes(case, extra=True):
    model, s = case["model"], case["shared"]
    out = list(case["pool"][:6])
    if extra:
        if model == "dpd" and 1 - sum(s["betas"].values()) > 1e-3:
            out.append(pm.OTHER)
        if model in ("gp", "bnb"):
            out += [0, 1, 37]
        if model == "nich":
            out += [s["mu"], 7.25]
        if model == "niw":
            out.append([0.5] * len(s["mu"]))
    return out


# ---------------------------------------------------------------- C01, C02: sufficient statistics

@prop("C01", "py_history", g_case(MODELS), 3000, 120000, NT)
def c01_history(case, info):
    model = case["model"]
    for f, m in flavors(model):
        shared, group, bag = pm.history(model, m, case)
        note(info, case, bag)
        pm.compare_dump(check, model, f, case["shared"], bag, group.dump(), "after the history")
        # a group of the remaining values, added once each in another order, is the same group
        fresh = m.Group.from_values(shared, [value(model, v) for v in reversed(bag.all())])
        pm.compare_dump(check, model, f, case["shared"], bag, fresh.dump(), "rebuilt")
        if not pm.sane(model, case["shared"], bag):
            continue
        for v in probes(case)[:3]:
            t = pm.ref_value(model, case["shared"], bag, v).tol(f)
            close(group.score_value(shared, value(model, v)), fresh.score_value(shared, value(model, v)), 2 * t, "%s %s score of %r, history against rebuilt" % (model, f, v))
        t = pm.ref_data(model, case["shared"], bag).tol(f)
        close(group.score_data(shared), fresh.score_data(shared), 2 * t, "%s %s data score, history against rebuilt" % (model, f))


@prop("C02", "py_merge", g_case(MODELS, groups=2, max_ops=14), 3000, 120000, "both groups hold values")
def c02_merge(case, info):
    model = case["model"]
    for f, m in flavors(model):
        shared, a, ba = pm.history(model, m, case, 0)
        _, b, bb = pm.history(model, m, case, 1)
        info.label(model)
        info.label("empty source" if not bb.n() else "empty target" if not ba.n() else "both")
        info.nontrivial = bool(ba.n() and bb.n())
        before = pm.np.array(0) if False else repr(b.dump())
        a.merge(shared, b)
        both = ba.plus(bb)
        pm.compare_dump(check, model, f, case["shared"], both, a.dump(), "merged")
        check(repr(b.dump()) == before, "%s %s: merge changed its source" % (model, f))
        if not pm.sane(model, case["shared"], both):
            continue
        for v in probes(case)[:2]:
            r = pm.ref_value(model, case["shared"], both, v)
            close(a.score_value(shared, value(model, v)), r.v, r.tol(f), "%s %s score of %r after merge" % (model, f, v))
        r = pm.ref_data(model, case["shared"], both)
        close(a.score_data(shared), r.v, r.tol(f), "%s %s data score after merge" % (model, f))
        # the merged group carries on like any other
        extra = case["pool"][0]
        a.add_value(shared, value(model, extra))
        both.add(extra)
        pm.compare_dump(check, model, f, case["shared"], both, a.dump(), "merged, then added to")


# ---------------------------------------------------------------- C03, C04, C05: scores

@prop("C03", "py_chain", g_case(MODELS), 2500, 100000, NT)
def c03_chain(case, info):
    model, s = case["model"], case["shared"]
    for f, m in flavors(model):
        shared, group, bag = pm.history(model, m, case)
        note(info, case, bag)
        for v in probes(case, False)[:3]:
            more = bag.copy()
            more.add(v)
            if not (pm.sane(model, s, bag) and pm.sane(model, s, more)):
                continue
            before, pred = group.score_data(shared), group.score_value(shared, value(model, v))
            group.add_value(shared, value(model, v))
            after = group.score_data(shared)
            tol = pm.ref_data(model, s, bag).tol(f) + pm.ref_data(model, s, more).tol(f) + pm.ref_value(model, s, bag, v).tol(f)
            if model == "gp" and f == "lp":
                tol += 2e-5 * (1 + math.lgamma(v + 1))
            close(after - before, pred, tol, "%s %s: adding %r changed the data score by something other than its score" % (model, f, v))
            group.remove_value(shared, value(model, v))
            bag.moves += 2
            bag.peak = max(bag.peak, more.peak)


@prop("C03", "py_orders", g_case(MODELS, max_ops=9, repeat=False, remove=False), 1500, 60000, "at least two distinct values")
def c03_orders(case, info):
    model, s = case["model"], case["shared"]
    vals = [case["pool"][o[1]] for o in case["hist"][0]]
    info.label(model)
    info.nontrivial = len({repr(v) for v in vals}) > 1
    for f, m in flavors(model):
        shared = pm.make_shared(m, model, s)
        for order in (vals, vals[::-1]):
            group, bag = pm.new_group(m, shared), pm.Bag()
            total = tol = 0.0
            ok = True
            for v in order:
                r = pm.ref_value(model, s, bag, v)
                ok = ok and pm.sane(model, s, bag)
                if not ok:
                    break
                total += group.score_value(shared, value(model, v))
                tol += r.tol(f)
                group.add_value(shared, value(model, v))
                bag.add(v)
            if ok and pm.sane(model, s, bag):
                r = pm.ref_data(model, s, bag)
                close(total, group.score_data(shared), tol + r.tol(f) + (3e-5 * r.m if model == "gp" and f == "lp" else 0),
                      "%s %s: the scores of %r one after the other do not add up to the data score" % (model, f, order))


@prop("C04", "py_sum", g_case(("bb", "dd", "dpd", "gp", "bnb"), max_ops=12), 500, 16000, NT)
def c04_sum(case, info):
    model, s = case["model"], case["shared"]
    bag0 = pm.bag_of(case["pool"], case["hist"][0])
    n = bag0.n()
    hi = 0
    if model == "gp":
        al = s["alpha"] + sum(x * c for x, c in bag0.items)
        ib = s["inv_beta"] + n
        hi = int(pm.sps.nbinom(al, ib / (1 + ib)).isf(1e-6)) + 2
        assume(hi < 2500)
        support, tail = range(hi), 1e-6
    elif model == "bnb":
        al = s["alpha"] + s["r"] * n
        be = s["beta"] + sum(x * c for x, c in bag0.items)
        ks = np.arange(0, 2500)
        from scipy.special import gammaln as G
        r = s["r"]
        p = np.exp(G(r + ks) - G(ks + 1) - G(r) + G(al + be) - G(al) - G(be) + G(al + r) + G(be + ks) - G(al + be + r + ks))
        tail = abs(1 - p.sum())
        assume(tail < 0.02)
        support = range(2500)
        # what the score leaves out for r > 1 (see KNOWN_FINDINGS): put it back before summing
        coef = np.exp(G(r + ks) - G(ks + 1) - G(r))
    elif model == "dd":
        support, tail = range(len(s["alphas"])), 0
    elif model == "bb":
        support, tail = [False, True], 0
    else:
        b0 = 1 - sum(s["betas"].values())
        support, tail = [int(k) for k in s["betas"]] + ([pm.OTHER] if b0 > 1e-5 else []), 1e-6 + (0 if b0 > 1e-5 else abs(b0))
    for f, m in flavors(model):
        shared, group, bag = pm.history(model, m, case)
        note(info, case, bag)
        p = np.exp(np.array([group.score_value(shared, v) for v in support], dtype=float))
        if model == "bnb":
            p *= coef
        worst = max(pm.ref_value(model, s, bag, v).tol(f) for v in (list(support)[:3] + [list(support)[len(support) // 2], list(support)[-1]]))
        close(p.sum(), 1.0, tail + math.expm1(min(1.0, worst)) + 1e-9, "%s %s: the probabilities of all values" % (model, f))


@prop("C04", "py_integral", g_case(("nich", "niw"), max_ops=12), 150, 5000, NT)
def c04_integral(case, info):
    model, s = case["model"], case["shared"]
    if model == "niw":
        assume(len(s["mu"]) <= 2)
    for f, m in flavors(model):
        shared, group, bag = pm.history(model, m, case)
        note(info, case, bag)
        if not pm.sane(model, s, bag):
            continue
        if model == "nich":
            mu, k, sig, nu = pm.nich_post(s, bag)
            if nu < 1:
                continue  # tails too heavy for the substitution below
            sd, dim = math.sqrt(sig * (1 + k) / k), 1
        else:
            mu, k, psi, nu = pm.niw_post(s, bag)
            dim = len(mu)
            dof = nu - dim + 1
            L = np.linalg.cholesky(psi * (k + 1) / (k * dof))
        if dim == 1:
            N = 400
            th = (np.arange(N) + 0.5) / N * math.pi - math.pi / 2
            x = np.tan(th)
            w = math.pi / N / np.cos(th) ** 2
            if model == "nich":
                tot = sum(math.exp(group.score_value(shared, mu + sd * a)) * b * sd for a, b in zip(x, w))
            else:
                tot = sum(math.exp(group.score_value(shared, mu + L[0, 0] * np.array([a]))) * b * L[0, 0] for a, b in zip(x, w))
        else:
            N, A = 120, 10
            th = (np.arange(N) + 0.5) / N * math.pi / 2
            rad = np.tan(th)
            tot = 0.0
            for r_, t_ in zip(rad, th):
                jac = (math.pi / 2 / N) / math.cos(t_) ** 2 * r_ * (2 * math.pi / A) * abs(np.linalg.det(L))
                for j in range(A):
                    z = r_ * np.array([math.cos(2 * math.pi * j / A), math.sin(2 * math.pi * j / A)])
                    tot += math.exp(group.score_value(shared, mu + L.dot(z))) * jac
        mid = (mu + 3 * sd) if model == "nich" else (mu + L.dot(np.ones(dim) * 2)).tolist()
        tol = math.expm1(min(1.0, 2 * pm.ref_value(model, s, bag, mid).tol(f))) + 2e-3
        close(tot, 1.0, tol, "%s %s: the integral of the predictive density" % (model, f))


@prop("C05", "py_reference", g_case(MODELS), 3000, 120000, NT)
def c05_reference(case, info):
    model, s = case["model"], case["shared"]
    for f, m in flavors(model):
        shared, group, bag = pm.history(model, m, case)
        note(info, case, bag)
        if not pm.sane(model, s, bag):
            continue
        for v in probes(case):
            r = pm.ref_value(model, s, bag, v)
            close(group.score_value(shared, value(model, v)), r.v, r.tol(f), "%s %s score of %r" % (model, f, v))
        r = pm.ref_data(model, s, bag)
        close(group.score_data(shared), r.v, r.tol(f), "%s %s data score" % (model, f))


# ---------------------------------------------------------------- C18: flavors agree

@prop("C18", "py_flavors", g_case(MODELS, groups=2), 6000, 250000, NT)
def c18_flavors(case, info):
    """the same calls on every flavor: same dumps, same scores, before and after a merge and a round trip"""
    model, s = case["model"], case["shared"]
    seen = []
    for f, m in flavors(model):
        shared, a, ba = pm.history(model, m, case, 0)
        _, b, bb = pm.history(model, m, case, 1)
        note(info, case, ba)
        stages = [(a.dump(), scores(model, shared, a, case, ba), ba.copy())]
        a.merge(shared, b)
        both = ba.plus(bb)
        stages.append((a.dump(), scores(model, shared, a, case, both), both))
        g = m.Group.from_dict(a.dump())
        sh = m.Shared.from_dict(shared.dump())
        stages.append((g.dump(), scores(model, sh, g, case, both), both))
        seen.append((f, shared.dump(), stages))
    f0, sd0, st0 = seen[0]
    for f, sd, stg in seen[1:]:
        check(sorted(sd) == sorted(sd0), "%s: shared dumps of %s and %s have different keys" % (model, f0, f))
        for k in sd:
            if isinstance(sd[k], dict):
                check({int(x) for x in sd[k]} == {int(x) for x in sd0[k]}, "%s: shared dumps of %s and %s: %s" % (model, f0, f, k))
                for x in sd[k]:
                    close(sd[k][x], sd0[k][x], 1e-6, "%s shared %s[%s] of %s and %s" % (model, k, x, f, f0))
            else:
                check(np.allclose(np.array(sd[k], dtype=float), np.array(sd0[k], dtype=float), rtol=1e-6, atol=0), "%s: shared %s of %s is %r and of %s %r", model, k, f, sd[k], f0, sd0[k])
        for i, ((d, sc, bag), (d0, sc0, _)) in enumerate(zip(stg, st0)):
            pm.compare_dump(check, model, f, s, bag, d, "stage %d" % i)
            pm.compare_dump(check, model, f0, s, bag, d0, "stage %d" % i)
            if not pm.sane(model, s, bag):
                continue
            for (what, x), (_, y) in zip(sc, sc0):
                r = pm.ref_data(model, s, bag) if what is None else pm.ref_value(model, s, bag, what)
                close(x, y, r.tol(f) + r.tol(f0), "%s stage %d score of %r, %s against %s" % (model, i, "the data" if what is None else what, f, f0))


def scores(model, shared, group, case, bag):
    if not pm.sane(model, case["shared"], bag):
        return []
    return [(v, group.score_value(shared, value(model, v))) for v in probes(case)] + [(None, group.score_data(shared))]


# ---------------------------------------------------------------- C17: round trips

def same(a, b):
    return np.array_equal(np.array(a, dtype=float), np.array(b, dtype=float)) if not isinstance(a, dict) else \
        {str(k): v for k, v in a.items()} == {str(k): v for k, v in b.items()} and True


def same_dump(a, b, tol=0.0):
    if sorted(map(str, a)) != sorted(map(str, b)):
        return False
    for k in a:
        if isinstance(a[k], dict):
            x = {int(i): v for i, v in a[k].items() if v}
            y = {int(i): v for i, v in b[k].items() if v}
            if sorted(x) != sorted(y) or any(abs(x[i] - y[i]) > tol * abs(x[i]) for i in x):
                return False
        else:
            x, y = np.array(a[k], dtype=float), np.array(b[k], dtype=float)
            if x.shape != y.shape or not np.all(np.abs(x - y) <= tol * np.abs(x)):
                return False
    return True


def wreck(raw):
    """change a dump in place as far as it can be changed"""
    for k in list(raw):
        if isinstance(raw[k], dict):
            raw[k].clear()
        elif isinstance(raw[k], np.ndarray):
            raw[k].fill(-7)
        elif isinstance(raw[k], list):
            raw[k][:] = [-7] * len(raw[k])
        raw[k] = None


@st.composite
def g_io(draw):
    case = draw(g_case(MODELS, groups=2))
    case["other"] = draw(pm.GEN[case["model"]]())  # what the overwritten objects held before
    return case


@prop("C17", "py_roundtrip", g_io(), 3000, 120000, "the group that is written or the one that is overwritten holds values")
def c17_roundtrip(case, info):
    """a dumped or serialised object, loaded into a fresh and into a used one, is that object"""
    from distributions.io import schema_pb2
    model, s = case["model"], case["shared"]
    for f, m in flavors(model):
        shared, a, ba = pm.history(model, m, case, 0)
        _, b, bb = pm.history(model, m, case, 1)
        note(info, case, ba)
        info.nontrivial = ba.n() + bb.n() > 0
        want = a.dump()
        snap = copy.deepcopy(want)
        sc = scores(model, shared, a, case, ba)
        fresh = m.Group.from_dict(want)
        b.load(want)
        loaded = [("fresh dict", fresh, 0), ("used dict", b, 0)]
        Message = getattr(schema_pb2, m.NAME)
        if hasattr(m.Group, "protobuf_dump"):
            msg = Message.Group()
            a.protobuf_dump(msg)
            wire = Message.Group()
            wire.ParseFromString(msg.SerializeToString())
            c = m.Group()
            c.protobuf_load(wire)
            _, d, _ = pm.history(model, m, case, 1)
            d.protobuf_load(wire)
            e = m.Group()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                old = Message.Group()
                a.dump_protobuf(old)
                check(old == msg or same_msg(m, old, msg), "%s %s: dump_protobuf wrote %r, protobuf_dump %r", model, f, old, msg)
                e.load_protobuf(wire)
            raw_msg = Message.Group()
            m.Group.to_protobuf(a.dump(), raw_msg)
            check(raw_msg == msg or same_msg(m, raw_msg, msg), "%s %s: to_protobuf wrote %r, protobuf_dump %r", model, f, raw_msg, msg)
            loaded += [("fresh message", c, 1e-6), ("used message", d, 1e-6), ("deprecated message", e, 1e-6), ("from_protobuf", m.Group.from_dict(m.Group.from_protobuf(wire)), 1e-6)]
            info.label("group message")
            # dumping over an older message replaces it
            if m.NAME != "BetaBernoulli":
                _, o, _ = pm.history(model, m, case, 1)
                again = Message.Group()
                o.protobuf_dump(again)
                a.protobuf_dump(again)
                check(again.SerializeToString(deterministic=True) == msg.SerializeToString(deterministic=True) or same_msg(m, again, msg), "%s %s: dumping into a used message" % (model, f))
        for what, g, tol in loaded:
            check(same_dump(want, g.dump(), tol), "%s %s: %s round trip of %r gave %r" % (model, f, what, want, g.dump()))
            for (v, x), (_, y) in zip(sc, scores(model, shared, g, case, ba)):
                close(y, x, 0 if tol == 0 and model != "dpd" else pm_tol(model, s, ba, v, "lp" if tol else f), "%s %s: score of %r after %s round trip" % (model, f, v, what))
            # and carries on identically
            g2bag = ba.copy()
            for o in case["hist"][1]:
                pass
            pm.run_ops(model, m, shared, g, g2bag, case["pool"], case["hist"][1])
            pm.compare_dump(check, model, "lp" if tol else f, s, g2bag, g.dump(), "loaded from %s, then used" % what)
            check(same_dump(snap, want), "%s %s: using a group loaded from %s changed the dump it was loaded from, %r to %r" % (model, f, what, snap, want))
            check(same_dump(snap, a.dump()), "%s %s: using a group loaded from %s changed the group that was dumped, %r to %r" % (model, f, what, snap, a.dump()))
        # a dump is a snapshot: what happens to it or to the object later is no concern of the other
        _, a2, _ = pm.history(model, m, case, 0)
        taken = a2.dump()
        keep = copy.deepcopy(taken)
        pm.run_ops(model, m, shared, a2, ba.copy(), case["pool"], case["hist"][1] or [["a", 0]])
        check(same_dump(keep, taken), "%s %s: using a group changed a dump taken before, %r to %r" % (model, f, keep, taken))
        keep = copy.deepcopy(a2.dump())
        taken = a2.dump()
        third = m.Group.from_dict(taken)
        wreck(taken)
        check(same_dump(keep, a2.dump()), "%s %s: changing a dump changed the group, %r to %r" % (model, f, keep, a2.dump()))
        check(same_dump(keep, third.dump()), "%s %s: changing a dump changed the group loaded from it, %r to %r" % (model, f, keep, third.dump()))
        # shared parameters
        raw = shared.dump()
        used = pm.make_shared(m, model, case["other"][0])
        used.load(raw)
        shs = [m.Shared.from_dict(raw), used]
        if hasattr(m.Shared, "protobuf_dump"):
            shs.append(message_trip(m, Message, shared))
            msg = Message.Shared()
            shared.protobuf_dump(msg)
            shs.append(pm.make_shared(m, model, case["other"][0]))
            shs[-1].protobuf_load(msg)
        rsnap = copy.deepcopy(raw)
        wreck(raw)
        check(same_dump(rsnap, shared.dump()), "%s %s: changing a dump changed the shared parameters, %r to %r" % (model, f, rsnap, shared.dump()))
        raw = rsnap
        # groups that belonged to other parameters
        osh = pm.make_shared(m, model, case["other"][0])
        og = pm.new_group(m, osh)
        for v in case["other"][1][:3]:
            og.add_value(osh, pm.value(model, v)) if model != "dpd" else None
        og.load(want)
        check(same_dump(want, og.dump()), "%s %s: loading %r into a group of other parameters gave %r" % (model, f, want, og.dump()))
        og.init(shared)
        check(same_dump(pm.new_group(m, shared).dump(), og.dump()), "%s %s: init of a used group gave %r" % (model, f, og.dump()))
        for sh in shs:
            check(same_dump(raw, sh.dump(), 1e-6), "%s %s: shared round trip of %r gave %r" % (model, f, raw, sh.dump()))
            g = m.Group.from_dict(want)
            for (v, x), (_, y) in zip(sc, scores(model, sh, g, case, ba)):
                close(y, x, pm_tol(model, s, ba, v, f), "%s %s: score of %r with the parameters read back" % (model, f, v))


def message_trip(m, Message, shared):
    msg = Message.Shared()
    shared.protobuf_dump(msg)
    shared.protobuf_dump(msg)  # replaces what the message held
    wire = Message.Shared()
    wire.ParseFromString(msg.SerializeToString())
    sh = m.Shared()
    sh.protobuf_load(wire)
    got = sh.dump()
    raw_msg, old, sh2 = Message.Shared(), Message.Shared(), m.Shared()
    m.Shared.to_protobuf(shared.dump(), raw_msg)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        shared.dump_protobuf(old)
        sh2.load_protobuf(old)
    for what, x in [("from_protobuf", m.Shared.from_protobuf(wire)), ("to_protobuf", m.Shared.from_protobuf(raw_msg)), ("dump_protobuf and load_protobuf", sh2.dump())]:
        check(same_dump(got, x, 1e-6), "%s %s: %r came back as %r", m.NAME, what, got, x)
    return sh


def same_msg(m, x, y):
    a, b = m.Group(), m.Group()
    a.protobuf_load(x)
    b.protobuf_load(y)
    return same_dump(a.dump(), b.dump())


def pm_tol(model, s, bag, v, f):
    r = pm.ref_data(model, s, bag) if v is None else pm.ref_value(model, s, bag, v)
    return r.tol(f)


# ---------------------------------------------------------------- C06: lp mixtures

@st.composite
def g_mix(draw):
    model = draw(st.sampled_from([m for m in MODELS if m != "niw"]))
    shared, pool = draw(pm.GEN[model]())
    ops = []
    for _ in range(draw(st.integers(0, 30))):
        k = draw(st.sampled_from(["add", "add", "add", "rem", "new", "del", "init", "clear"] if draw(st.booleans()) else ["add", "rem"]))
        ops.append([k, draw(st.integers(0, 7)), draw(st.integers(0, len(pool) - 1))])
    return dict(model=model, shared=shared, pool=pool, ops=ops, groups=draw(st.integers(1, 6)), accum=draw(st.lists(pm.linfloat(-4, 4, 32), min_size=16, max_size=16)), stride=draw(st.integers(1, 3)))


@prop("C06", "py_mixture", g_mix(), 2500, 100000, "at least two groups, one of them with values")
def c06_mixture(case, info):
    """lp mixtures, through their Python wrappers, against a list of separate groups"""
    model, s, pool = case["model"], case["shared"], case["pool"]
    (f, m), = flavors(model, ["lp"])
    shared = pm.make_shared(m, model, s)
    mix = m.Mixture()
    groups, bags = [], []
    for _ in range(case["groups"]):
        g = pm.new_group(m, shared)
        mix.append(g)
        groups.append(g)
        bags.append(pm.Bag())
    mix.init(shared)
    info.label(model)

    def verify(v):
        check(len(mix) == len(groups), "%s: %d groups, should be %d" % (model, len(mix), len(groups)))
        base = np.array(case["accum"], dtype=np.float32)
        acc = np.zeros(len(groups) * case["stride"], dtype=np.float32)[::case["stride"]]
        for i in range(len(groups)):
            acc[i] = base[i % 16]
        start = acc.copy()
        if len(groups):
            mix.score_value(shared, v, acc)
        total = tol = 0.0
        for i, (g, bag) in enumerate(zip(groups, bags)):
            copy = pm.new_group(m, shared)
            copy.merge(shared, mix[i])
            pm.compare_dump(check, model, "lp", s, bag, copy.dump(), "mixture group %d" % i)
            want = g.score_value(shared, v)
            t = 2 * pm.ref_value(model, s, bag, v).tol("lp")
            close(float(acc[i]) - float(start[i]), want, t + 1e-6 * (1 + abs(start[i])), "%s: mixture score of %r in group %d" % (model, v, i))
            close(mix.score_value_group(shared, i, v), want, t, "%s: mixture score_value_group of %r in group %d" % (model, v, i))
            total += g.score_data(shared)
            tol += 2 * pm.ref_data(model, s, bag).tol("lp")
        if len(groups):
            close(mix.score_data(shared), total, tol + 1e-5, "%s: mixture data score" % model)

    verify(pool[0])
    for op, gid, vi in case["ops"]:
        v = pool[vi]
        gid = gid % len(groups) if groups else 0
        if op == "add" and groups:
            mix.add_value(shared, gid, v)
            groups[gid].add_value(shared, v)
            bags[gid].add(v)
        elif op == "rem" and groups and bags[gid].has(v):
            mix.remove_value(shared, gid, v)
            groups[gid].remove_value(shared, v)
            bags[gid].remove(v)
        elif op == "new" and len(groups) < 12:
            mix.add_group(shared)
            groups.append(pm.new_group(m, shared))
            bags.append(pm.Bag())
        elif op == "del" and len(groups) > 1:
            empty = [i for i, b in enumerate(bags) if b.n() == 0]
            if model == "dpd" and bags[gid].n():  # dpd removes groups only when empty
                if not empty:
                    continue
                gid = empty[0]
            mix.remove_group(shared, gid)
            for l in (groups, bags):
                l[gid] = l[-1]
                l.pop()
        elif op == "init":
            mix.init(shared)
        elif op == "clear":
            mix.clear()
            for g in groups:
                mix.append(g)
            mix.init(shared)
        else:
            continue
        info.label(op)
        if len(groups) > 1 and any(b.n() for b in bags):
            info.nontrivial = True
        verify(v)


# ---------------------------------------------------------------- C15: draws

def uniform_pvalue(us):
    us = np.sort(np.array(us))
    n = len(us)
    ks = pm.sps.kstest(us, "uniform").pvalue
    k = 10
    c = np.bincount(np.minimum((us * k).astype(int), k - 1), minlength=k)
    return min(ks, pm.sps.chi2.sf(((c - n / k) ** 2 / (n / float(k))).sum(), k - 1))


def pair_pvalue(a, b):
    k = 4
    n = len(a)
    c = np.zeros((k, k))
    for x, y in zip(a, b):
        c[min(int(x * k), k - 1), min(int(y * k), k - 1)] += 1
    return pm.sps.chi2.sf(((c - n / 16.0) ** 2 / (n / 16.0)).sum(), 15)


def niw_pits(s, bag, v):
    mu, k, psi, nu = pm.niw_post(s, bag)
    d = len(mu)
    dof = nu - d + 1
    sig = psi * (k + 1) / (k * dof)
    z = np.array(v) - mu
    out = [float(pm.sp.stdtr(dof, z[i] / math.sqrt(sig[i, i]))) for i in range(d)]
    a = np.ones(d)
    out.append(float(pm.sp.stdtr(dof, a.dot(z) / math.sqrt(a.dot(sig).dot(a)))))
    out.append(float(pm.sp.fdtr(d, dof, z.dot(np.linalg.solve(sig, z)) / d)))
    return out


def draws_ok(case, f, m, how, n, rng):
    """p-values of the draws' transforms"""
    model, s = case["model"], case["shared"]
    cols = []
    for _ in range(n):
        if how == "group":
            shared = pm.make_shared(m, model, s)
            bag = pm.Bag()
            vs = m.sample_group(shared, 2)
        else:
            shared, group, bag = pm.history(model, m, case)
            if how == "value":
                vs = [group.sample_value(shared)]
            else:
                sampler = m.Sampler()
                sampler.init(shared, group)
                vs = [sampler.eval(shared), sampler.eval(shared)]
        row = []
        for v in vs:
            v = v.tolist() if isinstance(v, np.ndarray) else v
            if model == "niw":
                row += niw_pits(s, bag, v)
            else:
                u = pm.pit(model, s, bag, v, rng.random_sample())
                check(u is not None, "%s %s %s: drew %r, which is not a value" % (model, f, how, v))
                row.append(u)
            if model == "dpd" and v == pm.OTHER:
                row += [rng.random_sample()] * (len(vs) - len(row))
                break
            bag = bag.copy()
            bag.add(v)
        cols.append(row)
    A = np.array(cols)
    ps = [uniform_pvalue(A[:, i]) for i in range(A.shape[1])]
    if model != "niw" and A.shape[1] == 2 and n >= 200:
        ps.append(pair_pvalue(A[:, 0], A[:, 1]))
    return min(ps)


def draws_test(model, flavor):
    def test(case, info):
        s = case["shared"]
        (f, m), = flavors(model, [flavor])
        for how in ("value", "sampler", "group"):
            bag = pm.bag_of(case["pool"], case["hist"][0]) if how != "group" else pm.Bag()
            if model == "bnb" and not (s["alpha"] >= 0.5 and s["beta"] * s["r"] < 40 * s["alpha"] and sum(x * c for x, c in bag.items) < 3000):
                continue
            if model == "dd" and len(s["alphas"]) > 40:
                continue
            if model == "nich":
                dmean, dss, ss = pm.nich_errors(s, bag)
                nu = s["nu"] + bag.n()
                if nu < 0.5 or pm.unit(flavor) * dmean > 0.003 * math.sqrt(ss / nu) or pm.unit(flavor) * dss > 0.003 * ss:
                    continue
            if model == "niw":
                mu, k, psi, nu = pm.niw_post(s, bag)
                if not (nu > 6 + len(mu) and np.linalg.cond(psi) < 200):
                    continue
            info.label(how)
            info.nontrivial = info.nontrivial or bag.n() > 0 or how != "value"
            for attempt, (n, level) in enumerate([(250, 1e-3), (800, 1e-4), (1500, 1e-6)]):
                reset_rng(case["seed"] + 7919 * attempt)
                rng = np.random.RandomState(case["seed"] + attempt)
                p = draws_ok(case, f, m, how, n, rng)
                if p > level:
                    break
            else:
                check(False, "%s %s: draws (%s) do not follow the posterior predictive: p = %g three times over", model, f, how, p)
    return test


for _model in MODELS:
    for _f in ("dbg", "hp", "lp"):
        if _f != "hp" or _model in pm.HAS_HP:
            prop("C15", "py_draws_%s_%s" % (_model, _f), g_case([_model], max_ops=6), 20 if _model == "niw" else 12, 500, "a group with values, or two draws from one sampler")(draws_test(_model, _f))


@st.composite
def g_sparse_dd(draw):
    """parameters so small that all gamma samples behind a draw can underflow"""
    dim = draw(st.sampled_from([2, 2, 3, 4, 8, 20]))
    alphas = draw(st.lists(pm.logfloat(1e-6, 1e-2), min_size=dim, max_size=dim))
    return dict(model="dd", shared=dict(alphas=alphas), pool=list(range(dim)), hist=[[]], seed=draw(st.integers(1, 1 << 20)))


@prop("C15", "py_draws_tiny_dd", g_sparse_dd(), 30, 1500, "any parameters")
def c15_tiny(case, info):
    info.nontrivial = True
    for f, m in flavors("dd"):
        for attempt, (n, level) in enumerate([(250, 1e-3), (800, 1e-4), (1500, 1e-6)]):
            reset_rng(case["seed"] + 7919 * attempt)
            p = draws_ok(case, f, m, "group", n, np.random.RandomState(case["seed"] + attempt))
            if p > level:
                break
        else:
            check(False, "dd %s: pairs of draws do not follow the posterior predictive: p = %g three times over", f, p)


# ---------------------------------------------------------------- C19: the dpd bookkeeping

@st.composite
def g_weights(draw):
    shared, keys = draw(pm.g_dpd())
    if draw(st.integers(0, 4)) == 0:
        shared["betas"], shared["counts"] = {}, {}
    ops = []
    for _ in range(draw(st.integers(0, 30))):
        ops.append([draw(st.sampled_from("aaaddR" if draw(st.integers(0, 9)) == 0 else "aad")), draw(st.one_of(st.sampled_from(keys), st.integers(0, 30)))])
    return dict(shared=shared, ops=ops, seed=draw(st.integers(1, 1 << 20)))


@prop("C19", "py_realize_large", st.fixed_dictionaries(dict(known=st.one_of(st.integers(9995, 10005), st.integers(0, 12000)), beta0=st.floats(1e-3, 0.9),
      gamma=st.floats(0.1, 3000), seed=st.integers(1, 1 << 20))), 12, 400, "the limit on the number of values was reached")
def c19_large(case, info):
    n = case["known"]
    beta0 = case["beta0"] if n else 1.0
    shared = dict(gamma=case["gamma"], alpha=1.0, betas=dict((i, (1 - beta0) / n) for i in range(n)), counts=dict((i, 1) for i in range(n)))
    for f, m in flavors("dpd"):
        reset_rng(case["seed"])
        sh = pm.make_shared(m, "dpd", shared)
        before = sh.dump()["betas"]
        sh.realize()
        d = sh.dump()
        made = len(d["betas"]) - n
        info.nontrivial = info.nontrivial or n + made >= 10000
        check(1 <= made <= max(10000 - n, 1), "%s: realize made %d values on top of %d", f, made, n)
        for i in range(n):
            check(d["betas"].get(i) == before[i], "%s: realize changed the weight of %d: %r", f, i, d["betas"].get(i))
        check(all(c == 1 for c in d["counts"].values()) and len(d["counts"]) == n + made, "%s: reference counts after realize", f)
        check(set(d["betas"]) == set(range(n + made)), "%s: realize made values that are not the next ones", f)
        close(sum(d["betas"].values()), 1, 2e-2 if f == "lp" else 1e-6, "%s: the weights after realize" % f)


@prop("C19", "py_weights", g_weights(), 1500, 60000, "a value's weight was returned, or a new value split off a weight")
def c19_weights(case, info):
    for f, m in flavors("dpd"):
        reset_rng(case["seed"])
        sh = pm.make_shared(m, "dpd", case["shared"])
        d = sh.dump()
        betas, counts = dict(d["betas"]), dict(d["counts"])
        added = 0
        tol = 1e-9 if f == "dbg" else 1e-5

        def rest(bs):
            return 1 - sum(bs.values())

        for k, v in case["ops"]:
            if k == "R" and len(betas) < 40:
                before = rest(betas)
                top = max(betas) if betas else -1
                if top > 1 << 30 or case["shared"]["gamma"] > 4:
                    continue
                sh.realize()
                info.label("realize")
                d = sh.dump()
                for x in betas:
                    new = d["betas"].get(x)
                    check(new is not None and d["counts"][x] >= counts[x], "%s: realize lost value %s" % (f, x))
                    # an existing value keeps its weight (dbg and lp add new values above the largest)
                    close(new, betas[x], tol + (abs(before) if x == top and before <= 1e-4 * 1.01 else 0), "%s: realize changed the weight of %s" % (f, x))
                close(sum(d["betas"].values()), 1, 2e-3 if f == "lp" else 1e-6, "%s: the weights after realize" % f)
                betas, counts = dict(d["betas"]), dict(d["counts"])
                added += len(betas)
                continue
            if k == "a":
                b0 = rest(betas)
                if v not in betas and b0 < 1e-4:
                    continue  # nothing left to split
                sh.add_value(v)
                d = sh.dump()
                counts[v] = counts.get(v, 0) + 1
                if v not in betas:
                    info.nontrivial = True
                    info.label("new value")
                    added += 1
                    nb = d["betas"].get(v)
                    check(nb is not None, "%s: added value %s has no weight" % (f, v))
                    check(0 <= nb <= max(b0, 0) + tol + 1e-6 * added, "%s: value %s took %r of the remaining %r" % (f, v, nb, b0))
                    betas[v] = nb
            elif k == "d":
                if counts.get(v, 0) <= 0:
                    continue
                sh.remove_value(v)
                d = sh.dump()
                counts[v] -= 1
                if not counts[v]:
                    del counts[v]
                    del betas[v]
                    info.nontrivial = True
                    info.label("gone value")
            else:
                continue
            check({int(x): int(c) for x, c in d["counts"].items() if c} == counts, "%s after %s %s: counts %r, should be %r" % (f, k, v, d["counts"], counts))
            check(set(d["betas"]) == set(betas), "%s after %s %s: weights for %r, should be for %r" % (f, k, v, sorted(d["betas"]), sorted(betas)))
            for x in betas:
                close(d["betas"][x], betas[x], 0, "%s: the weight of %s changed" % (f, x))
            check(rest(betas) >= -tol - 1e-6 * (added + 1), "%s: weights sum to %r" % (f, 1 - rest(betas)))
            # what is not given to a value is what OTHER scores
            if rest(betas) > 0.01 and betas:
                g = m.Group()
                g.init(sh)
                close(math.exp(g.score_value(sh, pm.OTHER)), rest(betas), tol + 2e-4, "%s: the probability of a new value" % f)
        for bad in ("add_value", "remove_value"):
            before = sh.dump()
            try:
                getattr(sh, bad)(pm.OTHER)
            except Exception:
                pass
            else:
                check(False, "%s: %s(OTHER) was accepted" % (f, bad))
            check(same_dump(before, sh.dump()), "%s: a rejected %s(OTHER) changed the parameters" % (f, bad))


# ---------------------------------------------------------------- C23: reading changes nothing

@prop("C23", "py_reads", g_case(MODELS), 2000, 80000, NT)
def c23_reads(case, info):
    """scores and dumps, asked for twice in any order and between draws, come out bitwise the same"""
    model, s = case["model"], case["shared"]
    for f, m in flavors(model):
        out = []
        for rep in range(2):
            junk = [pm.new_group(m, pm.make_shared(m, model, s)) for _ in range(rep * 3)]  # another heap
            shared, group, bag = pm.history(model, m, case)
            note(info, case, bag)
            if not pm.sane(model, s, bag):
                return
            d0, s0 = repr(group.dump()), repr(shared.dump())
            sc = scores(model, shared, group, case, bag)
            if model != "niw":
                group.sample_value(shared)
            check(repr(scores(model, shared, group, case, bag)) == repr(sc), "%s %s: scoring twice gave different scores" % (model, f))
            check(repr(scores(model, shared, group, case, bag)[::-1]) == repr(sc[::-1]), "%s %s: scores depend on the order of asking" % (model, f))
            check(repr(group.dump()) == d0 and repr(shared.dump()) == s0, "%s %s: scoring or sampling changed the group or the parameters" % (model, f))
            out.append((d0, s0, repr(sc)))
            del junk
        check(out[0] == out[1], "%s %s: the same history gave different results: %r" % (model, f, out))
        other = m.Group.from_values(shared, [value(model, v) for v in case["pool"][:2]])
        other.add_value(shared, value(model, case["pool"][0]))
        check(repr(group.dump()) == d0, "%s %s: changing another group changed this one" % (model, f))
