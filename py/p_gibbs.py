"""C24: a sampler put together from the lp modules, as in examples/mixture, against the exact conditionals."""

import math

import numpy as np
from hypothesis import strategies as st

import pm
from pm import MODELS, flavors
from pbt import prop, check, close
from distributions.dbg.random import sample_discrete_log
from distributions.lp.clustering import PitmanYor, LowEntropy
from distributions.lp.mixture import MixtureIdTracker


@st.composite
def g_sampler(draw):
    features = []
    for _ in range(draw(st.integers(1, 3))):
        model = draw(st.sampled_from([m for m in MODELS if m != "niw"]))
        shared, pool = draw(pm.GEN[model]())
        features.append(dict(model=model, shared=shared, pool=pool))
    items = draw(st.integers(1, 14))
    return dict(features=features, values=draw(st.lists(st.integers(0, 1000), min_size=items, max_size=items)), alpha=draw(pm.logfloat(0.05, 50)), d=draw(st.sampled_from([0.0, 0.1, 0.5, 0.875])),
                prior=draw(st.sampled_from(["py", "py", "le"])), more=draw(st.integers(0, 20)), empties=draw(st.integers(1, 4)),
                moves=draw(st.lists(st.tuples(st.integers(0, items - 1), st.integers(-2, 9)), max_size=30)))


@prop("C24", "py_conditionals", g_sampler(), 2500, 100000, "an item left a group, and two groups have items")
def conditionals(case, info):
    n_items = len(case["values"])
    N = n_items + case["more"]
    py = case["prior"] == "py"
    Model = PitmanYor if py else LowEntropy
    prior = Model.from_dict(dict(alpha=case["alpha"], d=case["d"]) if py else dict(dataset_size=N))
    feats = []
    for x in case["features"]:
        (f, m), = flavors(x["model"], ["lp"])
        info.label(x["model"])
        feats.append((x["model"], x["shared"], m, pm.make_shared(m, x["model"], x["shared"]), m.Mixture(), x["pool"]))
    clusters, ids = Model.Mixture(), MixtureIdTracker()
    clusters.init(prior, [0] * case["empties"])
    ids.init(case["empties"])
    for model, s, m, shared, mix, pool in feats:
        for _ in range(case["empties"]):
            mix.add_group(shared)
        mix.init(shared)
    groups = [dict(items=[], bags=[pm.Bag() for _ in feats], id=i) for i in range(case["empties"])]
    state = dict(next=case["empties"])
    where = {}

    def value(j, i):
        pool = feats[j][5]
        return pool[(case["values"][i] >> j) % len(pool)]

    def add(i, k):
        grown = clusters.add_value(prior, k)
        for j, (model, s, m, shared, mix, pool) in enumerate(feats):
            mix.add_value(shared, k, value(j, i))
        if grown:
            for model, s, m, shared, mix, pool in feats:
                mix.add_group(shared)
            ids.add_group()
        where[i] = ids.packed_to_global(k)
        if not groups[k]["items"]:
            groups.append(dict(items=[], bags=[pm.Bag() for _ in feats], id=state["next"]))
            state["next"] += 1
        groups[k]["items"].append(i)
        for j, b in enumerate(groups[k]["bags"]):
            b.add(value(j, i))

    def remove(i):
        k = ids.global_to_packed(where.pop(i))
        check(i in groups[k]["items"], "item %d is not in group %d", i, k)
        gone = clusters.remove_value(prior, k)
        for j, (model, s, m, shared, mix, pool) in enumerate(feats):
            mix.remove_value(shared, k, value(j, i))
        if gone:
            for model, s, m, shared, mix, pool in feats:
                mix.remove_group(shared, k)
            ids.remove_group(k)
        groups[k]["items"].remove(i)
        for j, b in enumerate(groups[k]["bags"]):
            b.remove(value(j, i))
        if not groups[k]["items"]:
            groups[k] = groups[-1]
            groups.pop()

    def conditional(i, checking):
        scores = np.zeros(len(clusters), dtype=np.float32)
        clusters.score_value(prior, scores)
        for j, (model, s, m, shared, mix, pool) in enumerate(feats):
            mix.score_value(shared, value(j, i), scores)
        if not checking:
            return scores
        n = len(where)
        sizes = [len(g["items"]) for g in groups]
        check(len(clusters) == len(groups), "%d groups, should be %d", len(clusters), len(groups))
        empty = sizes.count(0)
        for k, g in enumerate(groups):
            size = sizes[k]
            check(ids.packed_to_global(k) == g["id"], "group %d has id %d, should have %d", k, ids.packed_to_global(k), g["id"])
            if py:
                want = math.log((case["alpha"] + case["d"] * (len(groups) - empty)) / ((n + case["alpha"]) * empty) if size == 0 else (size - case["d"]) / (n + case["alpha"]))
                tol = 2.5e-4
            elif size == 0:
                q = n + 1.0
                want, tol = -math.log(empty) + (math.log(N / q) * (0.45 - 0.1 / q - 0.1 / N) if q < N else 0), 3e-4
            else:
                want, tol = size * math.log((size + 1.0) / size) + math.log(size + 1), 1e-4 * (size + 1)
            for j, (model, s, m, shared, mix, pool) in enumerate(feats):
                r = pm.ref_value(model, s, g["bags"][j], value(j, i))
                # bnb leaves out the binomial coefficient (a known finding of C05): the group's own score stands in
                own = pm.new_group(m, shared)
                if model == "bnb":
                    for v, c in g["bags"][j].items:
                        for _ in range(c):
                            own.add_value(shared, v)
                    want += own.score_value(shared, value(j, i))
                else:
                    want += r.v
                tol += 2 * r.tol("lp")
            close(float(scores[k]), want, tol + 1e-6 * (1 + abs(want)), "conditional score of item %d in group %d (%r)" % (i, k, sizes))
        return scores

    left = False
    for i, k in case["moves"]:
        if i in where:
            remove(i)
            left = True
            if k == -2:
                continue
        scores = conditional(i, True)
        if k < 0:
            k = sample_discrete_log(scores)
            check(0 <= k < len(groups), "sampled group %r of %d", k, len(groups))
        add(i, k % len(groups))
    for i in range(n_items):
        if i not in where:
            conditional(i, True)
            break
    if left and sum(1 for g in groups if g["items"]) > 1:
        info.nontrivial = True
