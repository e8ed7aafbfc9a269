"""A bad tick has bounded, decaying influence on EWMA volatility."""

import hashlib
import json

import numpy as np
import pandas as pd

from .. import interleave, kernel, world

RUNS = {"quick": 2000, "thorough": 20000}
RULE = ("A case is a volatility estimate (volatility, or the volatility of the iterated EWMA predictor) on data with one bad tick of "
        "one asset, or a few of them, of 1 to 10^6 standard deviations, next to the estimate without it. Non-trivial: the tick "
        "changed the estimate.")
PROBES = ["decay checked", "clipped tick", "tick in the start-up period", "tick at the last row", "several ticks", "data updated in place"]
REAL = ["cvx.covariance.ewma"]
STUB = []
ASSUMPTIONS = ["zero-mean estimation for the decay and the bound"]


def generate(rng, tier):
    w = world.gen_world(rng, T=(10, 60), start=False, long=0.05)
    T = w["T"]
    mp = rng.choice([0, 1, 2, 5, 8])
    sc = {"world": w, "via": rng.choice(["volatility", "iewma", "iewma-mean"]), "hl": rng.choice([1, 2, 3.3, 8, 21]), "mp": mp,
          "clip": rng.choice([None, None, 1.5, 3.0, 4.2]), "asset": rng.randrange(w["n"])}
    m = rng.weighted([(1, 6), (2, 2), (4, 1)])
    at = rng.weighted([(rng.sample(range(T), m), 5), (sorted(rng.sample(range(max(m, T // 2)), m)), 2), ([T - 1], 0.6)])
    sc["ticks"] = [[t, rng.choice([-1, 1]) * 10 ** rng.uniform(0, 6)] for t in sorted(at)]
    sc["keep"] = rng.chance(0.3)
    return sc


def estimate(sc, R):
    from cvx.covariance.ewma import iterated_ewma, volatility

    if sc["via"] == "volatility":
        V = volatility(R, halflife=sc["hl"], min_periods=sc["mp"], clip_at=sc["clip"])
        return {lab: V.loc[lab] for lab in V.index}
    kw = {"mean": sc["via"] == "iewma-mean"}
    return {r.time: r.volatility for r in iterated_ewma(R, sc["hl"], 9, min_periods_vola=sc["mp"], min_periods_cov=1, clip_at=sc["clip"], **kw)}


def execute(sc, ctx):
    w = sc["world"]
    R = world.make_returns(w)
    X = np.array(R.values)
    a = sc["asset"]
    T = len(R)
    old = X.copy()
    for t, size in sc["ticks"]:
        X[t, a] = size * w["scale"]
        ctx.fault("bad tick")
    B = pd.DataFrame(X, index=R.index, columns=R.columns)
    if sc.get("pristine", True):
        clean = kernel.pristine(lambda: estimate(sc, R))
    if sc.get("keep"):  # the same frame was clean when it was used first
        keep = world.Keeper(True, ctx)
        estimate(sc, keep("R", R.copy()))
        B = keep("R", B)
    bad = estimate(sc, B)
    ctx.ops += 2
    ctx.event("estimates", [(str(k), v.values) for k, v in bad.items()])
    if list(clean) != list(bad):
        ctx.violate("times-differ", f"{len(clean)} / {len(bad)} times")
    first = sc["ticks"][0][0]
    if len(sc["ticks"]) > 1:
        ctx.probe("several ticks")
    if first < sc["mp"]:
        ctx.probe("tick in the start-up period")
    if sc["ticks"][-1][0] == T - 1:
        ctx.probe("tick at the last row")
    beta = float(np.exp(-np.log(2) / sc["hl"]))
    zero_mean = sc["via"] != "iewma-mean"
    for i, lab in enumerate(R.index):
        if lab not in bad:
            continue
        ctx.simtime += 1
        x, y = bad[lab].values.astype(float), clean[lab].values.astype(float)
        for j in range(w["n"]):
            if j == a and i >= first:
                continue
            if not world.close(x[j], y[j], 1e-8, 1e-14 * w["scale"]):
                ctx.violate("unrelated-volatility-changed", f"{sc['via']}: ticks {sc['ticks']} of asset {a} change asset {j} at row {i}: {x[j]} / {y[j]}")
        if i < first or not zero_mean:
            continue
        ctx.nontrivial = True
        vx, vy = x[a] ** 2, y[a] ** 2
        if not sc["clip"]:
            want = sum(beta ** (i - t) * (X[t, a] ** 2 - old[t, a] ** 2) for t, _ in sc["ticks"] if t <= i) * (1 - beta)
            have = (vx - vy) * (1 - beta ** (i + 1))
            scale = max(vx, vy)
            if abs(want - have) > 1e-7 * max(abs(want), 1e-3 * scale) + 1e-9 * scale:
                ctx.violate("no-decay", f"{sc['via']} half-life {sc['hl']}: {i - sc['ticks'][0][0]} steps after the tick its effect on the variance "
                            f"is {have}, it should be {want}")
            ctx.probe("decay checked")
    if sc["clip"] and zero_mean:
        c = sc["clip"]
        labs = list(R.index)
        for i in range(max(1, sc["mp"] + 1), T):
            if labs[i] not in bad or labs[i - 1] not in bad:
                continue
            new = (1 - beta) / (1 - beta ** (i + 1))
            p, q = float(bad[labs[i - 1]].iloc[a]) ** 2, float(bad[labs[i]].iloc[a]) ** 2
            if not (np.isfinite(p) and np.isfinite(q)):
                continue
            bound = p * (1 + new * (c * c - 1))
            if q > bound * (1 + 1e-7):
                ctx.violate("clip-exceeded", f"{sc['via']} clip {c}, half-life {sc['hl']}, start-up {sc['mp']}: the squared volatility grows by "
                            f"{q / p} at row {i}, allowed {bound / p}; ticks {sc['ticks']}")
            if any(t == i for t, _ in sc["ticks"]):
                ctx.probe("clipped tick")
                if abs(X[i, a]) > c * np.sqrt(p) * 1.001 and q < bound * (1 - 1e-6):
                    ctx.violate("clip-too-strong", f"{sc['via']} clip {c}: an excessive tick raises the squared volatility by {q / p}, {bound / p} expected")
    ctx.interleaving = hashlib.sha256(json.dumps([sc["ticks"], sc["via"]]).encode()).hexdigest()[:16]


def shrink(sc):
    for x in interleave.chunks_removed(sc["ticks"], 1):
        yield dict(sc, ticks=x)
    if sc.get("keep"):
        yield dict(sc, keep=False)
    for ch in ({"clip": None}, {"via": "volatility"}, {"mp": 0}):
        if any(sc[k] != v for k, v in ch.items()):
            yield dict(sc, **ch)
    w = sc["world"]
    for ch in ({"T": max(8, w["T"] // 2)}, {"index": "int"}, {"heavy": False}, {"assets": "str"}):
        if any(w[k] != v for k, v in ch.items()) and all(t < ch.get("T", w["T"]) for t, _ in sc["ticks"]):
            yield dict(sc, world=dict(w, **ch))
