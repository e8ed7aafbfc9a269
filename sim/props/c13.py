"""A data outage costs only itself."""

import hashlib
import json

import numpy as np
import pandas as pd

from .. import interleave, kernel, world
from ..world import canon, diff

RUNS = {"quick": 1100, "thorough": 10000}
RULE = ("A case is a forecast run on data with seeded outages (gaps, long outages, staggered ones, late starts, dead assets, all assets "
        "at once) next to the same run with zeros in place of the missing values and the one without any outage. Non-trivial: "
        "some value was missing.")
PROBES = ["outage of all assets", "outage longer than the lookback", "asset that starts late", "asset dead from some time on", "dead asset",
          "other assets compared", "data updated in place"]
REAL = ["cvx.covariance.ewma", "cvx.covariance.combination", "cvxpy", "Clarabel (compiled)"]
STUB = []
ASSUMPTIONS = ["some asset has data in the first row", "for the combined predictor the outages begin after its start-up (before, an asset "
               "without any return has no variance and the forecasts of the experts are undefined)"]


def generate(rng, tier):
    via = rng.choice(["iewma", "iewma", "ewmas"])
    n = rng.choice([2, 2, 3, 4])
    w = world.gen_world(rng, n=n, T=(14, 40), start=False, long=0.03)
    sc = {"world": w, "via": via}
    if via == "ewmas":
        w["T"] = max(w["T"], 22 + 2 * n)
        pairs = [list(p) for p in rng.sample([(5, 5), (5, 20), (8, 30), (12, 12), (20, 60)], rng.choice([1, 2, 3]))]
        lo = -(-(len(pairs) + 2) // n) + 2
        sc.update(pairs=pairs, window=lo + rng.choice([0, 2, 4]),
                  kw={"min_periods_vola": 3, "min_periods_cov": 3 + n, "clip_at": rng.choice([None, 3.0]), "mean": rng.chance(0.3)})
        first = 6 + n
    else:
        sc.update(hl=list(rng.choice([(3, 6), (8, 4), (5, 20)])),
                  kw={"min_periods_vola": rng.choice([1, 2, 5]), "min_periods_cov": rng.choice([1, 3]), "mean": rng.chance(0.4),
                      "clip_at": rng.choice([None, 2.5])})
        first = 0
    T = w["T"]
    out = []
    for _ in range(rng.weighted([(1, 5), (2, 3), (4, 1)])):
        kind = rng.choice(["gap", "gap", "long", "all", "scattered", "tail"] + (["late", "late", "dead"] if first == 0 else []))
        a = rng.randrange(n)
        s = rng.randint(first, T - 1)
        o = {"kind": kind, "assets": [a], "from": s, "to": min(T, s + rng.choice([1, 1, 2, 3]))}
        if kind == "long":
            o["to"] = min(T, s + (rng.randint(4, 14) if T < 100 or rng.chance(0.3) else rng.randint(15, 130)))
        elif kind == "all":
            o["assets"] = list(range(n))
            o["from"] = max(1, s)
            o["to"] = min(T, o["from"] + rng.choice([1, 2, 5, 12]))
        elif kind == "scattered":
            o["assets"] = sorted(rng.sample(range(n), rng.randint(1, n - 1)))
            o["p"] = 0.4
            o["to"] = T
            o["key"] = rng.randrange(1 << 30)
        elif kind == "tail":
            o["to"] = T
            o["from"] = max(s, T - 14)
        elif kind == "late":
            o.update({"from": 0, "to": rng.choice([1, 1, 2, rng.randint(1, T - 1), rng.randint(1, T - 1)])})
        elif kind == "dead":
            o.update({"from": 0, "to": T})
        out.append(o)
    # somebody is there in the first row
    alive = rng.randrange(n)
    for o in out:
        if o["from"] == 0:
            o["assets"] = [x for x in o["assets"] if x != alive]
    sc["outages"] = [o for o in out if o["assets"]] or [{"kind": "gap", "assets": [(alive + 1) % n], "from": T // 2 + 3, "to": T // 2 + 4}]
    sc["keep"] = rng.chance(0.3)
    return sc


def mask(sc):
    w = sc["world"]
    M = np.zeros((w["T"], w["n"]), dtype=bool)
    for o in sc["outages"]:
        for t in range(o["from"], min(o["to"], w["T"])):
            for a in o["assets"]:
                if "p" not in o or world.g("scatter", o["key"], t, a).random() < o["p"]:
                    M[t, a] = True
    return M


def run(sc, R):
    if sc["via"] == "iewma":
        from cvx.covariance.ewma import iterated_ewma

        return [canon(r) for r in iterated_ewma(R, *sc["hl"], **sc["kw"])]
    from cvx.covariance.combination import from_ewmas

    return [canon(r) for r in from_ewmas(R, [tuple(p) for p in sc["pairs"]], **sc["kw"]).solve(window=sc["window"])]


def execute(sc, ctx):
    w = sc["world"]
    M = mask(sc)
    R = world.make_returns(w)
    Z = pd.DataFrame(np.where(M, 0.0, R.values), index=R.index, columns=R.columns)
    N = pd.DataFrame(np.where(M, np.nan, R.values), index=R.index, columns=R.columns)
    ctx.nontrivial = bool(M.any())
    for o in sc["outages"]:
        ctx.fault("outage: " + o["kind"])
        if o["kind"] == "late":
            ctx.probe("asset that starts late")
        if o["kind"] == "tail":
            ctx.probe("asset dead from some time on")
        if o["kind"] == "dead":
            ctx.probe("dead asset")
        if o["kind"] == "all":
            ctx.probe("outage of all assets")
            if sc["via"] == "ewmas" and o["to"] - o["from"] > sc["window"]:
                ctx.probe("outage longer than the lookback")
    zero = kernel.pristine(lambda: run(sc, Z))
    full = kernel.pristine(lambda: run(sc, R))
    if sc.get("keep"):  # the same frame was complete when it was used first
        keep = world.Keeper(True, ctx)
        run(sc, keep("R", R.copy()))
        N = keep("R", N)
    got = run(sc, N)
    ctx.event("got", got)
    ctx.ops += 3
    t_full = [r and r["time"] for r in full]
    for name, other in (("zeros in place of the missing returns", zero), ("no outage", full)):
        if len(got) != len(other):
            ctx.violate("stream-ended", f"{sc['via']}: {len(got)} results with the outage, {len(other)} with {name}")
        for i, (x, y) in enumerate(zip(got, other)):
            if x is not None and y is not None and x["time"] != y["time"]:
                ctx.violate("stream-shifted", f"{sc['via']} result {i}: {x['time']}, with {name} {y['time']}")
    tol = world.SAME if sc["via"] == "iewma" else world.LOOSE
    pos = {world._lab(t): i for i, t in enumerate(R.index)}
    for i, (x, y, f) in enumerate(zip(got, zero, full)):
        ctx.simtime += 1
        if x is None or y is None:
            if (x is None) != (y is None):
                ctx.probe("solver gave up in only one of the runs")
            continue
        d = diff(x, y, tol)
        if d:
            ctx.violate("not-like-zeros", f"{sc['via']} {sc['outages']} at {x['time']} (missing / zeros): {d}")
        if sc["via"] != "iewma":
            continue
        # an asset that trades has a volatility, no matter how long it was away
        if not sc["kw"]["mean"]:
            traded = (Z.values[: pos[x["time"]] + 1] != 0).any(axis=0)
            v = np.asarray(x["volatility"]["v"], dtype=float)
            if (~(v[traded] > 0)).any():
                ctx.violate("never-back", f"{sc['outages']} at {x['time']}: volatilities {v}, assets that have traded: {traded.tolist()}")
        # assets without any outage so far
        ok = ~M[: pos[x["time"]] + 1].any(axis=0)
        if ok.any():
            ctx.probe("other assets compared")
            for fld in ("volatility", "mean"):
                if fld == "mean" and not sc["kw"]["mean"]:
                    continue
                a = {"v": np.asarray(x[fld]["v"], dtype=float)[ok]}
                b = {"v": np.asarray(f[fld]["v"], dtype=float)[ok]}
                d = diff(a, b, world.SAME, "." + fld)
                if d:
                    ctx.violate("other-asset-changed", f"{sc['outages']} at {x['time']} (outage / no outage): {d}")
            a = {"v": x["covariance"]["v"][np.ix_(ok, ok)]}
            b = {"v": f["covariance"]["v"][np.ix_(ok, ok)]}
            d = diff(a, b, world.SAME, ".covariance")
            if d:
                ctx.violate("other-asset-changed", f"{sc['outages']} at {x['time']} (outage / no outage): {d}")
    ctx.interleaving = hashlib.sha256(json.dumps(sc["outages"], sort_keys=True).encode()).hexdigest()[:16]


def shrink(sc):
    for x in interleave.chunks_removed(sc["outages"], 1):
        yield dict(sc, outages=x)
    for i, o in enumerate(sc["outages"]):
        if o["to"] - o["from"] > 1:
            for to in (o["from"] + 1, (o["from"] + o["to"]) // 2, o["to"] - 1):
                if to > o["from"]:
                    yield dict(sc, outages=[dict(x, to=to) if j == i else x for j, x in enumerate(sc["outages"])])
        if len(o["assets"]) > 1:
            for a in o["assets"]:
                yield dict(sc, outages=[dict(x, assets=[y for y in o["assets"] if y != a]) if j == i else x for j, x in enumerate(sc["outages"])])
    if sc.get("keep"):
        yield dict(sc, keep=False)
    w = sc["world"]
    for ch in ({"index": "int"}, {"heavy": False}, {"assets": "str"}, {"scale": 0.01}):
        if any(w[k] != v for k, v in ch.items()):
            yield dict(sc, world=dict(w, **ch))
    kw = sc["kw"]
    for ch in ({"mean": False}, {"clip_at": None}):
        if any(kw[k] != v for k, v in ch.items()):
            yield dict(sc, kw=dict(kw, **ch))
