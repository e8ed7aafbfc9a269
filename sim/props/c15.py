"""Whatever its feed does, the service publishes what the definition of the iterated EWMA gives."""

import hashlib
import json

import numpy as np
import pandas as pd

from .. import interleave, kernel, world
from ..world import canon, diff

RUNS = {"quick": 2000, "thorough": 16000}
RULE = ("A case is a forecasting service fed row by row by a faulty feed (missing values, outages, late and dead assets, stuck zeros, bad ticks, "
        "corrected rows) that publishes at seeded moments, crashes and restarts. A reference that is fed one row at a time and keeps "
        "only its state (no history) has to agree with everything published. Non-trivial: forecasts were compared after a fault in the feed.")
PROBES = ["forecasts compared with the reference", "clipped row", "start-up period compared", "means compared", "service restarted", "long history",
          "corrected row", "defaults", "data updated in place"]
REAL = ["cvx.covariance.ewma"]
STUB = ["the feed"]
ASSUMPTIONS = ["some asset has a return in the first row", "with mean adjustment no asset has a constant return (the centred return is then "
               "rounding noise)"]


def generate(rng, tier):
    w = world.gen_world(rng, T=rng.choice([(8, 40), (8, 40), (8, 40), (50, 75)]), start=False, long=0.04)
    n, T = w["n"], w["T"]
    mean = rng.chance(0.4)
    sc = {"world": w, "what": rng.weighted([("iewma", 6), ("volatility", 2), ("center", 1)]),
          "hl": rng.choice([[3, 6], [8, 4], [5, 20], [2.5, 40], [1, 1], [63, 125], [0.5, 10]]),
          "kw": {"min_periods_vola": rng.choice([0, 1, 2, 5, 8]), "min_periods_cov": rng.choice([0, 1, 3, 6]), "mean": mean,
                 "clip_at": rng.choice([None, None, 1.5, 3.0, 4.2])}}
    if mean and rng.chance(0.5):
        sc["kw"].update(mu_halflife1=rng.choice([2, 7, 30]), mu_halflife2=rng.choice([3, 11]))
    if T >= 50 and rng.chance(0.5):
        # what is not asked for has its documented default
        for k in ("min_periods_vola", "min_periods_cov"):
            if rng.chance(0.6):
                sc["kw"].pop(k)
        if not mean and rng.chance(0.5):
            sc["kw"].pop("mean")
        if sc["kw"]["clip_at"] is None:
            sc["kw"].pop("clip_at")
    sc["plain"] = sc["what"] == "center" and rng.chance(0.2)  # mean adjustment is off unless asked for
    faults = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        kind = rng.choice(["tick", "tick", "jump", "corrected"] + (["missing", "outage", "scattered"] if sc["what"] == "iewma" else [])
                          + (["zeros"] if not mean else []) + (["late", "dead"] if n > 1 and sc["what"] == "iewma" and not mean else []))
        f = {"kind": kind, "at": rng.randint(1, T - 1), "asset": rng.randrange(n), "len": rng.choice([1, 1, 2, 5, 30]), "size": 10 ** rng.uniform(0, 4)}
        faults.append(f)
    sc["faults"] = faults
    sc["publish"] = sorted(rng.sample(range(1, T + 1), min(T, rng.randint(1, 4)))) + [T]
    sc["restart"] = [rng.chance(0.3) for _ in sc["publish"]]
    sc["keep"] = rng.chance(0.4)  # the service has one frame and updates it in place
    return sc


def feed(sc, upto=None):
    """the rows as they are known once `upto` rows are there: corrections arrive one row late"""
    w = sc["world"]
    R = world.make_returns(w)
    X = np.array(R.values)
    n, T = w["n"], w["T"]
    alive = world.g("alive", w["seed"]).integers(n)
    for f in sc["faults"]:
        a, t = f["asset"] % n, min(f["at"], T - 1)
        rows = slice(t, min(T, t + f["len"]))
        if f["kind"] in ("late", "dead") and a == alive:
            continue
        if f["kind"] == "tick":
            X[t, a] = f["size"] * w["scale"] * (1 if f["len"] % 2 else -1)
        elif f["kind"] == "jump":
            X[t:] *= min(f["size"], 50)
        elif f["kind"] == "missing":
            X[t, a] = np.nan
        elif f["kind"] == "outage":
            X[rows] = np.nan
        elif f["kind"] == "scattered":
            X[rows][world.g("sc", w["seed"], t).random(X[rows].shape) < 0.5] = np.nan
        elif f["kind"] == "zeros":
            X[rows, a] = 0.0
        elif f["kind"] == "late":
            X[:t, a] = np.nan
        elif f["kind"] == "dead":
            X[t:, a] = np.nan
        elif f["kind"] == "corrected" and upto is not None and upto == t + 1:
            X[t, a] = f["size"] * w["scale"]
    X[0, alive] = R.values[0, alive]
    return pd.DataFrame(X, index=R.index, columns=R.columns).iloc[: upto or T]


class Average:
    """a weighted mean with weights halving every half-life; knows its state only"""

    def __init__(self, halflife):
        self.decay = 0.5 ** (1.0 / halflife)
        self.total = 0.0
        self.weight = 0.0
        self.count = 0

    def add(self, x):
        self.total = self.decay * self.total + x
        self.weight = self.decay * self.weight + 1.0
        self.count += 1
        return self.value

    @property
    def value(self):
        return self.total / self.weight


class Reference:
    def __init__(self, n, hl, min_periods_vola, min_periods_cov, mean, clip_at, mu_halflife1=None, mu_halflife2=None):
        self.n, self.clip = n, clip_at
        self.m1 = Average(mu_halflife1 or hl[0]) if mean else None
        self.m2 = Average(mu_halflife2 or hl[1]) if mean else None
        self.var, self.cov = Average(hl[0]), Average(hl[1])
        self.mp = (min_periods_vola, min_periods_cov)
        self.clipped = False

    def feed(self, row):
        """volatility (None in the start-up period), (mean, covariance) or None, centred row"""
        x = np.nan_to_num(np.asarray(row, dtype=float))
        if self.m1 is not None:
            # the first row is its own mean
            first = self.m1.count == 0
            x = x - self.m1.add(x)
            if first:
                x = np.zeros(self.n)
        sq = x ** 2
        if self.clip and self.var.count >= self.mp[0] + 1:
            lim = self.clip ** 2 * self.var.value
            lim[lim == 0] = np.inf  # nothing but zeros so far
            self.clipped |= bool((sq > lim).any())
            sq = np.minimum(sq, lim)
        vola = np.sqrt(self.var.add(sq))
        if self.var.count < self.mp[0]:
            return None, None, x
        if not (vola > 0).any():
            return vola, None, x  # nothing is known about any asset
        with np.errstate(all="ignore"):
            z = np.where(vola > 0, x / np.where(vola > 0, vola, 1.0), 0.0)
        if self.clip:
            z = np.clip(z, -self.clip, self.clip)
        m = np.zeros(self.n)
        if self.m2 is not None:
            first = self.m2.count == 0
            mz = self.m2.add(z)
            z = np.zeros(self.n) if first else z - mz
            m = self.m1.value + vola * mz
        C = self.cov.add(np.outer(z, z))
        if self.cov.count < self.mp[1]:
            return vola, None, x
        d = np.sqrt(np.diag(C))
        # equal (clipped) returns so far, centred: whether anything is left is a matter of rounding
        self.noise = (d < 1e-10) if self.m2 is not None else np.zeros(self.n, dtype=bool)
        with np.errstate(all="ignore"):
            rho = np.where(np.outer(d, d) > 0, C / np.outer(d, d), np.nan)
            return vola, (m, rho * np.outer(vola, vola)), x


def publish(sc, R):
    from cvx.covariance.ewma import center, iterated_ewma, volatility

    kw = dict(sc["kw"])
    few = {"min_periods": kw["min_periods_vola"]} if "min_periods_vola" in kw else {}
    if sc["what"] == "volatility":
        few.update({"clip_at": kw["clip_at"]} if "clip_at" in kw else {})
        V = volatility(R, halflife=sc["hl"][0], **few)
        return [{"time": world._lab(t), "volatility": canon(V.loc[t])} for t in V.index]
    if sc["what"] == "center":
        C, M = center(R, halflife=sc["hl"][0], **few, **({} if sc["plain"] else {"mean_adj": True}))
        return [{"time": world._lab(t), "mean": canon(M.loc[t]), "centred": canon(C.loc[t])} for t in C.index]
    return [canon(r) for r in iterated_ewma(R, *sc["hl"], **kw)]


# the defaults as they are documented in the signatures
DEFAULTS = {"iewma": {"min_periods_vola": 20, "min_periods_cov": 20, "mean": False, "clip_at": None},
            "volatility": {"min_periods_vola": 0, "min_periods_cov": 0, "mean": False, "clip_at": None},
            "center": {"min_periods_vola": 0, "min_periods_cov": 0, "mean": False, "clip_at": None}}


def attempt(sc, R, due):
    try:
        return publish(sc, R)
    except Exception:
        if due:
            raise
        return []  # too few rows for any forecast: an error is an answer


def execute(sc, ctx):
    w, kw = sc["world"], dict(DEFAULTS[sc["what"]], **sc["kw"])
    if len(sc["kw"]) < 4:
        ctx.probe("defaults")
    T = w["T"]
    for f in sc["faults"]:
        ctx.fault("feed: " + f["kind"])
    compared = 0
    keep = world.Keeper(sc.get("keep"), ctx)
    wrong = world.g("wrong", w["seed"])
    for j, upto in enumerate(sc["publish"]):
        if upto > T:
            continue
        R = feed(sc, upto)
        if sc.get("keep"):
            if not sc["restart"][j] and upto > 2 and wrong.random() < 0.5:
                # an older row was wrong when the same number of rows was published first
                bad = R.copy()
                bad.iloc[int(wrong.integers(1, upto - 1)), int(wrong.integers(w["n"]))] = 30.0 * w["scale"] * wrong.normal()
                attempt(sc, keep("R", bad), False)
                ctx.fault("feed: corrected in place")
            R = keep("R", R)
        if any(f["kind"] == "corrected" and f["at"] + 1 < upto for f in sc["faults"]):
            ctx.probe("corrected row")
        ref_kw = dict(kw)
        if sc["what"] != "iewma":
            ref_kw["mean"] = sc["what"] == "center"
            for k in ("mu_halflife1", "mu_halflife2"):
                ref_kw.pop(k, None)
        ref = Reference(w["n"], sc["hl"], **ref_kw)
        want, noise = [], {}
        for t, row in zip(R.index, R.values):
            vola, res, x = ref.feed(row)
            lab = world._lab(t)
            if sc["what"] == "volatility":
                if vola is not None:
                    want.append({"time": lab, "volatility": {"v": vola}})
            elif sc["what"] == "center" and sc["plain"]:
                want.append({"time": lab, "mean": {"v": np.zeros(w["n"])}, "centred": {"v": np.asarray(row, dtype=float)}})
            elif sc["what"] == "center":
                if ref.m1.count >= kw["min_periods_vola"]:
                    want.append({"time": lab, "mean": {"v": ref.m1.value}, "centred": {"v": x}})
            elif res is not None:
                want.append({"time": lab, "mean": {"v": res[0]}, "covariance": {"v": res[1]}, "volatility": {"v": vola}})
                noise[lab] = ref.noise
        if ref.clipped:
            ctx.probe("clipped row")
        if upto <= 12:
            ctx.probe("start-up period compared")
        if upto > 100:
            ctx.probe("long history")
        if sc["restart"][j]:
            ctx.probe("service restarted")
            ctx.fault("crash and restart")
            got = kernel.pristine(lambda: attempt(sc, R, bool(want)))
        else:
            got = attempt(sc, R, bool(want))
        ctx.ops += 1
        ctx.simtime += upto
        ctx.event("published", upto, got)
        if [g["time"] for g in got] != [x["time"] for x in want]:
            ctx.violate("wrong-times", f"{sc['what']} {sc['hl']} {kw} with {upto} rows: {len(got)} forecasts from {[g['time'] for g in got[:2]]}, the definition gives "
                        f"{len(want)} from {[x['time'] for x in want[:2]]}")
        for g, x in zip(got, want):
            for k, v in x.items():
                if k == "time":
                    continue
                a = np.asarray(g[k]["v"], dtype=float)
                if k == "mean":
                    ctx.probe("means compared")
                if k == "covariance" and noise[g["time"]].any():
                    ok = ~noise[g["time"]]
                    a, v = a[np.ix_(ok, ok)], {"v": v["v"][np.ix_(ok, ok)]}
                d = diff({"v": a}, v, TOL, "." + k)
                if d:
                    ctx.violate("not-the-definition", f"{sc['what']} {sc['hl']} {kw} at {g['time']} with {upto} rows, {k} (published / definition): {d}")
            compared += 1
    ctx.probe("forecasts compared with the reference", compared)
    ctx.nontrivial = compared > 0 and bool(sc["faults"])
    ctx.interleaving = hashlib.sha256(json.dumps([sc["faults"], sc["publish"], sc["hl"], kw], sort_keys=True).encode()).hexdigest()[:16]


TOL = world.Tol(1e-6, 1e-6, 1e-13)


def shrink(sc):
    for x in interleave.chunks_removed(sc["faults"], 1):
        yield dict(sc, faults=x)
    if len(sc["publish"]) > 1:
        for i in range(len(sc["publish"])):
            yield dict(sc, publish=[sc["publish"][i]], restart=[sc["restart"][i]])
    for i in range(len(sc["restart"])):
        if sc["restart"][i]:
            yield dict(sc, restart=[False if j == i else x for j, x in enumerate(sc["restart"])])
    if sc.get("keep"):
        yield dict(sc, keep=False)
    w = sc["world"]
    for T in (w["T"] // 2, w["T"] - 4, w["T"] - 1):
        if 8 <= T < w["T"]:
            yield dict(sc, world=dict(w, T=T), publish=[min(x, T) for x in sc["publish"]])
    for ch in ({"index": "int"}, {"heavy": False}, {"assets": "str"}, {"scale": 0.01}, {"uneven": False}):
        if any(w.get(k) != v for k, v in ch.items()):
            yield dict(sc, world=dict(w, **ch))
    kw = sc["kw"]
    if kw.get("clip_at"):
        yield dict(sc, kw=dict(kw, clip_at=None))
    if "mu_halflife1" in kw:
        yield dict(sc, kw={k: v for k, v in kw.items() if not k.startswith("mu_")})
