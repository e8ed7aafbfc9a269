"""A publisher recomputes histories over and over while data arrives; its ledger must never contradict itself.

Shared by C06 (core predictors) and C14 (research predictors, backtests).  Data comes in branches: histories that agree up
to some day and then differ in a hostile way.  A forecast for a time may depend on the rows up to that time only (or up to
the day before, for the causal predictors), so the ledger is keyed by the identity of exactly those rows.
"""

from __future__ import annotations

import hashlib
import json

import numpy as np
import pandas as pd

from . import interleave, kernel, seams, world
from .world import canon, diff

CORE = ["iewma", "iewma", "vola", "center", "sigmas", "sigmas", "ewmas", "ewmas"]
RESEARCH = ["lowrank", "rolling", "rolling", "realized", "ewmapred", "dailypred", "rho", "retcomb", "retcomb", "vola", "factor", "trader",
            "backtest", "backtest", "olscomb", "oldcomb", "tune"]
NAN_OK = {"iewma", "ewmas", "ewmapred", "dailypred", "rho"}
LONG = {"iewma", "vola", "center", "rolling", "realized", "ewmapred", "dailypred", "rho", "sigmas"}
HUGE_OK = {"iewma", "vola", "center", "ewmapred", "dailypred", "rho"}


# -- data ------------------------------------------------------------------------------------------------------------


def row_ids(w, b, upto):
    """identity of the rows 0..upto-1 in branch b"""
    d = b["from"]
    return [(0, t) if t < d else (b["id"], t) for t in range(upto)]


def data(w, b, upto, m=1):
    """Returns of branch b up to (excluding) row `upto`."""
    R = world.make_returns(dict(w, T=upto))
    X = np.array(R.values)
    scale = w.get("scale", 0.01)
    for t in range(b["from"], upto):
        if b["id"] == 0:
            break
        r = world.g("branch", w["seed"], b["id"], t)
        kind = b["kind"]
        x = r.normal(size=w["n"]) * scale
        if kind == "outlier" and t < b["from"] + b.get("len", 1):
            x = x * b.get("size", 1e3)
        elif kind == "huge" and t < b["from"] + b.get("len", 1):
            x = x * 1e6
        elif kind == "zero" and t < b["from"] + b.get("len", 1):
            x = x * 0.0
        elif kind == "nan" and t < b["from"] + b.get("len", 3):
            x = np.where(r.random(w["n"]) < 0.6, np.nan, x)
        elif kind == "flip":
            x = -X[t]
        elif kind == "trend":
            x = x + 3 * scale * (1 + t - b["from"])
        X[t] = x
    for a, first, how in w.get("late", []):
        X[:first, a] = np.nan if how == "nan" else 0.0
    idx = world.make_index(w.get("index", "bdate"), world.TMAX)[:upto]
    return pd.DataFrame(X, index=idx, columns=R.columns)


def experts(w, b, upto):
    R = data(w, b, upto)
    scale2 = w.get("scale", 0.01) ** 2
    sig, mus = {}, {}
    for k in range(w["K"]):
        rk = world.g("exp", w["seed"], w["n"], k)
        base = world.rand_spd(rk, w["n"])
        d, m = {}, {}
        for t, (bid, _) in enumerate(row_ids(w, b, upto)):
            if t < w.get("start", 0):
                continue
            rt = world.g("exp", w["seed"], w["n"], k, t, bid)
            boost = 1e4 if bid and b["kind"] in ("outlier", "huge") and rt.random() < 0.3 else 1.0
            if w.get("slow"):
                S = base * float(np.exp(4e-4 * t)) + 2e-4 * world.rand_spd(rt, w["n"])
            else:
                S = (base * float(np.exp(0.3 * rt.normal())) + 0.3 * world.rand_spd(rt, w["n"])) * boost
            d[R.index[t]] = pd.DataFrame(S * scale2, index=R.columns, columns=R.columns)
            mu = 0.2 * rt.normal(size=w["n"]) * np.sqrt(scale2)
            m[R.index[t]] = pd.Series(mu, index=R.columns)
        name = world.expert_name(w, k)
        sig[name], mus[name] = d, m
    return R, sig, (mus if w.get("means") else None)


def bad_after(w, b, t):
    """is there anything extreme in the data before t"""
    return b["id"] and b["from"] <= t and b["kind"] in ("outlier", "huge", "zero", "trend", "nan")


# -- predictors: label -> value, plus how many rows (from the start) the value may depend on ---------------------------


def _rows(index, label):
    return {lab: i for i, lab in enumerate(index)}[label]


def predict(w, spec, b, upto, tail=None, keep=lambda name, x: x):
    """[(row number, number of leading rows it may depend on, extra key, canonical value)]"""
    k = spec["p"]
    out = []
    if k in ("sigmas", "ewmas"):
        from cvx.covariance.combination import from_ewmas, from_sigmas

        if k == "sigmas":
            R, sig, mus = experts(w, b, upto)
            R, sig, mus = keep("R", R), keep("sigmas", sig), keep("means", mus)
            comb = from_sigmas(sigmas=sig, returns=R, means=mus)
        else:
            R = keep("R", data(w, b, upto))
            comb = from_ewmas(R, [tuple(p) for p in spec["pairs"]], **spec["kw"])
        pos = {lab: i for i, lab in enumerate(R.index)}
        labels = list(next(iter(comb.sigmas.values())))[1:]
        kw = {}
        n = len(labels)
        if n == 0:
            return []
        eff = min(spec["window"] or n, n)
        if tail is not None and tail < n:
            kw["times"] = labels[n - tail:]
        for i, res in enumerate(comb.solve(window=spec["window"], **kw)):
            if res is None:
                continue
            t = pos[res.time]
            out.append((t, t + 1, eff, canon(res)))
        return out
    R = keep("R", data(w, b, upto))
    pos = {lab: i for i, lab in enumerate(R.index)}
    if k == "iewma":
        from cvx.covariance.ewma import iterated_ewma

        for res in iterated_ewma(R, *spec["hl"], **spec["kw"]):
            out.append((pos[res.time], pos[res.time] + 1, 0, canon(res)))
    elif k == "lowrank":
        from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

        for res in low_rank_iterated_ewma(R, *spec["hl"], spec["rank"], **spec["kw"]):
            out.append((pos[res.time], pos[res.time] + 1, 0, canon(res)))
    elif k == "vola":
        from cvx.covariance.ewma import volatility

        F = volatility(R, halflife=spec["hl"][0], min_periods=spec["mp"], clip_at=spec["clip"])
        for lab, row in F.iterrows():
            out.append((pos[lab], pos[lab] + 1, 0, canon(row)))
    elif k == "center":
        from cvx.covariance.ewma import center

        C, M = center(R, halflife=spec["hl"][0], min_periods=spec["mp"], mean_adj=True)
        for lab, row in C.iterrows():
            out.append((pos[lab], pos[lab] + 1, "centred", canon(row)))
        for lab, row in M.iterrows():
            out.append((pos[lab], pos[lab] + 1, "mean", canon(row)))
    elif k == "rolling":
        from experiments.utils.experiment_utils import rolling_window

        for lab, S in rolling_window(R, memory=spec["memory"], min_periods=spec["mp"]).items():
            out.append((pos[lab], pos[lab] + 1, 0, canon(S)))
    elif k == "realized":
        from experiments.utils.experiment_utils import realized_ewma, realized_volas

        m = 3
        T = len(R) // m
        days = world.make_index("bdate", world.TMAX)[:T]
        D = pd.DataFrame(R.values[: T * m], index=np.repeat(days, m), columns=R.columns)
        dpos = {lab: i for i, lab in enumerate(days)}
        if T >= 2:
            for lab, S in realized_ewma(D, spec["hl"][0], **spec["kw"]):
                out.append((dpos[lab], (dpos[lab] + 1) * m, 0, canon(S)))
            for lab, v in realized_volas(D):
                out.append((dpos[lab], (dpos[lab] + 1) * m, "vola", canon(v)))
    elif k in ("ewmapred", "dailypred"):
        from experiments.utils.return_combination import daily_predictors, ewma_predictors

        s = R.iloc[:, 0]
        F = ewma_predictors(s, spec["hls"]) if k == "ewmapred" else daily_predictors(s, spec["lags"])
        for lab, row in F.iterrows():
            out.append((pos[lab], pos[lab], 0, canon(row)))
    elif k == "rho":
        from experiments.utils.trading_model import construct_rho

        for lab, row in construct_rho(R, n_devs=spec["devs"]).iterrows():
            out.append((pos[lab], pos[lab], 0, canon(row)))
    elif k == "retcomb":
        from experiments.utils.return_combination import ReturnCombinator, ewma_predictors

        if upto < spec["memory"] + 3:
            return None  # not enough data to ask
        preds = [ewma_predictors(R[a], spec["hls"]) for a in R.columns]
        hats, weights = ReturnCombinator().fit(R, preds, spec["memory"], spec["alpha"])
        for lab, row in hats.iterrows():
            out.append((pos[lab], pos[lab], "hat", canon(row)))
        for i, wt in enumerate(weights):
            for lab, row in wt.iterrows():
                out.append((pos[lab], pos[lab], f"beta{i}", canon(row)))
    elif k == "olscomb":
        from experiments.utils.return_combination import ewma_predictors, ewma_return_combination

        if upto < spec["memory"] + 3:
            return None  # not enough data to ask
        s = R.iloc[:, 0]
        P = ewma_predictors(s, spec["hls"])
        hat, wts = ewma_return_combination(s.iloc[1:], P, 1e-6 * w.get("scale", 0.01) ** 2, spec["memory"])
        for lab, v in hat.items():
            out.append((pos[lab], pos[lab], "hat", canon(float(v))))
    elif k == "oldcomb":
        from experiments.utils.return_combination import ReturnCombinatorOld, ewma_predictors

        if upto < spec["memory"] + 3:
            return None  # not enough data to ask
        comb = ReturnCombinatorOld()
        comb.build(spec["memory"], len(spec["hls"]), 1e-6 * w.get("scale", 0.01) ** 2)
        for a in R.columns:  # one built model serves all assets
            hat, wts = comb.fit(R[a], ewma_predictors(R[a], spec["hls"]))
            for lab, v in hat.items():
                out.append((pos[lab], pos[lab], f"hat {a}", canon(float(v))))
    elif k == "tune":
        from experiments.utils.return_combination import ewma_predictors, tune_alpha

        if upto < spec["memory"] + 3:
            return None  # not enough data to ask
        R1 = R.iloc[:, :1]
        got = tune_alpha(R1, [ewma_predictors(R1.iloc[:, 0], spec["hls"])], [0.01, 0.5], spec["memory"])
        for alpha, weights in zip([0.01, 0.5], got[3]):
            for lab, row in weights[0].iterrows():
                out.append((pos[lab], pos[lab], f"beta {alpha}", canon(row)))
    elif k == "factor":
        seams.install_linalg_stub()
        from experiments.utils.factor_model import construct_cmiewma_factor_model

        if upto <= spec["memory"] + 1:
            return None
        for fm in construct_cmiewma_factor_model(R, 2, [tuple(p) for p in spec["pairs"]], update_frequency=spec["every"], memory=spec["memory"]):
            full = fm.exposure.T @ fm.factor_covariance @ fm.exposure + np.diag(fm.diagonal)
            out.append((pos[fm.time], pos[fm.time] + 1, 0, canon(full)))
    elif k == "trader":
        from experiments.utils.trading_model import Trader

        R, sig, _ = experts(dict(w, K=1, start=0), b, upto)
        # the covariances of this predictor are forecasts made the day before: those of row t-1
        lab = list(R.index)
        S = sig[world.expert_name(w, 0)]
        causal = {lab[t]: S[lab[max(0, t - 1)]] for t in range(len(lab))}
        hats = pd.DataFrame(0.1 * R.shift(1).fillna(0.0).values, index=R.index, columns=R.columns)
        tr = Trader(R, causal, r_hats=hats)
        tr.backtest(portfolio_type=spec["type"], additonal_cons={"short_lim": 1.6, "upper_bound": 0.9, "lower_bound": -0.4},
                    sigma_des=spec["sigma"])
        for i, t in enumerate(lab):
            out.append((pos[t], max(1, pos[t]), 0, {"weights": np.array(tr.ws[i])}))
    elif k == "backtest":
        from cvx.covariance.ewma import iterated_ewma
        from experiments.utils import portfolio_backtests as pb

        # two predictors: one of them by a service that revises nothing
        S = {r.time: r.covariance for r in iterated_ewma(R, *spec["hl"], **spec["kw"])}
        S2 = {r.time: r.covariance for r in iterated_ewma(R, *spec["hl"][::-1], **spec["kw"])}
        if len(S) < 4:
            return None
        typ = spec["type"]
        cls = {"min_risk": pb.MinRisk, "risk_parity": pb.RiskParity, "max_diverse": pb.MaxDiverse, "eq_weighted": pb.EqWeighted,
               "mean_variance": pb.MeanVariance}[typ]
        names, preds = ["x", "y"][: spec.get("preds", 1)], [S, S2][: spec.get("preds", 1)]
        args, kw, more = [], {}, []
        if typ in ("min_risk", "max_diverse", "mean_variance"):
            args = [{"short_lim": 1.6, "upper_bound": 0.9, "lower_bound": -0.4}]
        if typ == "mean_variance":
            # return forecasts from the return of the same day, which is known when the portfolio for the next day is made
            more = [[0.1 * R, 0.2 * R][: len(preds)]]
            args += [0.1 * w.get("scale", 0.01) * 100]
            if spec.get("rhos"):
                from experiments.utils.trading_model import construct_rho

                kw["rhos"] = 0.02 * construct_rho(R, n_devs=1)
        got = cls(R, preds, names, *more).backtest(*args, **kw)
        # the row of the data whose return a portfolio earns
        where = {tuple(np.round(v, 14)): i for i, v in enumerate(R.values)}
        for name in names:
            tr = got[name]
            for i in range(len(tr.ws)):
                u = where.get(tuple(np.round(tr.returns.values[i], 14)))
                if u is None:
                    raise kernel.Violation("unknown-return", f"portfolio {i} earns {tr.returns.values[i]}, which is no row of the data")
                out.append((u, u, name, {"weights": np.array(tr.ws[i])}))
    else:
        raise KeyError(k)
    return out


# -- generation ------------------------------------------------------------------------------------------------------


def gen_spec(rng, w, p):
    n = w["n"]
    if p == "sigmas":
        lo = world.min_window(w)
        return {"p": p, "window": rng.choice([lo, lo + 1, lo + 3, lo + 6] if w["T"] < 100 else [lo, lo + 6, 40, 100])}
    if p == "ewmas":
        pairs = world.gen_pairs(rng, rng.choice([1, 2, 2, 3]))
        lo = -(-(len(pairs) + 2) // n) + 2
        return {"p": p, "window": rng.choice([lo, lo + 2, lo + 5]), "pairs": [list(x) for x in pairs],
                "kw": {"min_periods_vola": 3, "min_periods_cov": 3 + n, "clip_at": rng.choice([None, 3.0]), "mean": rng.chance(0.4)}}
    if p == "iewma":
        kw = {"min_periods_vola": rng.choice([1, 2, 5]), "min_periods_cov": rng.choice([1, 2, 5]), "mean": rng.chance(0.5),
              "clip_at": rng.choice([None, 2.0, 4.2])}
        if kw["mean"] and rng.chance(0.4):
            kw.update(mu_halflife1=7, mu_halflife2=3)
        return {"p": p, "hl": list(rng.choice([(3, 6), (8, 4), (5, 20), (2.5, 40)])), "kw": kw}
    if p == "lowrank":
        return {"p": p, "hl": list(rng.choice([(3, 6), (8, 20)])), "rank": rng.randint(1, n - 1),
                "kw": {"min_periods_vola": rng.choice([2, 2, 4]), "min_periods_cov": rng.choice([1, 4]), "clip_at": rng.choice([None, 3.0, 1.5]), "mean": rng.chance(0.4)}}
    if p in ("vola", "center"):
        return {"p": p, "hl": [rng.choice([2, 5, 11.5])], "mp": rng.choice([0, 1, 4]), "clip": rng.choice([None, 2.0])}
    if p == "rolling":
        return {"p": p, "memory": rng.choice([2, 3, 5, 9] if w["T"] < 100 else [9, 60, 100]), "mp": rng.choice([1, 2, 5])}
    if p == "realized":
        return {"p": p, "hl": [rng.choice([2, 5])], "kw": rng.choice([{}, {"clip_at": 4.0, "min_periods": 2}])}
    if p in ("ewmapred", "dailypred"):
        return {"p": p, "hls": rng.sample([1, 2, 5, 10, 21], 2), "lags": rng.sample([1, 2, 3, 5], 2)}
    if p == "rho":
        return {"p": p, "devs": rng.choice([1, 2])}
    if p in ("retcomb", "olscomb", "oldcomb", "tune"):
        return {"p": p, "hls": rng.sample([1, 2, 5, 10, 21], 2), "memory": rng.choice([3, 5, 8]), "alpha": rng.choice([0.01, 0.5])}
    if p == "factor":
        return {"p": p, "pairs": [[3, 6], [8, 20]], "memory": rng.choice([16, 18]), "every": rng.choice([3, 5, 7])}
    if p == "trader":
        return {"p": p, "type": rng.choice(["min_risk", "vol_cont", "risk_parity", "mean_variance", "max_diverse", "eq_weighted"]),
                "sigma": 0.1 * w.get("scale", 0.01) * 100}
    if p == "backtest":
        return {"p": p, "type": rng.choice(["min_risk", "risk_parity", "max_diverse", "eq_weighted", "mean_variance", "mean_variance"]), "hl": [3, 8],
                "preds": rng.choice([1, 1, 2]), "rhos": rng.chance(0.5),
                "kw": {"min_periods_vola": 3, "min_periods_cov": 2 + n}}
    raise KeyError(p)


def gen_branches(rng, w, p, T):
    kinds = ["normal", "normal", "flip", "trend", "outlier"]
    if p in NAN_OK:
        kinds += ["nan", "nan"]
    if p in HUGE_OK:
        kinds += ["huge"]
    if p in ("iewma", "vola"):
        kinds += ["zero"]
    if p in ("factor", "trader", "backtest", "retcomb", "olscomb", "oldcomb", "tune", "lowrank", "realized"):
        kinds = ["normal", "flip", "outlier"]
    out = [{"id": 0, "from": 10 ** 6, "kind": "normal"}]
    for i in range(rng.randint(1, 3)):
        out.append({"id": i + 1, "from": rng.randint(1, T - 1), "kind": rng.choice(kinds), "len": rng.choice([1, 1, 3, 50]),
                    "size": rng.choice([30.0, 1e3]) if p not in ("trader", "backtest", "factor") else 30.0})
        if p == "ewmas" and out[-1]["kind"] == "nan":  # without any return in the start-up an expert is undefined
            out[-1]["from"] = max(out[-1]["from"], 7 + w["n"])
    return out


def gen_events(rng, T, nb, branches, lo):
    """publications: (branch, rows available, new process?, only the last k)"""
    ev = []
    upto = rng.randint(lo, max(lo, T // 2 + 1))
    cur = 0
    for _ in range(rng.randint(3, 7)):
        step = rng.choice([0, 1, 1, 2, 3, 7])
        upto = min(T, upto + step)
        if rng.chance(0.4):
            cur = rng.randrange(nb)
        if rng.chance(0.25):
            upto = rng.randint(lo, T)  # recompute an older state
        if rng.chance(0.3) and cur:
            upto = max(lo, min(T, branches[cur]["from"] + rng.choice([0, 1, 2, 4])))  # right around the day things change
        ev.append({"b": cur, "upto": upto, "fork": rng.chance(0.5), "tail": rng.choice([None, None, 1, 3])})
    ev.append({"b": rng.randrange(nb), "upto": T, "fork": rng.chance(0.5), "tail": None})
    return ev


def generate(rng, tier, kinds):
    p = rng.choice(kinds)
    n = rng.choice([1, 2, 3, 4])
    if p in ("lowrank", "factor"):
        n = rng.choice([3, 4, 5])
    if p in ("trader", "backtest"):
        n = rng.choice([3, 4])
    w = world.gen_world(rng, n=n, T=(14, 30), start=p == "sigmas")
    if p == "factor":
        w["T"] = rng.randint(26, 40)
        w["index"] = rng.choice(["bdate", "int"])
    if p == "realized":
        w["T"] = rng.randint(18, 45)
    if p == "ewmas":
        w["T"] = max(w["T"], 20 + 2 * n)
    if p in LONG and rng.chance(0.05):
        w["T"] = rng.randint(110, 280)
    if p in ("trader", "backtest"):
        w["T"] = rng.randint(8, 14) + (4 if p == "backtest" else 0)
    if p in ("ewmapred", "dailypred") and rng.chance(0.4):
        w["late"] = [[0, rng.choice([1, 3, rng.randint(2, w["T"] // 2)]), "nan"]]
    if p in ("iewma", "vola", "center") and n > 1 and rng.chance(0.3):
        # assets without any data until some day (the whole prefix is missing, or nothing but zeros)
        w["late"] = [[a, rng.choice([1, 3, rng.randint(2, w["T"])]), "nan" if p == "iewma" and rng.chance(0.7) else "zero"]
                     for a in rng.sample(range(n), rng.randint(1, n - 1))]
    spec = gen_spec(rng, w, p)
    b = gen_branches(rng, w, p, w["T"])
    lo = {"sigmas": w["start"] + spec.get("window", 0) + 2, "ewmas": spec.get("window", 0) + 8 + n}.get(p, 6)
    lo = min(lo, w["T"])
    return {"world": w, "spec": spec, "branches": b, "keep": rng.chance(0.4), "events": gen_events(rng, w["T"], len(b), b, lo)}


# -- execution -------------------------------------------------------------------------------------------------------


def execute(sc, ctx):
    w, spec = sc["world"], sc["spec"]
    need_pool = spec["p"] in ("trader", "backtest")
    if need_pool:
        seams.install_ecos_stub()
        seams.install_pool(kernel.Rng("pool", w["seed"]), ctx)
    ledger = {}
    keep = world.Keeper(sc.get("keep"), ctx)
    loose = spec["p"] in ("sigmas", "ewmas", "trader", "backtest", "factor", "olscomb", "oldcomb")
    compared = 0
    for j, e in enumerate(sc["events"]):
        b = sc["branches"][e["b"]]
        upto = e["upto"]

        def go():
            return predict(w, spec, b, upto, e["tail"], keep)

        if e["fork"]:
            ctx.fault("crash and restart of the publisher")
            out = kernel.pristine(go)
        else:
            out = go()
        if b["id"] and b["from"] < upto:
            ctx.fault("hostile data: " + b["kind"])
        if any(f < upto for _, f, _ in w.get("late", [])):
            ctx.probe("an asset that starts late has data")
        if out is None:
            continue
        ids = row_ids(w, b, upto)
        ctx.ops += 1
        ctx.event("publication", j, b["id"], upto, out)
        mine = set()
        for t, dep, extra, val in out:
            ctx.simtime += 1
            key = (t, tuple(ids[:dep]), extra)
            mine.add(key)
            if key not in ledger:
                ledger[key] = (j, val)
                continue
            compared += 1
            j0, old = ledger[key]
            e0 = sc["events"][j0]
            b0 = sc["branches"][e0["b"]]
            if (e0["b"], e0["upto"]) != (e["b"], e["upto"]):
                ctx.probe("forecast recomputed with different later data" if e0["b"] != e["b"] else "forecast recomputed with more data")
            rough = bad_after(w, b, dep - 1) and dep > b["from"] or bad_after(w, b0, dep - 1) and dep > b0["from"]
            tol = world.LOOSE if loose and (rough or spec["p"] in ("ewmas", "factor", "olscomb", "oldcomb")) else world.SAME
            d = diff(val, old, tol)
            if d:
                ctx.violate("forecast-revised", f"{spec} for row {t} ({extra}): published with {e0['upto']} rows of branch {e0['b']}, then with "
                            f"{upto} rows of branch {e['b']} {b} (new / published): {d}")
        # what was published once does not disappear while the data it needs is there
        if e["tail"] is None:
            for key in ledger:
                t, dep_ids, extra = key
                dep = len(dep_ids)
                if key not in mine and dep <= upto and tuple(ids[:dep]) == dep_ids and t < upto:
                    if spec["p"] in ("sigmas", "ewmas"):
                        # another effective window, or a step whose solver gave up
                        n = sum(1 for x in out if x[2] == extra)
                        if n == 0:
                            continue
                        ctx.probe("a recomputed step was not solved")
                        continue
                    if spec["p"] == "backtest" or spec["p"] == "factor":
                        continue
                    if spec["p"] == "realized" and dep > upto // 3 * 3:
                        continue
                    ctx.violate("forecast-withdrawn", f"{spec} for row {t} ({extra}) was published with {sc['events'][ledger[key][0]]}, missing in {e}")
        else:
            ctx.probe("only the latest forecasts recomputed")
    ctx.probe("forecasts compared with the ledger", compared)
    ctx.nontrivial = compared > 0 and any(k.startswith("hostile") for k in ctx.faults)
    ctx.interleaving = hashlib.sha256(json.dumps([spec, sc["events"], sc["branches"]], sort_keys=True).encode()).hexdigest()[:16]
    if need_pool:
        seams.stop_pools()


def shrink(sc):
    for x in interleave.chunks_removed(sc["events"], 1):
        yield dict(sc, events=x)
    if sc.get("keep"):
        yield dict(sc, keep=False)
    for i, e in enumerate(sc["events"]):
        for ch in ({"fork": False}, {"tail": None}):
            if any(e[k] != v for k, v in ch.items()):
                yield dict(sc, events=[dict(x, **ch) if j == i else x for j, x in enumerate(sc["events"])])
    for i, b in enumerate(sc["branches"]):
        if b["id"] and b["kind"] != "normal":
            yield dict(sc, branches=[dict(x, kind="normal") if j == i else x for j, x in enumerate(sc["branches"])])
    w = sc["world"]
    for ch in ({"index": "int"}, {"heavy": False}, {"means": None}, {"assets": "str"}, {"scale": 0.01}):
        if any(w.get(k) != v for k, v in ch.items()):
            yield dict(sc, world=dict(w, **ch))
    if w.get("late"):
        yield dict(sc, world={k: v for k, v in w.items() if k != "late"})
        for x in interleave.chunks_removed(w["late"], 1):
            yield dict(sc, world=dict(w, late=x))
