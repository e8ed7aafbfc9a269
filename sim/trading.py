"""Traders and backtests on the simulated process pool: shared by C09 and C10."""

from __future__ import annotations

import numpy as np
import pandas as pd

from . import kernel, seams, world

CLASSES = {"min_risk": "MinRisk", "max_diverse": "MaxDiverse", "risk_parity": "RiskParity", "eq_weighted": "EqWeighted", "mean_variance": "MeanVariance"}
DEFAULT = {"short_lim": 1.6, "upper_bound": 0.15, "lower_bound": -0.1}  # the limits when none are given
TYPES = ["min_risk", "min_risk", "vol_cont", "robust_min_risk", "risk_parity", "mean_variance", "mean_variance", "max_diverse", "max_sharpe",
         "eq_weighted"]
FAILS = ["RuntimeError", "ValueError", "MemoryError", "CustomError", "solver:raise", "solver:status:NumericalError", "solver:status:MaxIterations",
         "solver:status:PrimalInfeasible", "solver:status:InsufficientProgress", "solver:truncate:0", "interrupt"]


def gen_data(rng, tier):
    return {"seed": rng.randrange(1 << 30), "n": rng.weighted([(3, 8), (4, 4), (5, 4), (7, 1), (8, 1)]), "T": rng.randint(2, 9 if tier == "quick" else 16),
            "index": rng.choice(["bdate", "irregular", "int", "tz", "neg", "day"]), "assets": rng.choice(["str", "ticker", "number"]), "scale": 0.01, "rhos": rng.chance(0.5),
            "calm": rng.weighted([(0, 3), (0.003, 0.5), (0.02, 1), (0.1, 0.5)])}


def gen_backtest(rng, d):
    n = d["n"]
    b = {"type": rng.choice(TYPES), "short": rng.choice([1.2, 1.6, 3.0, None]), "ub": rng.choice([0.4, 0.5, 0.7, 1.0]), "lb": rng.choice([-0.5, -0.1, 0.0, None]),
         "sigma": rng.choice([0.05, 0.1, 0.2, 0.4]), "kappa": rng.choice([0.1, 0.5, 3.0]), "rhos": rng.chance(0.4), "adjust": rng.choice([1, 1, 1, 4]),
         "own_list": rng.chance(0.3)}
    b["default"] = n >= 7 and rng.chance(0.4)  # no limits are given
    return b


MATTERS = {"min_risk": ["short", "ub", "lb"], "vol_cont": ["sigma", "ub", "adjust"], "robust_min_risk": ["kappa", "ub"],
           "mean_variance": ["sigma", "rhos", "short", "ub", "lb", "adjust"], "max_diverse": ["ub"]}


def vary(rng, b, d):
    """a backtest that differs from b in little, most of the time in something that matters"""
    new = gen_backtest(rng, d)
    keys = MATTERS.get(b["type"]) if rng.chance(0.6) else None
    keys = [rng.choice(keys)] if keys else rng.sample(sorted(b), rng.choice([1, 2]))
    return dict(b, **{k: new[k] for k in keys})


class Data:
    def __init__(self, d):
        n, T, seed = d["n"], d["T"], d["seed"]
        self.d = d
        idx = world.make_index(d["index"], T)
        cols = world.asset_names(d)
        X, S, H, P = [], {}, [], []
        base = world.rand_spd(world.g("tb", seed), n)
        for t in range(T):
            r = world.g("tr", seed, t)
            X.append(r.normal(size=n) * d["scale"])
            if d.get("calm"):  # forecasts that move little from date to date
                C = (base + d["calm"] * world.rand_spd(r, n)) * d["scale"] ** 2
            else:
                C = (base * np.exp(0.7 * r.normal()) + 1.5 * world.rand_spd(r, n)) * d["scale"] ** 2
            S[idx[t]] = pd.DataFrame(C, index=cols, columns=cols)
            h = r.normal(size=n) * d["scale"] * 0.2
            if d.get("calm"):
                h = world.g("th", seed).normal(size=n) * d["scale"] * 0.2 + d["calm"] * h
            h[r.integers(n)] = abs(h).max() + 0.05 * d["scale"]  # some asset is expected to gain
            H.append(h)
            P.append(abs(r.normal(size=n)) * d["scale"] * 0.05)
        self.R = pd.DataFrame(X, index=idx, columns=cols)
        self.S = S
        self.H = pd.DataFrame(H, index=idx, columns=cols)
        self.P = pd.DataFrame(P, index=idx, columns=cols)
        self.rf = pd.Series(world.g("rf", d.get("rf_seed", seed)).random(T) * 1e-4, index=idx)

    def trader(self):
        from experiments.utils.trading_model import Trader

        return Trader(self.R, self.S, r_hats=self.H)


def limits(b):
    if b.get("default"):
        return dict(DEFAULT)
    out = {}
    if b["short"] is not None:
        out["short_lim"] = b["short"]
    out["upper_bound"] = b["ub"]
    if b["lb"] is not None:
        out["lower_bound"] = b["lb"]
    return out


def run(tr, data, b, cons=None, lim=None):
    kw = {}
    if cons is not None:
        kw["cons"] = cons
    if b["type"] in ("vol_cont", "mean_variance"):
        kw["sigma_des"] = b["sigma"]
    if b["type"] == "robust_min_risk":
        kw["kappa"] = b["kappa"]
    if b["type"] == "mean_variance" and b["rhos"]:
        kw["rhos"] = data.P
    if lim is not None or not b.get("default"):
        kw["additonal_cons"] = limits(b) if lim is None else lim
    tr.backtest(portfolio_type=b["type"], adjust_factor=b["adjust"], **kw)


def run_class(datas, b, labels):
    """the same through the classes that run several predictors; trades are made at the end of the day of a forecast"""
    from experiments.utils import portfolio_backtests as pb

    first, last, start, end = labels
    R = datas[0].R
    cover = list(R.index)[first: last + 1]
    preds = [{t: d.S[t] for t in cover} for d in datas]
    kw = {}
    if start is not None:
        kw["start_date"] = R.index[start]
    if end is not None:
        kw["end_date"] = R.index[end]
    if b["type"] == "mean_variance":
        kw["mean_predictors"] = [d.H for d in datas]
    bt = getattr(pb, CLASSES[b["type"]])(R, preds, [f"predictor {i}" for i in range(len(datas))], **kw)
    args = {}
    if b["type"] in ("min_risk", "max_diverse", "mean_variance"):
        args["additonal_cons"] = limits(b)
    if b["type"] == "mean_variance":
        args["sigma_tar"] = b["sigma"]
        if b["rhos"]:
            args["rhos"] = datas[0].P
    return bt.backtest(**args)


def optimum(data, b, t):
    """The date's own problem, built from scratch: (weights as the backtest reports them, check(weights) -> complaint)"""
    import cvxpy as cp

    lab = data.R.index[t]
    S = data.S[lab].values
    n = len(S)
    L = np.linalg.cholesky(S).T  # risk = |L w|
    typ = b["type"]
    lim = limits(b)

    def bounds(w):
        c = []
        if "short_lim" in lim:
            c.append(cp.norm1(w) <= lim["short_lim"])
        if "upper_bound" in lim:
            c.append(w <= lim["upper_bound"])
        if "lower_bound" in lim:
            c.append(w >= lim["lower_bound"])
        return c

    def feasible(w, tol=2e-4):
        if "short_lim" in lim and np.abs(w).sum() > lim["short_lim"] + tol:
            return f"|w|_1 = {np.abs(w).sum()} > {lim['short_lim']}"
        if "upper_bound" in lim and w.max() > lim["upper_bound"] + tol:
            return f"largest weight {w.max()} > {lim['upper_bound']}"
        if "lower_bound" in lim and w.min() < lim["lower_bound"] - tol:
            return f"smallest weight {w.min()} < {lim['lower_bound']}"
        return None

    def risk(w):
        return float(np.linalg.norm(L @ w))

    def solve(p):
        # scaled copy of the problem: the risk is measured in units of the data
        p.solve(solver="CLARABEL")
        return p.status

    u = d_unit = data.d["scale"]
    sig = np.sqrt(np.diag(S))
    if typ == "eq_weighted":
        return lambda w: None if np.abs(w - 1 / n).max() < 1e-9 else f"{w} instead of equal weights"
    if typ in ("min_risk", "vol_cont", "robust_min_risk"):
        x = cp.Variable(n)
        obj = cp.norm2((L / u) @ x)

        def val(w):
            v = risk(w) / u
            return v + (b["kappa"] * float(sig @ np.abs(w)) ** 2 / u if typ == "robust_min_risk" else 0.0)

        if typ == "robust_min_risk":
            obj = obj + b["kappa"] / u * cp.square(sig @ cp.abs(x))
        status = solve(cp.Problem(cp.Minimize(obj), [cp.sum(x) == 1] + bounds(x)))
        if status not in ("optimal", "optimal_inaccurate"):
            return None
        best, ref = val(x.value), x.value

        def check(w):
            if typ == "vol_cont":
                if w.shape != (n + 1,):
                    return f"shape {w.shape}"
                target = b["sigma"] * np.sqrt(b["adjust"]) / np.sqrt(252)
                if abs(w.sum() - 1) > 1e-6:
                    return f"sum {w.sum()}"
                k = w[:-1].sum()
                if abs(risk(w[:-1]) - target) > 2e-3 * target:
                    return f"risk {risk(w[:-1])} instead of {target}"
                w = w[:-1] / k
            if abs(w.sum() - 1) > 1e-4:
                return f"sum {w.sum()}"
            if feasible(w):
                return feasible(w)
            if val(w) > best * (1 + 1e-5) + 1e-8:
                return f"objective {val(w)}, optimum {best}; weights {w} / {ref}"
            return None

        return check
    if typ == "mean_variance":
        x = cp.Variable(n + 1)
        h = np.append(data.H.iloc[t].values, 0.0)
        rho = data.P.iloc[t].values if b["rhos"] else np.zeros(n)
        lim_risk = b["sigma"] * b["adjust"] / np.sqrt(252)
        p = cp.Problem(cp.Maximize((h / u) @ x - (rho / u) @ cp.abs(x[:-1])),
                       [cp.sum(x) == 1, cp.norm2((L / u) @ x[:-1]) <= lim_risk / u] + bounds(x[:-1]))
        if solve(p) not in ("optimal", "optimal_inaccurate"):
            return None

        def val(w):
            return float(h @ w - rho @ np.abs(w[:-1])) / u

        best = val(x.value)

        def check(w):
            if w.shape != (n + 1,):
                return f"shape {w.shape}"
            if abs(w.sum() - 1) > 1e-4:
                return f"sum {w.sum()}"
            if feasible(w[:-1]):
                return feasible(w[:-1])
            if risk(w[:-1]) > lim_risk * (1 + 1e-3) + 1e-7:
                return f"risk {risk(w[:-1])} above {lim_risk}"
            if val(w) < best - 1e-4 * abs(best) - 1e-5:
                return f"objective {val(w)}, optimum {best}; weights {w} / {x.value}"
            return None

        return check
    z = cp.Variable(n)
    if typ == "max_diverse":
        M = lim["upper_bound"]
        p = cp.Problem(cp.Minimize(cp.norm2((L / u) @ z)), [z >= 0, z <= M * cp.sum(z), (sig / u) @ z == 1])

        def val(w):
            return risk(w) / float(sig @ w)

        extra = lambda w: f"largest weight {w.max()}" if w.max() > M + 2e-4 else None  # noqa: E731
    elif typ == "max_sharpe":
        h = data.H.iloc[t].values
        p = cp.Problem(cp.Minimize(cp.norm2((L / u) @ z)), [z >= 0, (h / u) @ z == 1])

        def val(w):
            return risk(w) / float(h @ w) if h @ w > 0 else np.inf

        extra = lambda w: None  # noqa: E731
    elif typ == "risk_parity":
        p = cp.Problem(cp.Minimize(0.5 * cp.norm2((L / u) @ z) - cp.sum(cp.log(z)) / n))

        def val(w):
            c = w * (S @ w) / float(w @ S @ w)  # shares of the risk
            return 1 + float(np.abs(c - 1 / n).max())

        extra = lambda w: None  # noqa: E731
    else:
        raise KeyError(typ)
    if solve(p) not in ("optimal", "optimal_inaccurate"):
        return None
    ref = z.value / z.value.sum()
    best = val(ref)

    def check(w):
        if w.shape != (n,):
            return f"shape {w.shape}"
        if abs(w.sum() - 1) > 1e-6:
            return f"sum {w.sum()}"
        if w.min() < -2e-4:
            return f"negative weight {w.min()}"
        if extra(w):
            return extra(w)
        if not val(w) <= best * (1 + (1e-3 if typ == "risk_parity" else 1e-5)):
            return f"objective {val(w)}, optimum {best}; weights {w} / {ref}"
        return None

    return check
