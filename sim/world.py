"""Worlds (data), canonical forms of results, comparison, and streams of the library."""

from __future__ import annotations

import gc

import numpy as np
import pandas as pd

TMAX = 640


def g(*key):
    from .kernel import h64

    return np.random.Generator(np.random.PCG64(h64(*key)))


# --------------------------------------------------------------------------------------------------------------------
# data


def make_index(kind, T):
    if kind == "bdate":
        return pd.bdate_range("2019-12-30", periods=TMAX)[:T]
    if kind == "date":
        return pd.date_range("2024-02-20", periods=TMAX, freq="D")[:T]
    if kind == "tz":
        return pd.date_range("2023-03-20 16:00", periods=TMAX, freq="D", tz="America/New_York")[:T]
    if kind == "irregular":
        steps = g("irregular").integers(1, 9, size=TMAX)
        return (pd.Timestamp("2021-01-04") + pd.to_timedelta(np.cumsum(steps), unit="D"))[:T]
    if kind == "hour":
        return pd.date_range("2022-05-02 09:30", periods=TMAX, freq="37min")[:T]
    if kind == "int":
        return pd.Index(np.arange(TMAX))[:T]
    if kind == "offset":
        return pd.Index(np.arange(TMAX) * 3 + 100)[:T]
    if kind == "str":
        return pd.Index([f"d{i:04d}" for i in range(TMAX)])[:T]
    if kind == "neg":
        return pd.Index(np.arange(TMAX) - 9)[:T]
    if kind == "float":
        return pd.Index(np.arange(TMAX) / 4 - 1.0)[:T]
    if kind == "day":
        return pd.Index([x.date() for x in pd.bdate_range("2020-02-24", periods=TMAX)], dtype=object)[:T]
    raise KeyError(kind)


INDEX_KINDS = ["bdate", "date", "tz", "irregular", "hour", "int", "offset", "str", "neg", "float", "day"]


def asset_names(w):
    n, kind = w["n"], w.get("assets", "str")
    if kind == "str":
        return [f"A{i}" for i in range(n)]
    if kind == "int":
        return list(range(10, 10 + n))
    if kind == "ticker":  # in no particular order
        return ["TLT", "spy", "GLD", "Z", "AAPL", "BRK.B", "m 1", "F", "QQQ", "b"][:n]
    return [3, 0, 7, 1, -2, 12, 5, 9, 4, 8][:n]  # "number"


def expert_name(w, k):
    kind = w.get("experts", "str")
    if kind == "str":
        return f"E{k}"
    if kind == "int":
        return k + 1
    if kind == "pair":  # half-lives, in no particular order
        return ["63-125", "10-21", "250-500", "5-10", "125-125", "21-63", "2-4", "9-9"][k]
    return [0.97, 0.5, 0.99, -1.0, 2.5, 0.94, 0.0, 7.0][k]  # "float"


def rand_spd(rng, n, cond=20.0):
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    lam = np.exp(rng.uniform(0, np.log(cond), size=n))
    S = (Q * lam) @ Q.T
    return (S + S.T) / 2


def asset_scales(w):
    """assets of very different size (a bond fund beside an option, say)"""
    return 10.0 ** g("uneven", w["seed"], w["n"]).uniform(-1.5, 0.5, size=w["n"])


def make_returns(w):
    """T x n returns; row t depends on the seed and t only."""
    n, T, seed = w["n"], w["T"], w["seed"]
    rng = g("ret", seed, n)
    C = np.linalg.cholesky(rand_spd(rng, n))
    scale = w.get("scale", 0.01)
    X = np.empty((T, n))
    for t in range(T):
        r = g("ret", seed, n, t)
        tail = r.chisquare(5) / 5 if w.get("heavy") else 1.0
        X[t] = C @ r.normal(size=n) / np.sqrt(tail) * scale
    if w.get("uneven"):
        X = X * asset_scales(w)
    if w.get("gaps"):
        # missing returns, once the experts have started; some asset has data in every row
        for t in range(8 + n, T):
            r = g("gap", seed, n, t)
            hole = r.random(n) < w["gaps"]
            hole[r.integers(n)] = False
            X[t, hole] = np.nan
    return pd.DataFrame(X, index=make_index(w.get("index", "bdate"), TMAX)[:T], columns=asset_names(w))


def make_experts(w):
    """K experts {name: {time: covariance}}, and their means (or None); entries depend on seed, expert and t only."""
    n, T, K, seed = w["n"], w["T"], w["K"], w["seed"]
    start = w.get("start", 0)
    R = make_returns(w)
    scale2 = w.get("scale", 0.01) ** 2
    D = asset_scales(w) if w.get("uneven") else np.ones(n)
    sig, mus = {}, {}
    for k in range(K):
        rk = g("exp", seed, n, k)
        base = rand_spd(rk, n) * float(np.exp(rk.uniform(-1.0, 1.0)))
        name = expert_name(w, k)
        d, m = {}, {}
        for t in range(start, T):
            rt = g("exp", seed, n, k, t)
            if w.get("slow"):  # forecasts that hardly change from step to step
                S = base * float(np.exp(4e-4 * t)) + 2e-4 * rand_spd(rt, n)
            else:
                S = base * float(np.exp(0.3 * rt.normal())) + 0.3 * rand_spd(rt, n)
            d[R.index[t]] = pd.DataFrame(S * scale2 * np.outer(D, D), index=R.columns, columns=R.columns)
            mu = 0.2 * rt.normal(size=n) * np.sqrt(scale2) * D
            m[R.index[t]] = pd.Series(mu, index=R.columns) if w.get("means") == "series" else mu
        sig[name], mus[name] = d, m
    return R, sig, (mus if w.get("means") else None)


def gen_world(rng, K=None, T=(12, 30), n=None, means=True, start=True, long=0.0):
    """long: the chance of a history of 110-280 steps"""
    n = n or rng.weighted([(1, 4), (2, 8), (3, 8), (4, 4), (6, 1), (8, 1)])
    K = K or rng.weighted([(1, 4), (2, 8), (3, 8), (4, 4), (5, 1), (7, 1)])
    w = {
        "seed": rng.randrange(1 << 30),
        "n": n,
        "T": rng.randint(*T),
        "K": K,
        "index": rng.choice(INDEX_KINDS),
        "assets": rng.choice(["str", "str", "int", "ticker", "number"]),
        "experts": rng.choice(["str", "str", "int", "pair", "float"]),
        "heavy": rng.chance(0.3),
        "scale": rng.choice([0.01, 0.01, 1.0]),
        "start": rng.choice([0, 0, 1, 3]) if start else 0,
        "uneven": rng.chance(0.2),
        "slow": rng.chance(0.12),
    }
    w["means"] = rng.choice([None, "array", "series"]) if means else None
    if long and rng.chance(long):
        w["T"] = rng.randint(110, 280)
    return w


def min_window(w):
    return -(-(w["K"] + 2) // w["n"])


def avail(w):
    """number of steps a combination of w's experts can answer"""
    if w.get("ewmas"):
        kw = w["ewmas"]["kw"]
        return w["T"] - 1 - (max(kw["min_periods_vola"], 1) - 1) - (max(kw["min_periods_cov"], 1) - 1)
    return w["T"] - w.get("start", 0) - 1


def low_window(w):
    return min_window(w) + (2 if w.get("ewmas") else 0)


def fits(w, s=None):
    """Is the world (and the stream over it) one in which the library has to work?"""
    if w.get("ewmas") and w["ewmas"]["kw"]["min_periods_cov"] < 3 + w["n"]:
        return False
    if w.get("ewmas") and w["K"] != len(w["ewmas"]["pairs"]):
        return False
    if w.get("gaps") and not (w.get("ewmas") or w.get("nocomb")):
        return False
    if not w.get("nocomb") and avail(w) < low_window(w) + 1:
        return False
    if w["T"] < 8:
        return False
    if s is None:
        return True
    if s["kind"] == "combo":
        if s["window"] is not None and s["window"] < low_window(w):
            return False
        if s.get("times") and s["times"][0] + s["times"][1] > avail(w):
            return False
        return True
    if s["kind"] == "lowrank":
        return not w.get("gaps") and w["n"] >= 2 and s["rank"] <= w["n"] - 1
    if s["kind"] in ("reg", "em"):
        return s["rank"] <= w["n"]
    return True


def gen_pairs(rng, k=None):
    pool = [(3, 6), (5, 5), (5, 20), (8, 30), (12, 12), (20, 60), (2.5, 9)]
    return rng.sample(pool, k or rng.choice([1, 2, 2, 3]))


# --------------------------------------------------------------------------------------------------------------------
# canonical forms


def _lab(x):
    if isinstance(x, (float, np.floating)):
        return float(x)
    return str(x) if isinstance(x, (pd.Timestamp, str, int, np.integer)) else repr(x)


def canon(x):
    if x is None:
        return None
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        if set(x._fields) == {"F", "d"}:
            # factors are unique up to rotation and sign only
            F = np.asarray(x.F, dtype=float)
            d = np.asarray(x.d, dtype=float)
            return {"rows": [_lab(i) for i in x.F.index], "drows": [_lab(i) for i in x.d.index],
                    "rank": F.shape[1], "full": F @ F.T + np.diag(d)}
        return {"_": type(x).__name__, **{f: canon(getattr(x, f)) for f in x._fields}}
    if isinstance(x, (tuple, list)):
        return [canon(y) for y in x]
    if isinstance(x, dict):
        return {_lab(k): canon(v) for k, v in x.items()}
    if isinstance(x, pd.DataFrame):
        return {"rows": [_lab(i) for i in x.index], "cols": [_lab(i) for i in x.columns], "v": np.array(x.values)}
    if isinstance(x, pd.Series):
        return {"rows": [_lab(i) for i in x.index], "v": np.array(x.values)}
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    return _lab(x)


def close(a, b, rtol, atol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        try:
            a, b = a.astype(float), b.astype(float)
        except (TypeError, ValueError):
            return repr(a.tolist()) == repr(b.tolist())
    if a.size == 0:
        return True
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    if not (na == nb).all() or not np.array_equal(a[na], b[nb], equal_nan=True):
        return False
    ref = np.abs(b[~nb]).max() if (~nb).any() else 0.0
    return bool((np.abs(a[~na] - b[~nb]) <= atol + rtol * ref).all())


class Tol:
    """relative to the largest entry of an array; weights absolute"""

    def __init__(self, rtol=1e-6, watol=1e-5, atol=1e-12):
        self.rtol, self.watol, self.atol = rtol, watol, atol


TIGHT = Tol(1e-9, 1e-9, 1e-14)
SAME = Tol(1e-6, 2e-5, 1e-11)
LOOSE = Tol(2e-4, 1e-3, 1e-9)


def diff(a, b, tol=SAME, path=""):
    """None when the canonical forms agree, otherwise where and how they differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"{path}: fields {list(a)[:8]} / {list(b)[:8]}"
        for k in a:
            r = diff(a[k], b[k], tol, f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} / {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, tol, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) or isinstance(a, float) and isinstance(b, float):
        if "weights" in path:
            ok = close(a, b, 0.0, tol.watol)
        elif ".mean" in path:
            # means are differences of large numbers: compare on the scale of the data
            ok = close(a, b, tol.rtol * 10, max(tol.atol, tol.rtol * 1e-2))
        else:
            ok = close(a, b, tol.rtol, tol.atol)
        if not ok:
            return f"{path}: {np.asarray(a).ravel()[:6]} / {np.asarray(b).ravel()[:6]}"
        return None
    if a is None or b is None or isinstance(a, (dict, list, np.ndarray)) != isinstance(b, (dict, list, np.ndarray)):
        return None if a is b else f"{path}: {short(a)} / {short(b)}"
    return None if a == b else f"{path}: {a!r} / {b!r}"


def short(x):
    if isinstance(x, dict) and "time" in x:
        return f"result for {x['time']}"
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


# --------------------------------------------------------------------------------------------------------------------
# a caller who keeps its objects and updates them in place


def refill(old, new):
    """`old` updated in place to the contents of `new`; `new` itself where that is not possible"""
    if isinstance(new, dict) and isinstance(old, dict):
        was = dict(old)
        old.clear()
        for k, v in new.items():
            old[k] = refill(was[k], v) if k in was else v
        return old
    if isinstance(new, np.ndarray) and isinstance(old, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype:
        old[...] = new
        return old
    if isinstance(new, pd.DataFrame) and isinstance(old, pd.DataFrame) and list(old.columns) == list(new.columns):
        try:
            old.drop(index=old.index[len(new):], inplace=True)
            k = len(old)
            if list(old.index) != list(new.index[:k]):
                return new
            old.iloc[:, :] = new.values[:k]
            for lab, row in zip(new.index[k:], new.values[k:]):
                old.loc[lab] = row
            if list(old.index) == list(new.index) and old.index.dtype == new.index.dtype and np.array_equal(old.values, new.values, equal_nan=True) \
                    and list(old.dtypes) == list(new.dtypes):
                return old
        except (TypeError, ValueError, KeyError):
            pass
        return new
    if isinstance(new, pd.Series) and isinstance(old, pd.Series) and list(old.index) == list(new.index) and old.dtype == new.dtype:
        old.iloc[:] = new.values
        return old
    return new


class Keeper:
    """the objects of a caller who updates them in place (or makes new ones every time)"""

    def __init__(self, on, ctx=None):
        self.on, self.ctx, self.have = on, ctx, {}

    def __call__(self, name, new):
        if not self.on:
            return new
        old = self.have.get(name)
        if old is not None and new is not None:
            new = refill(old, new)
            if new is old and self.ctx is not None:
                self.ctx.probe("data updated in place")
        self.have[name] = new
        return new


# --------------------------------------------------------------------------------------------------------------------
# snapshots of inputs (exact)


def snap(x):
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, pd.DataFrame):
        return ("df", snap(x.index), snap(x.columns), [str(d) for d in x.dtypes], np.array(x.values).tobytes(), repr(x.attrs),
                x.flags.allows_duplicate_labels)
    if isinstance(x, pd.Series):
        return ("series", snap(x.index), x.name, str(x.dtype), np.array(x.values).tobytes(), repr(x.attrs), x.flags.allows_duplicate_labels)
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, str(x.dtype), np.array(x).tobytes(), x.flags.writeable)
    if isinstance(x, pd.Index):
        return ("index", list(x), list(x.names), str(x.dtype))
    return repr(x)


def ambient():
    import random

    st = np.random.get_state()
    return {
        "numpy random state": (st[0], st[1].tobytes(), st[2:]),
        "random state": hash(random.getstate()),
        "numpy error handling": dict(np.geterr()),
        "pandas options": (pd.get_option("mode.chained_assignment"), pd.get_option("compute.use_bottleneck")),
    }


# --------------------------------------------------------------------------------------------------------------------
# streams


class Sources:
    """The objects of one world which streams share: returns, experts, combinators, inputs of the regularisation."""

    def __init__(self, w):
        from cvx.covariance.combination import from_ewmas, from_sigmas

        self.w = w
        self.R, self.sig, self.mus = make_experts(w)
        self.given = snap(self.inputs())  # before the library has seen any of it
        if w.get("ewmas"):
            e = w["ewmas"]
            self.comb = from_ewmas(self.R, [tuple(p) for p in e["pairs"]], **e["kw"])
        elif w.get("nocomb"):
            self.comb = None
        else:
            self.comb = from_sigmas(sigmas=self.sig, returns=self.R, means=self.mus)
        self._low = {}
        self._covs = None

    def inputs(self):
        return {"returns": self.R, "sigmas": self.sig, "means": self.mus}

    def covs(self):
        first = next(iter(self.sig.values()))
        if not self.w.get("shuffle"):
            return first
        if self._covs is None:  # a dictionary need not be in the order of time
            keys = list(first)
            self._covs = {keys[i]: first[keys[i]] for i in g("order", self.w["seed"]).permutation(len(keys))}
        return self._covs

    def low(self, r):
        from cvx.covariance.regularization import regularize_covariance

        if r not in self._low:
            low = dict(regularize_covariance(self.covs(), r=r, low_rank_format=True))
            self._low[r] = {t: low[t] for t in reversed(low)} if self.w.get("shuffle") else low
        return self._low[r]

    def times(self, rel):
        """rel = [start, length] among the steps that can be answered"""
        idx = self.all_times()
        return list(idx[rel[0]: rel[0] + rel[1]])

    def all_times(self):
        first = next(iter(self.comb.sigmas.values()))
        return list(first.keys())[1:]

    def open(self, s):
        """The lazy result stream described by s."""
        k = s["kind"]
        if k == "combo":
            kw = dict(s.get("opts") or {})
            if s.get("times") is not None:
                kw["times"] = self.times(s["times"])
            return self.comb.solve(window=s["window"], **kw)
        if k == "iewma":
            from cvx.covariance.ewma import iterated_ewma

            return iterated_ewma(self.R, *s["hl"], **s["kw"])
        if k == "lowrank":
            from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

            return low_rank_iterated_ewma(self.R, *s["hl"], s["rank"], **s["kw"])
        if k == "reg":
            from cvx.covariance.regularization import regularize_covariance

            return regularize_covariance(self.covs(), r=s["rank"], low_rank_format=s["low"])
        if k == "em":
            from cvx.covariance.regularization import em_regularize_covariance

            return em_regularize_covariance(self.covs(), self.low(s["rank"]))
        if k == "realized":
            from experiments.utils.experiment_utils import realized_ewma

            return realized_ewma(self.intraday(), s["hl"], **s["kw"])
        raise KeyError(k)

    def intraday(self, m=3):
        """several returns per day"""
        T = len(self.R) // m
        idx = np.repeat(make_index("bdate", TMAX)[:T], m)
        return pd.DataFrame(self.R.values[: T * m], index=idx, columns=self.R.columns)


class Stream:
    """A consumed stream; keeps what was delivered."""

    def __init__(self, sid, it, seam=None):
        self.sid, self.it, self.seam = sid, it, seam
        self.got = []
        self.raw = []
        self.done = False
        self.opened = it is not None

    def next(self, keep_raw=False):
        """returns True when something was delivered"""
        if self.done:
            return False
        if self.seam is not None:
            self.seam.tag(self.sid, len(self.got))
        try:
            r = next(self.it)
        except StopIteration:
            self.done = True
            return False
        finally:
            if self.seam is not None:
                self.seam.untag()
        self.got.append(canon(r))
        if keep_raw:
            self.raw.append(r)
        return True

    def close(self):
        if hasattr(self.it, "close"):
            self.it.close()
        self.done = True

    def drop(self):
        self.it = None
        self.done = True
        gc.collect()


def alone(w, spec, opts=None):
    """All results of one stream which is the only one ever opened (to be run in a pristine process)."""
    src = Sources(w)
    st = Stream("alone", src.open(spec))
    while st.next():
        pass
    return st.got
