"""A corrupted forecast or return is forgotten after the lookback window."""

import hashlib
import json

import numpy as np
import pandas as pd

from .. import faulty, interleave, kernel, seams, world
from ..world import Sources, Stream, canon, diff

RUNS = {"quick": 1200, "thorough": 12000}
RULE = ("A case is a combination (or a rolling-window covariance) over data in which seeded forecasts or returns are corrupted "
        "(scaled, replaced, flipped, zeroed, shifted means; single, repeated, bursts; one expert or several), next to the same run "
        "without the corruption. Non-trivial: a corruption was injected and some results had to stay the same.")
PROBES = ["result changed by a corruption", "results that had to stay the same", "corruption at the first forecast", "corruption at the last forecast",
          "solver fault next to the corruption", "data corrected in place"]
REAL = ["cvx.covariance.combination", "experiments.utils.experiment_utils.rolling_window", "cvxpy", "Clarabel (compiled)"]
STUB = ["status line of the solver in faulted steps"]
ASSUMPTIONS = ["corrupted forecasts stay finite positive definite matrices (a singular one is refused when the combinator is built)",
               "sizes up to 1000 standard deviations"]


def generate(rng, tier):
    if rng.chance(0.2):
        w = world.gen_world(rng, T=(8, 40), long=0.05)
        bad = [{"what": "return", "at": rng.randrange(w["T"]), "how": rng.choice(["outlier", "flip", "zero", "replace"]), "size": rng.choice([10.0, 1e3]),
                "asset": rng.choice([None, rng.randrange(w["n"])])} for _ in range(rng.choice([1, 1, 2]))]
        return {"world": w, "rolling": {"memory": rng.choice([1, 2, 3, 5, 8, 13]), "mp": rng.choice([1, 2, 6])}, "bad": bad}
    w = world.gen_world(rng, T=(14, 36), long=0.02)
    lo = world.min_window(w)
    T = world.avail(w)
    win = rng.choice([lo, lo, lo + 1, rng.randint(lo, max(lo, T // 2))])
    s = {"kind": "combo", "window": win, "times": None, "opts": None}
    if rng.chance(0.25):
        a = rng.randrange(0, T)
        s["times"] = [a, rng.randint(1, T - a)]
    bad = []
    for _ in range(rng.weighted([(1, 6), (2, 2), (3, 1)])):
        what = rng.choice(["cov", "cov", "return", "return"] + (["mean", "mean"] if w["means"] else []))
        b = {"what": what, "at": rng.weighted([(rng.randrange(T + 1), 6), (0, 1), (T, 1)]), "len": rng.weighted([(1, 4), (rng.randint(2, 4), 1)])}
        if what == "return":
            b.update(how=rng.choice(["outlier", "flip", "zero", "replace"]), size=rng.choice([10.0, 300.0, 1e5]), asset=rng.choice([None, rng.randrange(w["n"])]))
        else:
            b.update(k=rng.randrange(w["K"]), how=rng.choice(["scale", "replace", "swap"]), size=rng.choice([1e-3, 0.1, 30.0, 1e3]))
        bad.append(b)
    plan = {}
    if rng.chance(0.2):
        plan = {str(rng.randrange(max(1, T - win))): faulty.gen_fault(rng)}
    return {"world": w, "stream": s, "bad": bad, "plan": plan, "keep": rng.chance(0.3)}


def corrupt_returns(R, w, b, rows):
    X = np.array(R.values)
    for t in rows:
        if not 0 <= t < len(X):
            continue
        cols = range(w["n"]) if b.get("asset") is None else [b["asset"]]
        for c in cols:
            r = world.g("bad", w["seed"], t, c).normal()
            if b["how"] == "outlier":
                X[t, c] = r * b["size"] * w["scale"]
            elif b["how"] == "flip":
                X[t, c] = -3 * X[t, c]
            elif b["how"] == "zero":
                X[t, c] = 0.0
            else:
                X[t, c] = r * w["scale"]
    return pd.DataFrame(X, index=R.index, columns=R.columns)


class Corrupted(Sources):
    def __init__(self, w, bad):
        self.w = w
        self.R, self.sig, self.mus = world.make_experts(w)
        first = next(iter(self.sig.values()))
        labels = list(first)  # E_0, E_1, ...
        pos = {lab: i for i, lab in enumerate(self.R.index)}
        for b in bad:
            names = list(self.sig)
            for e in range(b["at"], b["at"] + b.get("len", 1)):
                if e >= len(labels):
                    continue
                if b["what"] == "return":
                    self.R = corrupt_returns(self.R, w, b, [pos[labels[e]]])
                    continue
                k = names[b["k"] % len(names)]
                lab = labels[e]
                r = world.g("badf", w["seed"], e, b["k"])
                if b["what"] == "cov":
                    S = self.sig[k][lab]
                    if b["how"] == "scale":
                        V = S.values * b["size"]
                    elif b["how"] == "swap":
                        V = S.values[::-1, ::-1] * 1.7
                    else:
                        V = world.rand_spd(r, w["n"]) * w["scale"] ** 2 * 2
                    self.sig[k] = dict(self.sig[k])
                    self.sig[k][lab] = pd.DataFrame(np.array(V), index=S.index, columns=S.columns)
                else:
                    m = self.mus[k][lab]
                    self.mus[k] = dict(self.mus[k])
                    add = r.normal(size=w["n"]) * w["scale"] * min(b["size"], 30.0)
                    self.mus[k][lab] = m + add
        self.build()

    def build(self):
        from cvx.covariance.combination import from_sigmas

        self.comb = from_sigmas(sigmas=self.sig, returns=self.R, means=self.mus)


def touched(sc, n, win):
    """steps of which the weights, and of which mean and covariance, may change"""
    ws, cs = set(), set()
    for b in sc["bad"]:
        for e in range(b["at"], b["at"] + b.get("len", 1)):
            if b["what"] == "return":
                # forecast time E_e is step e-1
                hit = range(e - 1, e - 1 + win)
            else:
                hit = range(e, e + win)
                cs.add(e - 1)
            ws |= set(hit)
    return ws & set(range(n)), (ws | cs) & set(range(n))


def rolling(sc, ctx):
    from experiments.utils.experiment_utils import rolling_window

    w, r = sc["world"], sc["rolling"]
    R = world.make_returns(w)
    B = R
    hit = set()
    for b in sc["bad"]:
        B = corrupt_returns(B, w, b, [b["at"]])
        ctx.fault("corrupted return: " + b["how"])
        hit |= set(range(b["at"], b["at"] + r["memory"]))
    a = rolling_window(R, memory=r["memory"], min_periods=r["mp"])
    c = rolling_window(B, memory=r["memory"], min_periods=r["mp"])
    if list(a) != list(c):
        ctx.violate("times-differ", f"{len(a)} / {len(c)} times")
    same = 0
    size = max([b["size"] for b in sc["bad"]] + [1.0])
    tol = world.Tol(1e-6, 0, 1e-13 * (size * w["scale"]) ** 2 * 50)
    for t, lab in enumerate(R.index):
        if lab not in c:
            continue
        ctx.simtime += 1
        ctx.event("rolling", t, c[lab].values)
        d = diff(canon(c[lab]), canon(a[lab]), tol)
        if t in hit:
            if d:
                ctx.probe("result changed by a corruption")
            continue
        same += 1
        if d:
            ctx.violate("not-forgotten", f"rolling window of {r['memory']} at row {t}, corrupted rows {[b['at'] for b in sc['bad']]}: {d}")
    ctx.probe("results that had to stay the same", same)
    ctx.nontrivial = same > 0


def execute(sc, ctx):
    ctx.interleaving = hashlib.sha256(json.dumps([sc["bad"], sc.get("plan")], sort_keys=True).encode()).hexdigest()[:16]
    if "rolling" in sc:
        return rolling(sc, ctx)
    w, s = sc["world"], sc["stream"]
    n = world.avail(w)
    win = min(s["window"] or n, n)
    clean = kernel.pristine(lambda: world.alone(w, s))
    seam = seams.SolverSeam(ctx).install()
    for p, f in sc["plan"].items():
        seam.plan[("s", int(p))] = f
        ctx.probe("solver fault next to the corruption")
    src = Corrupted(w, sc["bad"])
    for b in sc["bad"]:
        ctx.fault(f"corrupted {b['what']}: {b['how']}")
        if b["at"] == 0:
            ctx.probe("corruption at the first forecast")
        if b["at"] == n:
            ctx.probe("corruption at the last forecast")
    st = Stream("s", src.open(s), seam)
    while st.next():
        pass
    a, k = s["times"] or [0, n]
    steps = [i for i in range(a, a + k) if i >= win - 1]
    if len(st.got) != len(clean):
        ctx.violate("stream-length", f"{len(st.got)} results with the corruption, {len(clean)} without")
    wt, ct = touched(sc, n, win)
    same = 0
    for j, (i, got, exp) in enumerate(zip(steps, st.got, clean)):
        ctx.simtime += 1
        ctx.event("got", i, got)
        if got is None or exp is None:
            if got is None and exp is not None and ("s", j) not in seam.fired and (i not in wt or ("s", j) not in seam.failed):
                ctx.violate("placeholder-without-failure", f"step {i} is empty, without the corruption it is answered")
            continue
        if ("s", j) in seam.inaccurate or ("s", j) in seam.fired:
            continue
        if got["time"] != exp["time"]:
            ctx.violate("times-differ", f"step {i}: {got['time']} / {exp['time']}")
        if i in wt:
            if diff(got, exp, world.LOOSE):
                ctx.probe("result changed by a corruption")
            continue
        d = diff(got["weights"], exp["weights"], world.SAME, ".weights")
        if d is None and i not in ct:
            d = diff(got, exp, world.SAME)
        same += 1
        if d:
            ctx.violate("not-forgotten", f"window {win}, corruption {sc['bad']} (forecast number e is that of step e-1), step {i} (corrupted / clean): {d}")
    if sc.get("keep"):
        # the wrong data are corrected in place, in the objects that were used already
        right = Sources(w)
        for name in ("R", "sig", "mus"):
            old = getattr(src, name)
            setattr(src, name, world.refill(old, getattr(right, name)))
            if old is not None and getattr(src, name) is old:
                ctx.probe("data corrected in place")
        src.build()
        st = Stream("again", src.open(s), seam)
        while st.next():
            pass
        ctx.event("corrected", st.got)
        if len(st.got) != len(clean):
            ctx.violate("stream-length", f"{len(st.got)} results with corrected data, {len(clean)} without the corruption")
        for j, (i, got, exp) in enumerate(zip(steps, st.got, clean)):
            if got is None or exp is None or ("again", j) in seam.inaccurate:
                continue
            d = diff(got, exp, world.SAME)
            if d:
                ctx.violate("not-forgotten", f"window {win}, corruption {sc['bad']} was corrected in place, step {i} (corrected / clean): {d}")
    ctx.probe("results that had to stay the same", same)
    ctx.nontrivial = same > 0


def shrink(sc):
    if sc.get("keep"):
        yield dict(sc, keep=False)
    for x in interleave.chunks_removed(sc["bad"]):
        yield dict(sc, bad=x)
    for i, b in enumerate(sc["bad"]):
        if b.get("len", 1) > 1:
            yield dict(sc, bad=[dict(x, len=1) if j == i else x for j, x in enumerate(sc["bad"])])
    if sc.get("plan"):
        yield dict(sc, plan={})
    if "stream" in sc and sc["stream"].get("times"):
        yield dict(sc, stream=dict(sc["stream"], times=None))
    for c in interleave.shrink_worlds({"sources": [sc["world"]]}):
        v = c["sources"][0]
        if any(b["what"] == "mean" for b in sc["bad"]) and not v.get("means"):
            continue
        if v["n"] != sc["world"]["n"] or v["K"] != sc["world"]["K"]:
            continue
        if world.fits(v, sc.get("stream")):
            yield dict(sc, world=v)
