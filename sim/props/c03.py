"""A delivered combination is never garbage."""

import hashlib
import json

import numpy as np

from .. import faulty, interleave, kernel, seams, world
from ..world import Sources, Stream

RUNS = {"quick": 1800, "thorough": 16000}
RULE = ("A case is a combination stream over diverse (badly conditioned, badly scaled, nearly equal, outlier-ridden) experts and "
        "returns with a seeded schedule of solver faults or a real iteration limit. Non-trivial: at least one fault or limit hit "
        "and at least one delivered result verified.")
PROBES = ["real iteration limit hit", "ill conditioned experts"]
REAL = ["cvx.covariance.combination", "cvx.covariance.ewma", "cvxpy", "Clarabel (compiled)"]
STUB = ["status line of the solver in faulted steps (the solver itself still runs, except for raised errors)"]
ASSUMPTIONS = ["the experts are symmetric positive definite", "accuracy of the recomputation is scaled with the conditioning of the experts"]


def generate(rng, tier):
    w = faulty.gen_w(rng, T=(12, 26), long=0.02)
    s = faulty.gen_stream(rng, w)
    if rng.chance(0.35):
        s["opts"] = {"max_iter": rng.randint(0, 12)}
    hostile = []
    if not w.get("ewmas"):
        for _ in range(rng.choice([0, 1, 2, 3])):
            hostile.append([rng.choice(["cond", "scale", "dup", "outlier", "tiny", "sick"]), rng.randrange(1 << 30)])
    else:
        for _ in range(rng.choice([0, 1])):
            hostile.append(["outlier", rng.randrange(1 << 30)])
    n = faulty.n_steps(w, s)
    plan = faulty.gen_plan(rng, max(1, n)) if rng.chance(0.75) else {}
    return {"world": w, "stream": s, "plan": plan, "hostile": hostile}


def shrink(sc):
    for h in interleave.chunks_removed(sc["hostile"]):
        yield dict(sc, hostile=h)
    yield from faulty.shrink(sc)


def apply_hostile(src, hostile, ctx):
    rebuild = False
    for kind, key in hostile:
        rng = world.g("hostile", key)
        if kind == "outlier":
            t = int(rng.integers(src.w.get("start", 0), len(src.R)))
            src.R.iloc[t] = src.R.iloc[t] * 10.0 ** rng.uniform(0, 3)
            ctx.fault("outlier in the returns")
        elif kind == "huge":
            t = int(rng.integers(src.w.get("start", 0), len(src.R)))
            src.R.iloc[t] = src.R.iloc[t] * 10.0 ** rng.uniform(3, 7)
            ctx.fault("huge outlier in the returns")
        elif kind == "tiny":
            t = int(rng.integers(0, len(src.R)))
            src.R.iloc[t] = src.R.iloc[t] * 1e-4
            ctx.fault("nearly constant prices")
        elif kind == "sick":  # all experts agree on assets that nearly are copies of each other
            n = src.R.shape[1]
            Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
            half = (Q * 10.0 ** (-np.linspace(0, rng.uniform(2.5, 4.5), n))) @ Q.T
            for k in src.sig:
                for t in list(src.sig[k]):
                    D = src.sig[k][t]
                    S = half @ (np.eye(n) + 0.5 * world.rand_spd(rng, n)) @ half * src.w.get("scale", 0.01) ** 2
                    D.iloc[:, :] = (S + S.T) / 2
            src.R.iloc[:, :] = rng.normal(size=src.R.shape) @ half * src.w.get("scale", 0.01)
            ctx.fault("experts: nearly singular")
            ctx.probe("ill conditioned experts")
        else:
            k = list(src.sig)[int(rng.integers(len(src.sig)))]
            n = src.R.shape[1]
            base = world.rand_spd(rng, n, 1e4 if kind == "cond" else 10) * src.w.get("scale", 0.01) ** 2
            f = 10.0 ** rng.uniform(-2, 2)
            other = list(src.sig)[0]
            for t in list(src.sig[k]):
                D = src.sig[k][t]
                if kind == "cond":
                    D.iloc[:, :] = base * (1 + 0.1 * rng.normal() ** 2)
                elif kind == "scale":
                    D.iloc[:, :] = D.values * f
                elif kind == "same":
                    D.iloc[:, :] = src.sig[other][t].values
                elif kind == "dup" and other != k:
                    D.iloc[:, :] = src.sig[other][t].values * (1 + 1e-3 * rng.normal() ** 2)
            ctx.fault(f"expert: {kind}")
            if kind == "cond":
                ctx.probe("ill conditioned experts")
        rebuild = True
    if rebuild:
        from cvx.covariance.combination import from_ewmas, from_sigmas

        w = src.w
        if w.get("ewmas"):
            src.comb = from_ewmas(src.R, [tuple(p) for p in w["ewmas"]["pairs"]], **w["ewmas"]["kw"])
        else:
            src.comb = from_sigmas(sigmas=src.sig, returns=src.R, means=src.mus)


def experts(src):
    """The forecasts of the experts, independently of the combinator."""
    w = src.w
    if not w.get("ewmas"):
        return src.sig, src.mus
    from cvx.covariance.ewma import iterated_ewma

    sig, mus = {}, {}
    for p in w["ewmas"]["pairs"]:
        k = f"{p[0]}-{p[1]}"
        sig[k], mus[k] = {}, {}
        for r in iterated_ewma(src.R, vola_halflife=p[0], cov_halflife=p[1], **w["ewmas"]["kw"]):
            sig[k][r.time], mus[k][r.time] = r.covariance, r.mean
    return sig, mus


def verify(r, sig, mus, assets, status, when):
    """None or (kind, what) for one delivered result"""
    wt = 1e-5 if status == "Solved" else 2e-3
    keys = list(sig)
    if list(r.weights.index) != keys:
        return "labels", f"weights labelled {list(r.weights.index)}, experts are {keys}"
    wv = np.asarray(r.weights.values, dtype=float)
    if not np.isfinite(wv).all():
        return "garbage-weights", f"weights {wv} at {r.time}"
    if wv.min() < -wt or abs(wv.sum() - 1) > wt:
        return "garbage-weights", f"weights {wv} (sum {wv.sum()}) at {r.time} are not a convex combination"
    C = r.covariance
    if list(C.index) != list(assets) or list(C.columns) != list(assets) or list(r.mean.index) != list(assets):
        return "labels", f"covariance or mean not labelled by the assets at {r.time}"
    Cv = np.asarray(C.values, dtype=float)
    mv = np.asarray(r.mean.values, dtype=float)
    if not np.isfinite(Cv).all() or not np.isfinite(mv).all():
        return "garbage-covariance", f"not finite at {r.time}: {Cv.ravel()[:6]} {mv[:4]}"
    d = np.sqrt(np.abs(np.diag(Cv))) + 1e-300
    if np.abs((Cv - Cv.T) / np.outer(d, d)).max() > 1e-6:
        return "garbage-covariance", f"not symmetric at {r.time}"
    if np.linalg.eigvalsh((Cv + Cv.T) / 2 / np.outer(d, d)).min() <= 0:
        return "garbage-covariance", f"not positive definite at {r.time}"
    Ls = {k: np.linalg.cholesky(np.linalg.inv(sig[k][r.time].values)) for k in keys}
    L = sum(x * Ls[k] for x, k in zip(wv, keys))
    want = np.linalg.inv(L @ L.T)
    cond = np.linalg.cond(L)
    tol = 1e-8 + 1e-13 * cond ** 2
    if np.abs(Cv - want).max() > tol * np.abs(want).max():
        return "wrong-covariance", f"at {r.time} the covariance is not the one of the delivered weights: {Cv.ravel()[:4]} / {want.ravel()[:4]}"
    if mus is None:
        want_m = np.zeros(len(assets))
    else:
        want_m = np.linalg.solve(L.T, sum(x * (Ls[k].T @ np.asarray(mus[k][r.time], dtype=float)) for x, k in zip(wv, keys)))
    size = max(np.abs(want_m).max(), np.sqrt(np.abs(want).max()))
    if np.abs(mv - want_m).max() > (1e-7 + 1e-12 * cond) * size:
        return "wrong-mean", f"at {r.time} the mean is not the one of the delivered weights: {mv} / {want_m}"
    return None


def execute(sc, ctx):
    w, s = sc["world"], sc["stream"]
    seam = seams.SolverSeam(ctx).install()
    src = Sources(w)
    apply_hostile(src, sc["hostile"], ctx)
    sig, mus = experts(src)
    for p, f in sc["plan"].items():
        seam.plan[("main", int(p))] = f
    st = Stream("main", src.open(s), seam)
    ok = 0
    last = None
    order = {t: i for i, t in enumerate(next(iter(sig.values())))}
    while True:
        pos = len(st.got)
        more = st.next(keep_raw=True)
        ctx.ops += 1
        ctx.simtime += 1
        if not more:
            break
        ctx.event("got", pos, st.got[-1])
        r = st.raw[-1]
        if any(c["tag"] == ("main", pos) and c["status"] == "MaxIterations" and not c["kind"] for c in seam.calls[-3:]):
            ctx.probe("real iteration limit hit")
            ctx.fault("real iteration limit")
        if r is None:
            continue
        status = seam.calls[-1]["status"] if seam.calls else "Solved"
        bad = verify(r, sig, mus, src.R.columns, status, pos)
        if bad:
            ctx.violate(bad[0], f"position {pos}, solver status {status}, fault {seam.fired.get(('main', pos))}: {bad[1]}")
        if r.time not in order or (last is not None and order[r.time] <= order[last]):
            ctx.violate("wrong-time", f"position {pos} is labelled {r.time} after {last}")
        last = r.time
        ok += 1
    ctx.probe("delivered results verified", ok)
    ctx.nontrivial = ok > 0 and (bool(seam.fired) or bool(seam.natural) or bool(sc["hostile"]))
    ctx.interleaving = hashlib.sha256(json.dumps([sc["plan"], sc["hostile"], s["opts"]], sort_keys=True).encode()).hexdigest()[:16]
