"""Backtest portfolios do not depend on how workers are scheduled."""

import hashlib
import json

import numpy as np

from .. import interleave, kernel, seams, trading, world

RUNS = {"quick": 800, "thorough": 20000}
RULE = ("A case is a history of backtests on one or two traders; the process pool is simulated: forked workers run one at a time, "
        "the seed decides number of workers, batches, order and failures (in a worker, in a worker's solver, in the parent while the "
        "pool works); between backtests the data may be updated in place and the traders built again. Every portfolio is compared with its date's own problem, built and solved independently. Non-trivial: "
        "portfolios of at least two dates came out of a pool, or a worker failed.")
PROBES = ["failed backtest", "backtest after a failed one", "portfolio compared with its own problem", "second backtest on the same trader",
          "pool with one worker", "data updated in place", "caller's own list of constraints",
          "through a backtest class"]
REAL = ["experiments.utils.trading_model", "experiments.utils.portfolio_backtests", "cvxpy", "Clarabel (compiled)", "pickling of the problems, forked worker processes"]
STUB = ["scheduler of the process pool", "ECOS (not installed) is answered by Clarabel", "status line of the solver in faulted steps"]
ASSUMPTIONS = ["a worker fails with an exception; a worker that is killed outright makes Python's own pool wait for ever, which no caller can mend",
               "relative accuracy of the objective 1e-5 (1e-4 for mean-variance; 1e-3 of the shares of the risk for risk parity)"]
MEASURE = "distinct (workers, batches, order) histories and faults"


def generate(rng, tier):
    d = trading.gen_data(rng, tier)
    steps = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        b = trading.gen_backtest(rng, d)
        if steps and rng.chance(0.5):  # like an earlier one, but for one or two parameters
            b = trading.vary(rng, rng.choice(steps)["b"], d)
        s = {"trader": rng.choice([0, 0, 1]), "b": b, "fail": None}
        if b["type"] in trading.CLASSES and d["T"] > 2 and rng.chance(0.3):
            # through one of the classes that run several predictors
            first = rng.choice([0, 0, 1, rng.randrange(d["T"] - 1)])
            last = rng.choice([d["T"] - 1, d["T"] - 1, rng.randrange(first + 1, d["T"])])
            start = rng.choice([None, rng.randrange(first, last)])
            s["class"] = {"preds": rng.choice([1, 2, 2]),
                          "labels": [first, last, start, rng.choice([None, rng.randrange((start or first) + 1, last + 1)])]}
        if rng.chance(0.3) and b["type"] != "eq_weighted":
            s["fail"] = {"task": rng.randrange(64), "kind": rng.choice(trading.FAILS)}
        steps.append(s)
    sc = {"data": d, "steps": steps, "pool": rng.randrange(1 << 40), "twins": rng.chance(0.5), "workers": rng.choice([None, None, 1, 2])}
    if rng.chance(0.25):  # new data arrive in the same objects; the traders are built again
        i = rng.randrange(len(steps))
        if i == 0:
            steps.append(dict(steps[0], fail=None))
            i = len(steps) - 1
        steps[i] = dict(steps[i], renew=rng.choice(["same", "same", "new"]))
    return sc


def snapshot(data):
    return world.snap({"R": data.R, "S": data.S, "H": data.H, "P": data.P})


def execute(sc, ctx):
    data = trading.Data(sc["data"])
    seams.install_ecos_stub()
    seam = seams.SolverSeam().install()
    plan = seams.install_pool(kernel.Rng("pool", sc["pool"]), ctx, seam)
    plan.workers = sc.get("workers")
    if sc.get("workers") == 1:
        ctx.probe("pool with one worker")
    before = snapshot(data)
    traders = [data.trader(), (data if sc["twins"] else trading.Data(sc["data"])).trader()]
    used, failed = set(), set()
    T = sc["data"]["T"]
    own, shared = [], {}
    try:
        for j, s in enumerate(sc["steps"]):
            if s.get("renew"):
                if snapshot(data) != before:
                    ctx.violate("inputs-changed", "returns, covariances or forecasts were changed by the backtests")
                new = trading.Data(dict(sc["data"], seed=sc["data"]["seed"] + 1000 + j))
                keep = world.Keeper(s["renew"] == "same", ctx)
                for x in ("R", "S", "H", "P"):
                    keep(x, getattr(data, x))
                    setattr(data, x, keep(x, getattr(new, x)))
                data.d = new.d
                before = snapshot(data)
                traders = [data.trader(), data.trader()]
                used, failed = set(), set()
            tr, b = traders[s["trader"]], s["b"]
            ctx.ops += 1
            plan.fail = dict(s["fail"], call=plan.jobs) if s["fail"] else None
            plan.raised = None
            if s.get("class"):
                by_class(sc, ctx, j, s, data, plan)
                continue
            if s["trader"] in used:
                ctx.probe("second backtest on the same trader")
            if s["trader"] in failed:
                ctx.probe("backtest after a failed one")
            used.add(s["trader"])
            checks = [trading.optimum(data, b, t) for t in range(T)]
            infeasible = any(c is None for c in checks)
            err = None
            try:
                if b["own_list"]:
                    ctx.probe("caller's own list of constraints")
                    lim = shared.setdefault(repr(trading.limits(b)), trading.limits(b))
                    trading.run(tr, data, b, cons=own, lim=lim)
                else:
                    trading.run(tr, data, b)
            except BaseException as e:  # noqa: BLE001
                err = e
            if own:
                ctx.violate("constraint-list-changed", f"the caller's list of constraints has {len(own)} entries after the backtest")
            for k, lim in shared.items():
                if repr(lim) != k:
                    ctx.violate("limits-changed", f"the caller's limits {k} are {lim} after the backtest {b['type']}")
            ws = getattr(tr, "ws", None)
            ctx.event("backtest", j, b["type"], None if ws is None or err is not None else np.round(np.asarray(ws, dtype=float), 6), repr(err)[:80] if err else None)
            if plan.raised is not None:
                failed.add(s["trader"])
                ctx.probe("failed backtest")
                ctx.nontrivial = True
                if err is None:
                    if s["fail"]["kind"].startswith("solver:truncate"):
                        pass  # judged by the portfolios below
                    else:
                        ctx.violate("failure-hidden", f"{s['fail']} in a worker of {b['type']}: no error, portfolios {np.asarray(ws)[:2]}")
                else:
                    if isinstance(plan.raised, BaseException) and not isinstance(plan.raised, Exception) and not isinstance(err, KeyboardInterrupt):
                        ctx.violate("failure-hidden", f"an interruption reached the caller as {err!r}")
                    if ws is not None:
                        ctx.violate("portfolios-of-failed-backtest", f"{b['type']} failed with {err!r} but portfolios are visible")
                    continue
            elif err is not None:
                if infeasible:
                    ctx.probe("infeasible problem refused")
                    continue
                raise err
            ws = np.asarray(ws)
            if len(ws) != T:
                ctx.violate("wrong-number", f"{b['type']}: {len(ws)} portfolios for {T} dates")
            for t in range(T):
                ctx.simtime += 1
                if checks[t] is None:
                    ctx.probe("infeasible date")
                    continue
                try:
                    w = np.asarray(ws[t], dtype=float)
                except (TypeError, ValueError):
                    ctx.violate("not-own-optimum", f"{b['type']} date {t} of {T}: no portfolio {ws[t]!r} and no error")
                c = checks[t](w) if np.isfinite(w).all() else f"weights {w}"
                if c:
                    ctx.violate("not-own-optimum", f"{b} date {t} of {T}: {c}")
                ctx.probe("portfolio compared with its own problem")
            if T > 1 and b["type"] != "eq_weighted":
                ctx.nontrivial = True
    finally:
        ctx.event("pools", plan.trace)
        seams.stop_pools()
    if snapshot(data) != before:
        ctx.violate("inputs-changed", "returns, covariances or forecasts were changed by the backtests")
    ctx.interleaving = hashlib.sha256(repr([plan.trace, sc["steps"]]).encode()).hexdigest()[:16]


def by_class(sc, ctx, j, s, data, plan):
    b = dict(s["b"], adjust=1)
    c = s["class"]
    ctx.probe("through a backtest class")
    datas = [data, trading.Data(dict(sc["data"], seed=sc["data"]["seed"] + 1))][: c["preds"]]
    datas[-1].P = data.P
    labels = list(data.R.index)
    # a label 0 counts as no label
    first, last, start, end = c["labels"]
    ask = [first, last, *[None if x is not None and not isinstance(labels[x], str) and labels[x] == 0 else x for x in (start, end)]]
    lo, hi = (first if ask[2] is None else ask[2]), (last if ask[3] is None else ask[3])
    if s["fail"] and c["preds"] > 1 and b["type"] != "eq_weighted":
        plan.fail["call"] += s["fail"]["task"] % 2  # while the second predictor runs
    checks = [[trading.optimum(d, b, t) for t in range(lo, hi)] for d in datas]
    err, got = None, None
    try:
        got = trading.run_class(datas, b, ask)
    except BaseException as e:  # noqa: BLE001
        err = e
    ctx.event("class", j, b["type"], repr(err)[:80] if err else [np.round(np.asarray(t.ws, dtype=float), 6) for t in got.values()])
    if plan.raised is not None:
        ctx.probe("failed backtest")
        ctx.nontrivial = True
        if err is None and not s["fail"]["kind"].startswith("solver:truncate"):
            ctx.violate("failure-hidden", f"{s['fail']} in a worker of {b['type']}: no error from the class")
        if err is not None:
            return
    elif err is not None:
        if any(x is None for x in sum(checks, [])):
            ctx.probe("infeasible problem refused")
            return
        raise err
    if list(got) != [f"predictor {i}" for i in range(len(datas))]:
        ctx.violate("wrong-number", f"backtests of {list(got)} for {len(datas)} predictors")
    for i, (d, tr) in enumerate(zip(datas, got.values())):
        if [world._lab(x) for x in tr.returns.index] != [world._lab(x) for x in labels[lo:hi]] or len(tr.ws) != hi - lo:
            ctx.violate("wrong-number", f"{b['type']}: portfolios of {list(tr.returns.index)} instead of {labels[lo:hi]}")
        for t in range(lo, hi):
            ctx.simtime += 1
            w = np.asarray(tr.ws[t - lo], dtype=float)
            bad = None if checks[i][t - lo] is None else checks[i][t - lo](w) if np.isfinite(w).all() else f"weights {w}"
            if bad:
                ctx.violate("not-own-optimum", f"class backtest {b} of predictor {i}, date {t}: {bad}")
            ctx.probe("portfolio compared with its own problem")
    if hi - lo > 1 and b["type"] != "eq_weighted":
        ctx.nontrivial = True


def shrink(sc):
    for x in interleave.chunks_removed(sc["steps"], 1):
        yield dict(sc, steps=x)
    for i, s in enumerate(sc["steps"]):
        if s["fail"]:
            yield dict(sc, steps=[dict(x, fail=None) if j == i else x for j, x in enumerate(sc["steps"])])
        if s.get("renew"):
            yield dict(sc, steps=[dict(x, renew=None) if j == i else x for j, x in enumerate(sc["steps"])])
        for ch in ({"rhos": False}, {"adjust": 1}, {"own_list": False}, {"lb": None}, {"short": None}):
            if any(s["b"][k] != v for k, v in ch.items()):
                yield dict(sc, steps=[dict(x, b=dict(x["b"], **ch)) if j == i else x for j, x in enumerate(sc["steps"])])
    for i, s in enumerate(sc["steps"]):
        if s.get("class"):
            for c in ({"preds": 1}, {"labels": [0, sc["data"]["T"] - 1, None, None]}):
                if any(s["class"][k] != v for k, v in c.items()):
                    yield dict(sc, steps=[dict(x, **{"class": dict(x["class"], **c)}) if j == i else x for j, x in enumerate(sc["steps"])])
    d = sc["data"]
    if any(s.get("class") for s in sc["steps"]):
        return
    for ch in ({"T": max(1, d["T"] // 2)}, {"T": max(1, d["T"] - 1)}, {"n": 3}, {"index": "int"}):
        if any(d[k] != v for k, v in ch.items()):
            yield dict(sc, data=dict(d, **ch))
    if sc.get("workers") != 1:
        yield dict(sc, workers=1)
