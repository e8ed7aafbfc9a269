"""Backtest figures always describe the latest backtest and the query made."""

import hashlib
import math

import numpy as np

from .. import interleave, kernel, seams, trading, world

RUNS = {"quick": 800, "thorough": 18000}
RULE = ("A case is a history of backtests and queries on one or two traders: backtests that succeed, fail in a worker, in a worker's solver or "
        "are interrupted at a seeded source line; metrics, returns, growth, dilution and risk-adjusted growth for changing parameters, some of "
        "them refused or interrupted half way; sometimes the two traders run in two threads, sometimes the data are updated in place and the trader is built again. Every reported figure is compared with a trader built in a pristine "
        "process that runs only the latest successful backtest and that query. Non-trivial: a figure was reported by a trader after at least "
        "two backtests or queries with different parameters.")
PROBES = ["figure after a failed backtest refused", "figure after several backtests", "figure after several dilutions", "query interrupted",
          "backtest interrupted", "two traders in two threads", "data updated in place", "figure of a query that follows another one", "refused query", "table"]
REAL = ["experiments.utils.trading_model", "experiments.utils.portfolio_backtests (tables)", "cvxpy", "Clarabel (compiled)", "pickling of the problems, forked worker processes"]
STUB = ["scheduler of the process pool", "ECOS (not installed) is answered by Clarabel", "status line of the solver in faulted steps"]
ASSUMPTIONS = ["the target risk is given with every query of a diluted portfolio",
               "interruptions arrive between source lines of the repository and in worker processes"]
MEASURE = "distinct histories of operations, failures and worker schedules"
FIGURES = ["rets", "Vs", "rets_adjusted", "Vs_adjusted", "ws_diluted"]


def gen_query(rng, sigmas):
    op = rng.weighted([("metrics", 5), ("figures", 4), ("growth", 1.5), ("adjust", 2), ("dilute", 2), ("read", 2), ("table", 2)])
    q = {"op": op}
    if op in ("metrics", "figures"):
        q.update(diluted=rng.chance(0.6), sigma=rng.choice(sigmas), rf=rng.weighted([(None, 4), ("full", 4), ("short", 1)]))
        if op == "metrics":
            q["excess"] = rng.chance(0.3)
    elif op == "table":
        q.update(sigma=rng.choice(sigmas + [None]), rf=rng.choice([None, "full"]), excess=rng.chance(0.3), rows=rng.choice([1, 2, 2]),
                 prescient=rng.chance(0.6), first=rng.chance(0.5))
        q["excess"] = q["excess"] and q["rf"] is not None
    elif op in ("dilute", "adjust"):
        q["sigma"] = rng.choice(sigmas)
    elif op == "read":
        q["what"] = rng.choice(FIGURES)
    return q


def generate(rng, tier):
    d = trading.gen_data(rng, tier)
    d["T"] = max(3, d["T"])
    sigmas = rng.sample([0.05, 0.1, 0.15, 0.3], 2)
    threads = rng.chance(0.15)
    traders = 2 if threads or rng.chance(0.25) else 1
    steps = []
    base = trading.gen_backtest(rng, d)
    for _ in range(rng.randint(4, 12)):
        s = {"trader": rng.randrange(traders)}
        if not steps or rng.chance(0.3):
            b = trading.gen_backtest(rng, d)
            if rng.chance(0.6):  # differs from another one in little
                b = trading.vary(rng, base, d)
                if rng.chance(0.2):
                    b["adjust"] = rng.choice([1, 4])
            mine = [x["b"] for x in steps if x["op"] == "backtest" and x["trader"] == s["trader"]]
            if mine and rng.chance(0.25):  # the same portfolios, other units
                b = dict(mine[-1], adjust=4 if mine[-1].get("adjust") in (None, 1) else 1)
            s.update(op="backtest", b=b, fail=None)
            if not threads and rng.chance(0.25) and b["type"] != "eq_weighted":
                s["fail"] = {"task": rng.randrange(64), "kind": rng.choice(trading.FAILS)}
        else:
            s.update(gen_query(rng, sigmas))
            while threads and s["op"] == "table":  # standard output is one for all threads
                s.update(gen_query(rng, sigmas))
        if not steps and rng.chance(0.8):
            s["fail"] = None
        elif not threads and not s.get("fail") and rng.chance(0.2):
            most = rng.choice([16, 300]) if s["op"] == "backtest" else rng.choice([12, 120])
            s["stop"] = {"line": int(math.exp(rng.random() * math.log(most))), "exc": rng.choice(
                ["KeyboardInterrupt", "MemoryError", "CustomInterrupt"])}
            if rng.chance(0.5):  # counted from the end of the operation
                s["stop"].update(line=rng.randrange(6), back=True)
        steps.append(s)
        if s.get("stop") and s.get("sigma") and rng.chance(0.6):  # what is left behind?
            after = [{"op": "figures", "diluted": True, "sigma": sigmas[sigmas[0] == s["sigma"]], "rf": None}, {"op": "read", "what": "ws_diluted"}]
            steps.append(dict(rng.weighted([(after[0], 3), (after[1], 1)]), trader=s["trader"]))
        if s["op"] == "backtest" and rng.chance(0.35):  # the usual sequence of queries
            usual = {"op": "figures", "diluted": rng.chance(0.5), "sigma": rng.choice(sigmas), "rf": None}
            steps.append(dict(usual, trader=s["trader"]))
            if rng.chance(0.7):
                steps.append({"trader": s["trader"], "op": "adjust", "sigma": sigmas[0]})
    sc = {"data": d, "steps": steps, "pool": rng.randrange(1 << 40), "traders": traders, "threads": threads, "sched": rng.randrange(1 << 40),
          "workers": rng.choice([None, None, 1])}
    if not threads and rng.chance(0.3):  # new data arrive in the same objects; the trader is built again
        i = rng.choice([i for i, s in enumerate(steps) if s["op"] == "backtest"])
        k = steps[i]["trader"]
        mine = [x["b"] for x in steps[:i] if x["op"] == "backtest" and x["trader"] == k]
        if i == 0:
            steps.insert(0, {"trader": k, "op": "backtest", "b": dict(steps[0]["b"]), "fail": None})
            i = 1
        elif mine and rng.chance(0.5):
            steps[i] = dict(steps[i], b=dict(mine[-1]))
        steps.insert(i, {"trader": k, "op": "renew", "same": rng.chance(0.7)})
    return sc


def ask(tr, data, q):
    """Answers of one query, as plain arrays"""
    op = q["op"]
    rf = None
    if q.get("rf"):
        rf = data.rf if q["rf"] == "full" else data.rf.iloc[:-1]
    if op == "metrics":
        m = tr.get_metrics(diluted_with_cash=q["diluted"], sigma_des=q["sigma"], rf=rf, excess=q["excess"])
        return {"metrics": np.array([float(x) for x in m]), "rets": tr.rets, "Vs": tr.Vs}
    if op == "figures":
        tr.get_total_returns(diluted_with_cash=q["diluted"], sigma_des=q["sigma"], rf=rf)
        tr.get_portfolio_growth()
        return {"rets": tr.rets, "Vs": tr.Vs, "drawdown": tr.compute_max_drawdown()}
    if op == "growth":
        tr.get_portfolio_growth()
        return {"Vs": tr.Vs, "drawdown": tr.compute_max_drawdown()}
    if op == "adjust":
        tr.get_risk_adj_portfolio_growth(sigma_des=q["sigma"])
        return {"rets_adjusted": tr.rets_adjusted, "Vs_adjusted": tr.Vs_adjusted}
    if op == "dilute":
        tr.dilute_with_cash(sigma_des=q["sigma"])
        return {"ws_diluted": tr.ws_diluted}
    if op == "read":
        return {q["what"]: getattr(tr, q["what"])}
    raise KeyError(op)


def table(traders, k, data, q):
    """The printed table as {name: figures}; {trader: name of its row}. The table has a row for trader k and maybe one for the other trader."""
    import contextlib
    import io

    from experiments.utils.portfolio_backtests import create_table

    rows = [k] + [x for x in range(len(traders)) if x != k][: q["rows"] - 1]
    if q["prescient"] and q["first"]:
        rows = rows[::-1]  # the prescient predictor is not always the last one
    names = {x: f"R{x}" for x in rows}
    if q["prescient"]:
        names[k] = "PRESCIENT"
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        create_table({names[x]: traders[x] for x in rows}, q["sigma"], data.rf if q["rf"] else None, q["excess"], prescient=q["prescient"])
    out = []
    for line in text.getvalue().splitlines():
        cells = [c.replace("\\", "").replace("%", "").strip() for c in line.split("&")]
        if len(cells) == 5 and not cells[0].startswith("{"):
            out.append((cells[0], [float(c) for c in cells[1:]]))
    return rows, names, out


def plain(out):
    return {k: None if v is None else np.array(v, dtype=float).squeeze() for k, v in out.items()}


def same(a, b):
    if "row" in a:  # return, risk (percent), Sharpe ratio, drawdown (percent) as printed
        want = b["metrics"] * np.array([100, 100, 1, 100])
        return bool(np.allclose(a["row"], want, rtol=2e-5, atol=[0.0501, 0.0501, 0.0501, 0.501], equal_nan=True))
    for k, v in a.items():
        if v is None:
            continue  # nothing is reported
        w = b.get(k)
        if w is None or v.shape != w.shape or not np.allclose(v, w, rtol=2e-5, atol=1e-7, equal_nan=True):
            return False
    return True


class Reference:
    """What a fresh trader reports; computed in pristine processes."""

    def __init__(self, sc, ctx):
        self.sc, self.ctx, self.todo = sc, ctx, []

    def compute(self, todo):
        """todo: (trader, backtest, chain of queries) -> answers of the last query of the chain, or the error"""
        groups = {}
        for key in todo:
            groups.setdefault((key[0], repr(key[1])), []).append(key)
        out = {}
        for keys in groups.values():
            (k, v), b = keys[0][0], keys[0][1]

            def fresh(k=k, v=v, b=b, keys=keys):
                seams.install_ecos_stub()
                plan = seams.install_pool(kernel.Rng("pool", self.sc["pool"], "reference"), self.ctx)
                plan.workers = 1
                data = make_data(self.sc, k, v)
                tr = data.trader()
                trading.run(tr, data, b)
                res = []
                for _, _, chain in keys:

                    def one(chain=chain):
                        try:
                            for q in chain:
                                a = ask(tr, data, q)
                            return plain(a)
                        except Exception as e:  # noqa: BLE001
                            return repr(e)

                    res.append(kernel.pristine(one))
                seams.stop_pools()
                return res

            try:
                vals = kernel.pristine(fresh)
            except kernel.Pristine as e:
                vals = [str(e)] * len(keys)
            for key, v in zip(keys, vals):
                out[repr(key)] = v
        return out


def make_data(sc, k, version=0):
    return trading.Data(dict(sc["data"], seed=sc["data"]["seed"] + k + 1000 * version, rf_seed=sc["data"]["seed"]))


def execute(sc, ctx):
    seams.install_ecos_stub()
    seam = seams.SolverSeam().install()
    plan = seams.install_pool(kernel.Rng("pool", sc["pool"]), ctx, seam)
    plan.workers = sc.get("workers")
    datas = [make_data(sc, k) for k in range(sc["traders"])]
    traders = [d.trader() for d in datas]
    observed = []  # (step, trader, latest backtest, chains any of which may explain the answer, answer or error)
    state = [{"bt": None, "failed": False, "rq": [], "dq": [], "aq": [], "n": 0, "sig": set(), "asked": 0, "v": 0} for _ in traders]

    def tabled(j, k, q, printed, err):
        """a table asks every trader in it for its metrics"""
        m = {"op": "metrics", "diluted": q["sigma"] is not None, "sigma": q["sigma"] or 0.1, "rf": q["rf"], "excess": q["excess"]}
        fig = {x: m[x] for x in m if x not in ("op", "excess")}
        rows, names, lines = printed or (range(len(traders)), None, None)
        if err is not None:
            ctx.probe("refused query")
        else:
            ctx.probe("table")
            ctx.event("table", j, lines)
            if sorted(names.values()) != sorted(n for n, _ in lines):
                ctx.violate("wrong-table", f"step {j} {q}: a table of {sorted(names.values())} has rows {[n for n, _ in lines]}")
        for x in rows:
            st = state[x]
            if st["bt"] is None:
                if err is None:
                    ctx.violate("figure-without-backtest", f"step {j} {q}: {lines} although no backtest of {names[x]} succeeded")
                continue
            new = {"rq": dict(fig, op="figures")}
            if m["diluted"]:
                new["dq"] = {"op": "dilute", "sigma": m["sigma"]}
                st["sig"].add(m["sigma"])
            for a, v in new.items():
                st[a] = st[a] + [v] if err is not None else [v]
            st["asked"] += 1
            if err is None:
                if st["n"] > 1 or st["asked"] > 1:
                    ctx.nontrivial = True
                observed.append((j, (x, st["v"]), st["bt"], [[m]], {"row": dict(lines)[names[x]]}))

    def perform(k, s):
        """The operation on the real trader: (answer, printed table)"""
        tr, data = traders[k], datas[k]
        if s["op"] == "backtest":
            trading.run(tr, data, s["b"])
            return None, None
        if s["op"] == "table":
            return None, table(traders, k, data, s)
        return plain(ask(tr, data, s)), None

    def lines_of(k, s):
        """Executed lines of the operation in this state (in a copy of this process that is thrown away)"""
        n = [0]

        def count(code, line):
            n[0] += 1

        def probe():
            kernel.LINES.start(count)
            try:
                perform(k, s)
            except Exception:  # noqa: BLE001
                pass
            finally:
                kernel.LINES.stop()
            seams.stop_pools()
            return n[0]

        plan.fail = None
        kind, val = kernel.forked(probe)
        return val if kind == "ok" else 0

    def step(j, s):
        k = s["trader"]
        tr, data, st = traders[k], datas[k], state[k]
        ctx.ops += 1
        err = None
        if s["op"] == "renew":
            st.update(bt=None, failed=False, rq=[], dq=[], aq=[], sig=set(), v=st["v"] + 1)
            new = make_data(sc, k, st["v"])
            keep = world.Keeper(s["same"], ctx)
            for x in ("R", "S", "H", "P"):
                keep(x, getattr(data, x))
                setattr(data, x, keep(x, getattr(new, x)))
            traders[k] = data.trader()
            return
        stop = s.get("stop")
        at = stop["line"] if stop else -1
        if stop and stop.get("back"):
            at = lines_of(k, s) - at
        left = [at]

        def hook(code, line):
            if left[0] > 0:
                left[0] -= 1
                if left[0] == 0:
                    ctx.fault("interrupt:" + stop["exc"])
                    ctx.probe("backtest interrupted" if s["op"] == "backtest" else "query interrupted")
                    raise seams.make_exception(stop["exc"])

        answer, printed = None, None
        plan.fail = dict(s["fail"], call=plan.jobs) if s.get("fail") else None
        plan.raised = None
        if stop:
            kernel.LINES.start(hook)
        try:
            answer, printed = perform(k, s)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (kernel.SimAbort, kernel.SimDeadlock)):
                raise
            err = e
        finally:
            if stop:
                kernel.LINES.stop()
        ctx.event("step", j, s["op"], k, repr(err)[:60] if err else {a: np.round(v, 7) for a, v in (answer or {}).items() if v is not None})
        if s["op"] == "backtest":
            st["n"] += 1
            if err is None:
                st.update(bt=s["b"], failed=False, rq=[], dq=[], aq=[])
            else:
                st["failed"] = True
            st["sig"] = set()
            return
        q = {x: s[x] for x in s if x not in ("trader", "stop", "fail")}
        if s["op"] == "table":
            return tabled(j, k, q, printed, err)
        if st["bt"] is None or st["failed"]:
            if err is not None or all(v is None for v in answer.values()):
                ctx.probe("figure after a failed backtest refused" if st["failed"] else "figure without a backtest refused")
                if st["bt"] is None:
                    return
            if st["bt"] is None:
                ctx.violate("figure-without-backtest", f"step {j} {q}: {answer} although no backtest succeeded")
            # figures of the latest successful backtest would be all right as well
        st["asked"] += 1
        # which earlier queries the answer depends on
        if q["op"] in ("metrics", "figures", "dilute"):
            chains = [[q]]
        elif q["op"] in ("growth", "adjust"):
            chains = [[r, q] for r in st["rq"]]
        else:
            src = {"rets": st["rq"], "Vs": st["rq"], "ws_diluted": st["dq"]}.get(q["what"])
            chains = [[r] for r in src] if src is not None else st["aq"]
        new = {}
        if q["op"] in ("metrics", "figures"):
            r = dict(q, op="figures")
            r.pop("excess", None)
            new["rq"] = r
            if q["diluted"]:
                new["dq"] = {"op": "dilute", "sigma": q["sigma"]}
                if len(st["sig"] | {q["sigma"]}) > 1:
                    ctx.probe("figure after several dilutions")
                st["sig"].add(q["sigma"])
        elif q["op"] == "dilute":
            new["dq"] = q
            st["sig"].add(q["sigma"])
        if err is not None:
            # a refused or interrupted query may or may not have left its figures behind
            ctx.probe("refused query")
            for a, v in new.items():
                st[a] = st[a] + [v]
            if q["op"] == "adjust":
                st["aq"] = st["aq"] + chains
            return
        for a, v in new.items():
            st[a] = [v]
        if q["op"] == "adjust":
            st["aq"] = chains
        if st["n"] > 1:
            ctx.probe("figure after several backtests")
        if st["asked"] > 1:
            ctx.probe("figure of a query that follows another one")
        if st["n"] > 1 or st["asked"] > 1:
            ctx.nontrivial = True
        observed.append((j, (k, st["v"]), st["bt"], chains, answer))

    try:
        if sc.get("threads") and sc["traders"] > 1:
            ctx.probe("two traders in two threads")
            sched = kernel.Sched(kernel.Rng("sched", sc["sched"]), p=0.05, plan=sc.get("plan"))
            for k in range(sc["traders"]):
                sched.spawn(f"t{k}", lambda k=k: [step(j, s) for j, s in enumerate(sc["steps"]) if s["trader"] == k])
            try:
                sched.run()
            finally:
                ctx.record["plan"] = sched.switches if sc.get("plan") is None else sc["plan"]
                ctx.steps += sched.n
        else:
            for j, s in enumerate(sc["steps"]):
                step(j, s)
    finally:
        ctx.event("pools", plan.trace)
        seams.stop_pools()
    ctx.simtime = len(observed) * sc["data"]["T"]
    todo = {}
    for j, k, b, chains, ans in observed:
        for c in chains:
            todo[repr((k, b, c))] = (k, b, c)
    ref = Reference(sc, ctx).compute(todo.values())
    for j, k, b, chains, ans in observed:
        want = [ref[repr((k, b, c))] for c in chains]
        if not any(isinstance(w, dict) and same(ans, w) for w in want):
            if all(v is None for v in ans.values()):
                continue
            if "row" in ans and any(not isinstance(w, dict) for w in want):
                want = [str(w) + " (error)" for w in want]
            ctx.violate("not-the-latest-backtest", f"step {j} {sc['steps'][j]}: reported {ans}; latest backtest {b}; a fresh trader: "
                        + ("; ".join(str(w) for w in want) if want else "nothing was asked for since the latest backtest"))
    ctx.interleaving = hashlib.sha256(repr([plan.trace, sc["steps"]]).encode()).hexdigest()[:16]


def shrink(sc):
    for x in interleave.chunks_removed(sc["steps"], 1):
        yield dict(sc, steps=x)
    if sc.get("threads"):
        yield {k: v for k, v in dict(sc, threads=False).items() if k != "plan"}
    for i, s in enumerate(sc["steps"]):
        def put(**ch):
            return dict(sc, steps=[dict(x, **ch) if j == i else x for j, x in enumerate(sc["steps"])])

        if s.get("stop"):
            yield put(stop=None)
            if s["stop"]["line"] > 1:
                yield put(stop=dict(s["stop"], line=s["stop"]["line"] // 2))
        if s.get("fail"):
            yield put(fail=None)
        if s["op"] == "backtest":
            for ch in ({"type": "eq_weighted"}, {"type": "min_risk"}, {"rhos": False}, {"adjust": 1}, {"own_list": False}, {"lb": None}, {"short": None}):
                if any(s["b"][k] != v for k, v in ch.items()) and not (ch.get("type") == "min_risk" and s["b"]["type"] == "eq_weighted"):
                    yield put(b=dict(s["b"], **ch))
        elif s.get("rf"):
            yield put(rf=None)
    d = sc["data"]
    for ch in ({"T": max(3, d["T"] // 2)}, {"T": max(3, d["T"] - 1)}, {"n": 3}, {"index": "int"}):
        if any(d[k] != v for k, v in ch.items()):
            yield dict(sc, data=dict(d, **ch))
    if sc.get("workers") != 1:
        yield dict(sc, workers=1)
