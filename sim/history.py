"""Histories of library operations with interruptions, solver faults, abandoned streams and a hostile consumer.

Shared by C04 (interruptions) and C07 (nothing is changed behind anyone's back).
"""

from __future__ import annotations

import hashlib
import json
import sys

import numpy as np
import pandas as pd

from . import faulty, interleave, kernel, seams, world
from .world import Sources, Stream, canon, diff, snap

LINE_EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "MemoryError", "SystemExit", "CustomInterrupt", "CustomError", "OSError", "RuntimeError"]
SOLVER_EXC = ["KeyboardInterrupt", "MemoryError", "SystemExit", "RuntimeError", "ValueError", "OSError", "FloatingPointError", "CustomError",
              "CustomInterrupt", "LinAlgError", "LinAlgError", "KeyError", "IndexError", "TypeError", "AttributeError", "AssertionError", "TimeoutError",
              "ConnectionError", "ZeroDivisionError", "OverflowError", "NotImplementedError", "RecursionError", "DCPError", "ParameterError"]
CALLS = ["iewma", "iewma", "vola", "center", "clip", "reg", "em", "build", "build", "ewmas", "ewmas", "times", "getters"]
RESEARCH = ["rolling", "ewmapred", "dailypred", "rho", "realized", "retcomb", "lowrank", "volas"]


class Inputs:
    """The caller's objects.  They live as long as the history and are never touched by the harness."""

    def __init__(self, w):
        self.src = Sources(w)
        self.w = w
        self.low = None
        self.pairs = [(3, 6), (8, 20)]
        self.hl = [2, 5, 9]
        self.lags = [1, 2, 4]
        self.day = self.src.intraday()
        self.times = self.src.times([max(0, world.avail(w) - 5), 4])
        self.window = world.low_window(w)
        self.opts = {"max_iter": 150}
        self.low = self.src.low(1)
        self.preds = None

    def everything(self):
        return {"returns": self.src.R, "sigmas": self.src.sig, "means": self.src.mus, "pairs": self.pairs, "halflives": self.hl,
                "lags": self.lags, "intraday returns": self.day, "times": self.times, "options": self.opts,
                "initial sigmas": self.low, "predictors": self.preds}

    def returns_big(self):
        return self.src.R


def call(inp, what, arg):
    """One complete operation; returns what the library returned (raw)."""
    src, R, w = inp.src, inp.src.R, inp.w
    from cvx.covariance import combination, ewma, regularization

    if what == "iewma":
        kw = [{}, {"mean": True}, {"clip_at": 2.0}, {"mean": True, "clip_at": 3.0, "mu_halflife1": 5, "mu_halflife2": 7}][arg % 4]
        return list(ewma.iterated_ewma(R, vola_halflife=4, cov_halflife=9, min_periods_vola=2, min_periods_cov=2, **kw))
    if what == "vola":
        return [ewma.volatility(R, halflife=5, min_periods=[0, 3][arg % 2], clip_at=[None, 2.0][arg // 2 % 2])]
    if what == "center":
        return list(ewma.center(R, halflife=6, min_periods=arg % 3, mean_adj=True))
    if what == "clip":
        return [ewma.clip(R, clip_at=[None, 0.01][arg % 2])]
    if what == "reg":
        return list(regularization.regularize_covariance(src.covs(), r=1, low_rank_format=arg % 2 == 1))
    if what == "em":
        return list(regularization.em_regularize_covariance(src.covs(), inp.low))
    if what == "build":
        c = combination.from_sigmas(sigmas=src.sig, returns=R, means=src.mus)
        it = c.solve(window=inp.window + arg % 3, **inp.opts)
        return [next(it, None) for _ in range(1 + arg % 3)]
    if what == "ewmas":
        c = combination.from_ewmas(R, inp.pairs, min_periods_vola=3, min_periods_cov=3 + w["n"], clip_at=[None, 3.0][arg % 2], mean=arg // 2 % 2 == 1)
        it = c.solve(window=inp.window + 2, **inp.opts)
        return [next(it, None) for _ in range(1 + arg % 3)]
    if what == "times":
        return list(src.comb.solve(window=inp.window, times=inp.times, **inp.opts))
    if what == "getters":
        return [src.comb.K, list(src.comb.assets), src.comb.returns.copy(), list(src.comb.sigmas), list(src.comb.means)]
    from experiments.utils import experiment_utils as eu
    from experiments.utils import return_combination as rc

    if what == "rolling":
        return [eu.rolling_window(R, memory=3 + arg % 4, min_periods=2)]
    if what == "ewmapred":
        return [rc.ewma_predictors(R.iloc[:, 0], inp.hl)]
    if what == "dailypred":
        return [rc.daily_predictors(R.iloc[:, 0], inp.lags)]
    if what == "rho":
        from experiments.utils.trading_model import construct_rho

        return [construct_rho(R, n_devs=1 + arg % 2)]
    if what == "realized":
        return list(eu.realized_ewma(inp.day, 4, **[{}, {"clip_at": 4.0, "min_periods": 2}][arg % 2]))
    if what == "volas":
        return list(eu.realized_volas(inp.day))
    if what == "retcomb":
        if inp.preds is None:
            inp.preds = [rc.ewma_predictors(R[a], inp.hl) for a in R.columns]
        hats, weights = rc.ReturnCombinator().fit(R, inp.preds, 4, 0.01)
        return [hats, weights]
    if what == "lowrank":
        from experiments.utils.low_rank_ewma import low_rank_iterated_ewma

        return list(low_rank_iterated_ewma(R, 5, 12, 1, min_periods_vola=2 + arg % 2, min_periods_cov=2, mean=arg % 3 == 0, clip_at=[None, 1.5][arg % 2]))
    raise KeyError(what)


POISONABLE = {"iewma", "vola", "reg", "em", "build", "ewmas", "times", "rolling", "ewmapred", "dailypred", "rho", "realized", "volas",
              "retcomb", "lowrank", "center", "clip"}


def poison(x):
    """The consumer overwrites everything it was given."""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        for attempt in ("values", "iloc"):
            try:
                if attempt == "values":
                    x.values[...] = 777.0
                elif isinstance(x, pd.DataFrame):
                    x.iloc[:, :] = -777.0
                else:
                    x.iloc[:] = -777.0
            except (ValueError, TypeError):
                pass
    elif isinstance(x, np.ndarray):
        try:
            x[...] = 777.0
        except (ValueError, TypeError):
            pass
    elif isinstance(x, dict):
        for v in x.values():
            poison(v)
    elif isinstance(x, (tuple, list)):
        for v in x:
            poison(v)


# -- generation ------------------------------------------------------------------------------------------------------


def generate(rng, tier, interrupts, hostile, research, poisons):
    w = faulty.gen_w(rng, T=(12, 20), n=rng.choice([3, 3, 4]) if research else None)
    w["T"] = max(w["T"], 8 + w["n"])  # the operations build their own EWMA experts
    m = rng.choice([1, 2, 2, 3])
    streams = [faulty.gen_stream(rng, w) if rng.chance(0.65) else interleave.gen_estimator(rng, w) for _ in range(m)]
    ops = []
    todo, live = list(range(m)), []
    calls = CALLS + (RESEARCH if research else [])
    if w.get("gaps"):  # operations that take missing returns
        calls = [c for c in calls if c not in ("build", "retcomb", "lowrank")]
    for _ in range(rng.randint(4, 12) if tier == "quick" else rng.randint(4, 22)):
        x = rng.random()
        if todo and (x < 0.25 or not live and x < 0.5):
            i = todo.pop(0)
            live.append(i)
            op = {"op": "open", "sid": i}
        elif live and x < 0.55:
            op = {"op": "next", "sid": rng.choice(live), "n": rng.choice([1, 1, 2, 4, 30])}
        elif live and x < 0.6:
            op = {"op": rng.choice(["close", "drop"]), "sid": live.pop(rng.randrange(len(live)))}
        elif poisons and x < 0.75 and ops:
            op = {"op": "poison", "k": rng.randrange(1 << 16)}
        else:
            op = {"op": "call", "what": rng.choice(calls), "arg": rng.randrange(8)}
        if op["op"] in ("next", "call") and rng.chance(interrupts):
            # bias to the very beginning and the very end, where state is set up and handed over
            u = rng.weighted([(rng.random(), 6), (rng.random() * 0.05, 1), (1 - rng.random() * 0.05, 2)])
            op["int"] = {"exc": rng.choice(LINE_EXC), "u": u}
        ops.append(op)
    for i in live:
        if rng.chance(0.8):
            ops.append({"op": "next", "sid": i, "n": 10 ** 6})
    plan = {}
    for i, s in enumerate(streams):
        if s["kind"] != "combo":
            continue
        n = max(1, faulty.n_steps(w, s))
        if hostile and rng.chance(0.4):
            for p, f in faulty.gen_plan(rng, n).items():
                plan[f"{i}:{p}"] = f
        if rng.chance(interrupts):
            plan[f"{i}:{rng.randrange(n)}"] = {"kind": "exc:" + rng.choice(SOLVER_EXC), "attempts": "all"}
    return {"world": w, "streams": streams, "ops": ops, "plan": plan}


# -- execution -------------------------------------------------------------------------------------------------------


class Engine:
    def __init__(self, sc, ctx, dry=False):
        self.sc, self.ctx, self.dry = sc, ctx, dry
        self.seam = seams.SolverSeam(None if dry else ctx).install()
        self.inp = Inputs(sc["world"])
        self.streams = {}
        self.generation = {}
        self.keep = []  # (object, snapshot, label)
        self.fired = 0
        self.ignored = []
        for k, f in sc["plan"].items():
            i, p = k.split(":")
            self.seam.plan[(int(i), int(p))] = f

    # one operation; returns list of (raw object, label) delivered
    def do(self, op):
        k = op["op"]
        if k == "open":
            self.open(op["sid"])
            return []
        if k == "next":
            st = self.streams.get(op["sid"])
            out = []
            if st is not None:
                for _ in range(op["n"]):
                    if not st.next(keep_raw=True):
                        break
                    self.on_result(op["sid"], st)
            return out
        if k in ("close", "drop"):
            st = self.streams.get(op["sid"])
            if st is not None:
                getattr(st, k)()
            return []
        if k == "call":
            return call(self.inp, op["what"], op["arg"])
        return []

    def open(self, sid):
        s = self.sc["streams"][sid]
        self.streams[sid] = Stream(sid, self.inp.src.open(s), self.seam)

    def on_result(self, sid, st):
        if self.dry:
            return
        ctx = self.ctx
        pos = len(st.got) - 1
        exp = self.exp[sid]
        ctx.simtime += 1
        ctx.event("got", sid, pos, st.got[-1])
        if pos >= len(exp):
            ctx.violate("stream-too-long", f"stream {sid} delivers result {pos} of {len(exp)}")
        got = st.got[-1]
        self.keep.append((st.raw[-1], snap(st.raw[-1]), f"result {pos} of stream {sid}"))
        if got is None and (st.sid, pos) in self.seam.fired:
            return
        if exp[pos] is None and got is None:
            return
        if (st.sid, pos) in self.seam.inaccurate:
            return
        fault = self.seam.fired.get((st.sid, pos))
        if got is not None and fault is not None and fault != "almost" and self.sc["plan"].get(f"{sid}:{pos}", {}).get("attempts") == "all":
            ctx.violate("failure-not-reported", f"stream {sid} result {pos} delivered although the solver failed: {fault}")
        d = diff(got, exp[pos], self.tols[sid])
        if d:
            ctx.violate("result-differs", f"stream {sid} ({self.sc['streams'][sid]}) result {pos} (in this history / alone): {d}")

    def counted(self, op):
        n = 0

        def hook(code, line):
            nonlocal n
            n += 1

        kernel.LINES.start(hook)
        err = None
        try:
            self.do(op)
        except BaseException as e:  # noqa: BLE001
            err = e
        finally:
            kernel.LINES.stop()
        return n, err


def dry_counts(sc):
    """Executed library lines of each operation in the history without interruptions at lines."""
    e = Engine(sc, None, dry=True)
    out = []
    for op in sc["ops"]:
        n, err = e.counted({k: v for k, v in op.items() if k != "int"})
        out.append(n)
        if err is not None and (op["op"] == "call" or e.seam.raised is None):
            raise err
    return out


def expect_calls(sc):
    out = {}
    for op in sc["ops"]:
        if op["op"] == "call":
            key = f"{op['what']}:{op['arg']}"
            if key not in out:
                out[key] = kernel.pristine(lambda: [canon(x) for x in call(Inputs(sc["world"]), op["what"], op["arg"])])
    return out


def run_with_interrupt(engine, op, ctx, target):
    """Returns (fired, exception or None, value)."""
    n = 0
    inj = seams.make_exception(op["int"]["exc"])
    fired = False

    def hook(code, line):
        nonlocal n, fired
        if fired:
            return
        n += 1
        if n == target:
            fired = True
            ctx.event("interrupt", code.co_name, op["int"]["exc"])
            ctx.fault("interrupt:" + op["int"]["exc"])
            raise inj

    ignored = []
    old = sys.unraisablehook
    sys.unraisablehook = lambda u: ignored.append(u.exc_value)
    kernel.LINES.start(hook)
    err = value = None
    try:
        value = engine.do(op)
    except kernel.Violation:
        raise
    except BaseException as e:  # noqa: BLE001
        err = e
    finally:
        kernel.LINES.stop()
        sys.unraisablehook = old
    if inj in ignored:
        ctx.probe("interruption inside a finaliser (ignored by Python)")
        fired = False
    return fired, inj, err, value


def reaches(err, inj):
    """Did the injected exception reach the caller (an ordinary one may be chained)?"""
    if not isinstance(inj, Exception):
        return isinstance(err, type(inj))
    seen = set()
    while err is not None and id(err) not in seen:
        if err is inj:
            return True
        seen.add(id(err))
        err = err.__cause__ or err.__context__
    return False


def execute(sc, ctx):
    exp = {}
    for i, s in enumerate(sc["streams"]):
        exp[i] = kernel.pristine(lambda: world.alone(sc["world"], s))
        ctx.event("alone", i, exp[i])
    calls = expect_calls(sc)
    counts = kernel.pristine(lambda: dry_counts(sc)) if any("int" in op for op in sc["ops"]) else [0] * len(sc["ops"])
    e = Engine(sc, ctx)
    e.exp = exp
    e.tols = {i: (world.LOOSE if s["kind"] == "combo" and sc["world"].get("ewmas") else world.SAME) for i, s in enumerate(sc["streams"])}
    before = snap(e.inp.everything())
    amb = world.ambient()

    def check_unchanged(when):
        now = e.inp.everything()
        for k, given in e.inp.src.given[1]:
            if snap(now[k]) != given:
                ctx.violate("inputs-changed", f"{k} changed by {when} (or when the combinator was built)")
        if snap(now) != before:
            old = dict(before[1])
            what = [k for k, v in now.items() if snap(v) != old[k] and not (k == "predictors" and old[k] == repr(None))]
            if what:
                ctx.violate("inputs-changed", f"{what} changed by {when}")
        a = world.ambient()
        if a != amb:
            ctx.violate("ambient-changed", f"{[k for k in a if a[k] != amb[k]]} changed by {when}")
        for obj, s, label in e.keep:
            if snap(obj) != s:
                ctx.violate("result-changed-later", f"{label} changed by {when}")

    def verify_call(op, value):
        key = f"{op['what']}:{op['arg']}"
        got = [canon(x) for x in value]
        ctx.event("call", key, got)
        tol = world.LOOSE if op["what"] == "ewmas" else world.SAME
        d = diff(got, calls[key], tol)
        if d:
            ctx.violate("result-differs", f"{key} (in this history / alone): {d}")
        if op["what"] in POISONABLE:
            for j, x in enumerate(value):
                e.keep.append((x, snap(x), f"value {j} of {key}"))

    broken = done_after = 0
    for j, op in enumerate(sc["ops"]):
        ctx.ops += 1
        label = f"operation {j} {op}"
        if op["op"] == "poison":
            if e.keep:
                i = op["k"] % len(e.keep)
                obj, _, what = e.keep.pop(i)
                poison(obj)
                ctx.fault("consumer overwrites a result")
                ctx.event("poison", what)
                # two deliveries of the very same object would be caught by the comparison below
                check_unchanged(f"overwriting {what}")
            continue
        if "int" in op and counts[j] > 0:
            target = 1 + int(op["int"]["u"] * counts[j])
            fired, inj, err, value = run_with_interrupt(e, op, ctx, target)
            ctx.steps += counts[j]
        else:
            fired, inj, err, value = False, None, None, None
            try:
                value = e.do(op)
            except kernel.Violation:
                raise
            except BaseException as x:  # noqa: BLE001
                err = x
        if not fired and e.seam.raised is not None:
            fired, inj = True, e.seam.raised
        if fired:
            e.seam.raised = None
            broken += 1
            if err is None:
                ctx.violate("interruption-swallowed", f"{type(inj).__name__} injected during {label} did not reach the caller")
            if not reaches(err, inj):
                ctx.violate("interruption-replaced", f"{type(inj).__name__} injected during {label} reached the caller as {err!r}")
            check_unchanged(f"interrupted {label}")
            if op["op"] == "call":
                verify_call(op, e.do(op))
                ctx.probe("interrupted operation repeated")
            elif op["op"] == "next":
                sid = op["sid"]
                st = e.streams[sid]
                had = len(st.got)
                for k in [k for k in e.seam.plan if k[0] == sid and e.seam.plan[k]["kind"].startswith("exc:")]:
                    del e.seam.plan[k]
                for _ in range(2):
                    if st.next(keep_raw=True):
                        e.on_result(sid, st)
                e.open(sid)  # repeat the operation from the start
                e.seam.attempts = {k: v for k, v in e.seam.attempts.items() if k is None or k[0] != sid}
                e.seam.failed = {k for k in e.seam.failed if k is None or k[0] != sid}
                e.seam.fired = {k: v for k, v in e.seam.fired.items() if k is None or k[0] != sid}
                e.do({"op": "next", "sid": sid, "n": had + 3})
                if len(e.streams[sid].got) < min(had + 3, len(exp[sid])):
                    ctx.violate("stream-incomplete", f"stream {sid} repeated after an interruption ends after {len(e.streams[sid].got)}")
                ctx.probe("interrupted stream opened again")
        elif err is not None:
            raise err
        else:
            if op["op"] == "call":
                verify_call(op, value)
            elif op["op"] == "next":
                st = e.streams.get(op["sid"])
                if st is not None and st.done and st.it is not None and op["n"] >= 10 ** 6 and len(st.got) < len(exp[op["sid"]]):
                    ctx.violate("stream-incomplete", f"stream {op['sid']} ended after {len(st.got)} of {len(exp[op['sid']])}")
            if broken:
                done_after += 1
        check_unchanged(label)
    ctx.nontrivial = broken > 0 or any(k.startswith(("solver", "consumer")) for k in ctx.faults)
    ctx.interleaving = hashlib.sha256(json.dumps(sc["ops"], sort_keys=True).encode()).hexdigest()[:16]
    ctx.probe("operations after an interruption", done_after)
    return broken


def shrink(sc):
    ops = sc["ops"]
    for o in interleave.chunks_removed(ops, 1):
        yield dict(sc, ops=o)
    items = sorted(sc["plan"].items())
    for kept in interleave.chunks_removed(items):
        yield dict(sc, plan=dict(kept))
    for j, op in enumerate(ops):
        if "int" in op:
            yield dict(sc, ops=[{k: v for k, v in o.items() if k != "int"} if i == j else o for i, o in enumerate(ops)])
        if op["op"] == "next" and op["n"] > 1:
            yield dict(sc, ops=[dict(o, n=1) if i == j else o for i, o in enumerate(ops)])
    for c in interleave.shrink_worlds({"sources": [sc["world"]]}):
        v = c["sources"][0]
        if (v["n"] >= 3 or sc["world"]["n"] < 3) and (v.get("gaps") or not sc["world"].get("gaps")) and v["T"] >= 8 + v["n"] and all(world.fits(v, s) for s in sc["streams"]):
            yield dict(sc, world=v)
