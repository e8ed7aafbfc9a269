"""One or two combination streams under solver faults: shared by C02 and C03."""

from __future__ import annotations

import hashlib
import json

import numpy as np

from . import interleave, kernel, seams, world
from .world import Sources, Stream, diff

FAIL = ["raise", "status:NumericalError", "status:InsufficientProgress", "status:MaxIterations", "status:MaxTime",
        "status:PrimalInfeasible", "status:DualInfeasible", "status:AlmostPrimalInfeasible", "status:AlmostDualInfeasible"]


def gen_fault(rng):
    kind = rng.weighted([(rng.choice(FAIL), 6), (f"truncate:{rng.randint(0, 7)}", 3), ("almost", 1)])
    return {"kind": kind, "attempts": rng.weighted([("all", 5), ("first", 1)])}


def gen_plan(rng, steps):
    """positions -> faults; bursts, edges, alternations, single faults"""
    plan = {}
    style = rng.choice(["single", "few", "burst", "ends", "alternate", "most", "prefix", "none"])
    if style == "single":
        pos = [rng.randrange(steps)]
    elif style == "few":
        pos = rng.sample(range(steps), min(steps, rng.randint(2, 4)))
    elif style == "burst":
        a = rng.randrange(steps)
        pos = range(a, min(steps, a + rng.randint(2, 6)))
    elif style == "ends":
        pos = [0, steps - 1]
    elif style == "alternate":
        pos = range(rng.randrange(2), steps, 2)
    elif style == "most":
        pos = [p for p in range(steps) if rng.chance(0.8)]
    elif style == "prefix":
        pos = range(0, rng.randint(1, steps))
    else:
        pos = []
    same = gen_fault(rng) if rng.chance(0.3) else None
    for p in pos:
        plan[str(p)] = same or gen_fault(rng)
    return plan


def n_steps(w, s):
    T = world.avail(w)
    win = min(s["window"] or T, T)
    if s.get("times"):
        a, k = s["times"]
        return max(0, a + k - max(a, win - 1))
    return T - win + 1


def gen_stream(rng, w):
    lo = world.low_window(w)
    T = world.avail(w)
    if T > 100:
        win = rng.choice([lo, 20, 70, 100, min(T - 5, 260), None])
    else:
        win = rng.weighted([(lo, 3), (rng.randint(lo, max(lo, T // 2)), 5), (None, 0.3)])
    s = {"kind": "combo", "window": win, "times": None, "opts": rng.weighted(
        [(None, 5), ({"solver": "CLARABEL"}, 1), ({"max_iter": 150}, 1), ({"warm_start": True}, 0.5), ({"verbose": False}, 0.5)])}
    if rng.chance(0.25):
        a = rng.randrange(0, T)
        s["times"] = [a, rng.randint(1, T - a)]
    return s


def gen_w(rng, T=(12, 30), n=None, long=0.0):
    w = world.gen_world(rng, T=T, n=n, long=long)
    if rng.chance(0.2):
        w["n"] = max(w["n"], 2)
        w["start"] = 0
        pairs = world.gen_pairs(rng)
        w["K"] = len(pairs)
        w["ewmas"] = {"pairs": [list(p) for p in pairs],
                      "kw": {"min_periods_vola": 3, "min_periods_cov": 3 + w["n"], "clip_at": rng.choice([None, 3.0]), "mean": rng.chance(0.4)}}
        w["T"] = max(w["T"], 18 + 2 * w["n"])
        w["gaps"] = rng.choice([0, 0, 0.1])
    return w


def shrink(sc):
    plan = sc["plan"]
    items = sorted(plan.items(), key=lambda kv: int(kv[0]))
    for kept in interleave.chunks_removed(items):
        yield dict(sc, plan=dict(kept))
    for p, f in items:
        if f["kind"] != "raise":
            yield dict(sc, plan={**plan, p: {"kind": "raise", "attempts": f["attempts"]}})
    if sc.get("twin"):
        yield dict(sc, twin=False)
    if sc["stream"].get("times"):
        yield dict(sc, stream=dict(sc["stream"], times=None))
    if sc["stream"].get("opts"):
        yield dict(sc, stream=dict(sc["stream"], opts=None))
    for c in interleave.shrink_worlds({"sources": [sc["world"]]}):
        if world.fits(c["sources"][0], sc["stream"]):
            yield dict(sc, world=c["sources"][0])
