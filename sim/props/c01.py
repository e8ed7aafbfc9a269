"""Result streams of one combinator are isolated from each other."""

from .. import interleave, world

RUNS = {"quick": 500, "thorough": 9000}
RULE = ("A case is a set of 2-5 result streams over 1-2 combinators (windows, times, solver options), consumed in a seeded "
        "interleaving: cooperative operations (open, next, close, drop, other library activity) or real threads switched at "
        "library source lines and around the solver. Non-trivial: at least one result was delivered while another stream "
        "was in use. Counted once per distinct event log.")
PROBES = ["results delivered while another stream was open", "thread switches", "other library activity in between"]
REAL = ["cvx.covariance.combination", "cvx.covariance.ewma", "cvxpy", "Clarabel (compiled)", "Python threads (parked and released one at a time)"]
STUB = []
ASSUMPTIONS = ["thread switches happen at source lines of the library and around the solver call, not inside numpy, pandas or cvxpy",
               "sampling of schedules, not enumeration"]
shrink = interleave.shrink


def gen_w(rng):
    w = world.gen_world(rng, T=(12, 24), long=0.015)
    if rng.chance(0.2):
        w["n"] = max(w["n"], 2)
        w["start"] = 0
        pairs = world.gen_pairs(rng)
        w["K"] = len(pairs)
        w["ewmas"] = {"pairs": [list(p) for p in pairs],
                      "kw": {"min_periods_vola": 3, "min_periods_cov": 3 + w["n"], "clip_at": rng.choice([None, 3.0]), "mean": rng.chance(0.4)}}
        w["T"] += 6
        w["gaps"] = rng.choice([0, 0, 0.1])
    return w


def gen_stream(rng, w):
    return interleave.gen_combo(rng, w)


def generate(rng, tier):
    return interleave.generate(rng, tier, gen_stream, gen_w)


def execute(sc, ctx):
    interleave.execute(sc, ctx)
