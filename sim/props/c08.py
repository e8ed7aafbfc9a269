"""Estimator and regularisation streams are complete, ordered and isolated."""

from .. import interleave, kernel, world

RUNS = {"quick": 600, "thorough": 9000}
RULE = ("A case is a set of 2-5 estimator, regularisation, EM and low-rank streams over shared inputs consumed in a seeded "
        "interleaving (cooperative, or threads switched at source lines). Non-trivial: at least one result was delivered "
        "while another stream was in use. Counted once per distinct event log.")
PROBES = ["results delivered while another stream was open", "thread switches", "complete streams checked against the input"]
REAL = ["cvx.covariance.ewma", "cvx.covariance.regularization", "experiments.utils.low_rank_ewma", "experiments.utils.iterated_ewma_vec",
        "experiments.utils.experiment_utils", "scipy ARPACK/LAPACK", "Python threads (parked and released one at a time)"]
STUB = []
ASSUMPTIONS = ["low-rank factors are compared through the covariance they describe (they are unique up to rotation only)",
               "sampling of schedules, not enumeration"]
shrink = interleave.shrink


def gen_w(rng):
    w = world.gen_world(rng, n=rng.choice([2, 3, 3, 4, 5]), K=1, T=(12, 24), long=0.03)
    w["nocomb"] = True
    w["shuffle"] = rng.chance(0.4)
    w["gaps"] = rng.choice([0, 0, 0.1])
    return w


def generate(rng, tier):
    return interleave.generate(rng, tier, interleave.gen_estimator, gen_w)


def execute(sc, ctx):
    play = interleave.execute(sc, ctx)
    lab = world._lab
    for i, s in enumerate(sc["streams"]):
        src, exp = play.src[s["src"]], play.exp[i]
        times = [r[0] if isinstance(r, list) else r["time"] for r in exp]
        R = src.R
        if s["kind"] in ("reg", "em"):
            want = [lab(t) for t in src.covs()]
        elif s["kind"] == "realized":
            want = [lab(t) for t in src.intraday().index.unique()[1:]]
        else:
            if s["kw"]["mean"]:
                # the first row is its own mean: nothing is known about the volatility before the second one
                first = max(s["kw"]["min_periods_vola"] - 1, 1) + max(s["kw"]["min_periods_cov"] - 1, 0)
                want = [lab(t) for t in R.index[first:]]
            else:
                first = max(s["kw"]["min_periods_vola"] - 1, 0) + max(s["kw"]["min_periods_cov"] - 1, 0)
                want = [lab(t) for t in R.index[first:]]
        if times != want:
            raise kernel.Violation("wrong-times", f"stream {i} {s} delivers {times[:5]}.. ({len(times)}), its input has {want[:5]}.. ({len(want)})")
        ctx.probe("complete streams checked against the input")
