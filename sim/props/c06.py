"""Published forecasts are never revised by later data."""

from .. import ledger

RUNS = {"quick": 800, "thorough": 20000}
RULE = ("A case is a publisher that recomputes forecasts over a growing history with crashes and restarts, over several branches of "
        "the data which agree up to a day and then differ (ordinary, outliers, sign flips, trends, zeros, gaps). The ledger is keyed "
        "by the identity of the rows up to the forecast's time. Non-trivial: some forecast was recomputed and some branch was hostile.")
PROBES = ["forecast recomputed with more data", "forecast recomputed with different later data", "only the latest forecasts recomputed",
          "an asset that starts late has data", "data updated in place"]
REAL = ["cvx.covariance.combination", "cvx.covariance.ewma", "cvxpy", "Clarabel (compiled)", "process restart (fork)"]
STUB = ["data feed and ledger are objects of the simulator"]
ASSUMPTIONS = ["outliers up to 1000 standard deviations for combined predictors (larger ones make the problem numerically singular)",
               "a forecast of a combination is identified with its effective lookback"]
shrink = ledger.shrink
execute = ledger.execute


def generate(rng, tier):
    return ledger.generate(rng, tier, ledger.CORE)
