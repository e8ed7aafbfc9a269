"""Research predictors and backtests never look ahead."""

from .. import ledger

RUNS = {"quick": 560, "thorough": 12000}
RULE = ("As C06, for the research predictors: the ledger is keyed by the rows strictly before the time for return predictors, "
        "uncertainty bounds and portfolios (by the row whose return a portfolio earns), and by the rows up to the time for covariances. "
        "Non-trivial: some value was recomputed and some branch was hostile.")
PROBES = ["forecast recomputed with more data", "forecast recomputed with different later data", "data updated in place"]
REAL = ["experiments.utils.return_combination", "experiments.utils.low_rank_ewma", "experiments.utils.experiment_utils",
        "experiments.utils.factor_model", "experiments.utils.trading_model", "experiments.utils.portfolio_backtests", "cvx.covariance", "cvxpy", "Clarabel"]
STUB = ["cvx.linalg.pca (not installed) is answered by an eigendecomposition", "ECOS (not installed) is answered by Clarabel", "process pool: forked workers run one at a time in seeded order"]
ASSUMPTIONS = ["outliers up to 1000 standard deviations"]
shrink = ledger.shrink
execute = ledger.execute


def generate(rng, tier):
    return ledger.generate(rng, tier, ledger.RESEARCH)
