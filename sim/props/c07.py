"""Caller data and delivered results are never changed afterwards."""

from .. import history

RUNS = {"quick": 400, "thorough": 7000}
RULE = ("A case is a history of operations on shared inputs with solver faults, interruptions at seeded lines, abandoned streams "
        "and a consumer that overwrites results; all inputs, all delivered results and the ambient state are compared bit by bit "
        "with their snapshots after every operation. Non-trivial: an interruption, a solver fault or an overwritten result.")
PROBES = ["operations after an interruption"]
REAL = ["cvx.covariance (all modules)", "experiments.utils (estimators, predictors)", "cvxpy", "Clarabel (compiled)"]
STUB = ["status line of the solver in faulted steps"]
ASSUMPTIONS = ["center(mean_adj=False) is documented to hand back the caller's own frame and add_to_diagonal to work in place: both are left out"]
shrink = history.shrink


def generate(rng, tier):
    return history.generate(rng, tier, interrupts=rng.choice([0, 0, 0.3]), hostile=True, research=rng.chance(0.5), poisons=True)


def execute(sc, ctx):
    history.execute(sc, ctx)
