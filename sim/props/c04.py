"""An interruption is never swallowed and leaves everything reusable."""

from .. import history

RUNS = {"quick": 330, "thorough": 7000}
RULE = ("A case is a history of library operations (experts, construction, consumption of streams, regularisation) in which "
        "exceptions that are not solver errors are raised at seeded executed source lines of the library or inside solver calls. "
        "Non-trivial: at least one interruption fired.")
PROBES = ["interrupted operation repeated", "interrupted stream opened again", "operations after an interruption"]
REAL = ["cvx.covariance (all modules)", "experiments.utils.low_rank_ewma", "experiments.utils.iterated_ewma_vec", "cvxpy", "Clarabel (compiled)"]
STUB = []
ASSUMPTIONS = ["interruptions arrive between source lines of the library and inside solver calls, not inside numpy, pandas or cvxpy code"]
shrink = history.shrink


def generate(rng, tier):
    return history.generate(rng, tier, interrupts=0.55, hostile=rng.chance(0.2), research=False, poisons=False)


def execute(sc, ctx):
    broken = history.execute(sc, ctx)
    ctx.nontrivial = broken > 0
