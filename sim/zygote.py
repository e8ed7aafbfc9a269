"""Preloaded process that forks one pristine child per simulated run.  Jobs and answers are JSON lines."""

from __future__ import annotations

import importlib
import json
import os
import sys
import time


def preload():
    # third-party code first (its bytecode cache may be used), then the repository without any bytecode cache
    import matplotlib

    matplotlib.use("Agg")
    import cvxpy  # noqa: F401
    import clarabel  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import tqdm

    tqdm.tqdm.monitor_interval = 0

    # warm the libraries (lazy imports, caches of method lookups)
    import numpy as np
    import pandas as pd

    x = cvxpy.Variable(2)
    prm = cvxpy.Parameter(2)
    prm.value = np.ones(2)
    prob = cvxpy.Problem(cvxpy.Maximize(cvxpy.sum(cvxpy.log(x)) - cvxpy.sum_squares(x) + prm @ x), [cvxpy.sum(x) == 1, x >= 0])
    prob.solve()
    y = cvxpy.Variable((2, 1))
    cvxpy.Problem(cvxpy.Minimize(cvxpy.norm2(y)), [cvxpy.sum(y) == 1]).solve()
    pd.DataFrame(np.eye(3), index=pd.bdate_range("2020-01-01", periods=3)).shift(1).ewm(halflife=2).mean().std()
    pd.testing  # noqa: B018

    from . import kernel

    sys.path.insert(0, kernel.REPO.rstrip(os.sep))
    sys.pycache_prefix = f"/nonexistent/verif-{os.getpid()}"
    sys.dont_write_bytecode = True
    kernel.patch_locks()
    from . import seams

    seams.patch_pools()

    for m in ("cvx.covariance.combination", "cvx.covariance.ewma", "cvx.covariance.regularization",
              "experiments.utils.experiment_utils", "experiments.utils.low_rank_ewma",
              "experiments.utils.return_combination", "experiments.utils.trading_model",
              "experiments.utils.portfolio_backtests"):
        try:
            importlib.import_module(m)
        except BaseException as e:  # noqa: BLE001
            print(f"preload {m}: {e!r}", file=sys.stderr)
            for k in [k for k in sys.modules if k.split(".")[0] in ("experiments",)]:
                del sys.modules[k]


def run_child(prop, scenario):
    """In the forked child: execute one scenario, return a summary."""
    import gc

    from . import kernel

    if not os.environ.get("VERIF_DEBUG"):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    gc.disable()
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    ctx = kernel.Ctx(scenario.get("seed"))
    ctx.record = {}
    out = {"status": "ok"}
    try:
        mod.execute(scenario, ctx)
    except kernel.Violation as v:
        out = {"status": "violation", "kind": v.kind, "detail": v.detail[:4000]}
    except kernel.SimDeadlock as e:
        out = {"status": "violation", "kind": "no-progress", "detail": str(e)}
    except kernel.HarnessError as e:
        out = {"status": "harness", "detail": str(e)[-4000:]}
    except kernel.ChildHang:
        out = {"status": "hang"}
    except BaseException as e:  # noqa: BLE001
        d = kernel.describe(e)
        if d["repo"]:
            out = {"status": "violation", "kind": "unexpected-exception", "detail": d["tb"]}
        elif isinstance(e, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)):
            # while a delivered value was looked at: it has not the form the interface promises
            out = {"status": "violation", "kind": "unusable-result", "detail": d["tb"]}
        else:
            out = {"status": "harness", "detail": d["tb"]}
    if ctx.record:
        out["record"] = ctx.record
    out.update(faults=ctx.faults, probes=ctx.probes, nontrivial=bool(ctx.nontrivial), interleaving=ctx.interleaving,
               simtime=ctx.simtime, ops=ctx.ops, steps=ctx.steps, digest=ctx.digest())
    if os.environ.get("VERIF_DEBUG_LOG"):
        print(out, file=sys.stderr)
    return out


def main():
    out_fd = os.dup(1)
    os.dup2(2, 1)
    preload()
    from . import kernel

    with os.fdopen(out_fd, "w") as answer:
        print(json.dumps({"ready": True}), file=answer, flush=True)
        for line in sys.stdin:
            job = json.loads(line)
            prop = job["prop"]
            mod = importlib.import_module(f"sim.props.{prop.lower()}")
            t = time.monotonic()
            try:
                sc = job.get("scenario")
                if sc is None:
                    rng = kernel.Rng(prop, job["seed"])
                    sc = mod.generate(rng, job["tier"])
                    sc["seed"] = job["seed"]
                sc = json.loads(json.dumps(sc))
                kind, res = kernel.forked(lambda: run_child(prop, sc), job.get("limit", 60))
                if kind != "ok":
                    res = {"status": "harness", "detail": res["tb"]}
            except kernel.ChildHang:
                res = {"status": "hang"}
            except kernel.HarnessError as e:
                res = {"status": "died", "detail": str(e)}
            except Exception:  # noqa: BLE001
                import traceback

                res = {"status": "harness", "detail": traceback.format_exc()[-4000:]}
                sc = None
            res["scenario"] = sc
            res["wall"] = time.monotonic() - t
            print(json.dumps({"job": job["job"], "res": res}, default=str), file=answer, flush=True)


if __name__ == "__main__":
    main()
