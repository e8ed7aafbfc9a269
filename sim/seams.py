"""Seams between the code under test and the things it does not control: the convex solver and the worker pool.

Both are installed inside the simulated process only; nothing in /repo knows about them.
"""

from __future__ import annotations

import _thread
import os
import pickle
import struct
import sys
import traceback
from types import SimpleNamespace

from . import kernel


class CustomInterrupt(BaseException):
    """An asynchronous exception no code can know."""


class CustomError(Exception):
    """An exception of a lower layer no code can know."""


def _from(module, name):
    """an exception class of another library, looked up when it is needed"""
    import importlib

    return lambda text: getattr(importlib.import_module(module), name)(text)


EXCEPTIONS = {
    "LinAlgError": _from("numpy.linalg", "LinAlgError"),
    "DCPError": _from("cvxpy.error", "DCPError"),
    "ParameterError": _from("cvxpy.error", "ParameterError"),
    "KeyError": KeyError,
    "IndexError": IndexError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "AssertionError": AssertionError,
    "TimeoutError": TimeoutError,
    "ConnectionError": ConnectionError,
    "ZeroDivisionError": ZeroDivisionError,
    "OverflowError": OverflowError,
    "NotImplementedError": NotImplementedError,
    "RecursionError": RecursionError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SystemExit": SystemExit,
    "RuntimeError": RuntimeError,
    "ValueError": ValueError,
    "OSError": OSError,
    "FloatingPointError": FloatingPointError,
    "CustomError": CustomError,
    "CustomInterrupt": CustomInterrupt,
}


def make_exception(name):
    return EXCEPTIONS[name](f"injected {name}")


OK_STATUS = ("Solved", "AlmostSolved")


class SolverSeam:
    """Stands at the boundary between cvxpy and the compiled solver.

    The solver itself is real.  `plan[(stream, step)]` is a fault: {"kind": ..., "attempts": "all" | "first"}:

    raise          cvxpy.SolverError is raised by the solver interface
    status:<X>     the solver runs, but reports X
    truncate:<k>   the solver really stops after k iterations
    almost         the solver reports reduced accuracy (a solution is present)
    exc:<Type>     a foreign exception comes out of the solver
    """

    def __init__(self, ctx=None):
        self.ctx = ctx
        self.plan = {}
        self.tags = {}
        self.attempts = {}
        self.calls = []
        self.failed = set()  # (stream, step) of which some attempt ended without a solution, injected or not
        self.fired = {}  # (stream, step) -> kind
        self.inaccurate = set()  # the solver itself reported reduced accuracy
        self.natural = 0
        self.raised = None
        self.any_plan = None  # callable(tag, attempt) -> fault

    def tag(self, stream, step):
        self.tags[_thread.get_ident()] = (stream, step)

    def untag(self):
        self.tags.pop(_thread.get_ident(), None)

    def install(self):
        from cvxpy.reductions.solvers.conic_solvers.clarabel_conif import CLARABEL

        real = getattr(CLARABEL, "_verif_real", None) or CLARABEL.solve_via_data
        CLARABEL._verif_real = real
        seam = self

        def solve_via_data(self, data, warm_start, verbose, solver_opts, solver_cache=None):
            kernel.point("solver")
            try:
                return seam._call(self, real, data, warm_start, verbose, solver_opts, solver_cache)
            finally:
                kernel.point("solver")

        CLARABEL.solve_via_data = solve_via_data
        return self

    def _call(self, solver, real, data, warm_start, verbose, opts, cache):
        import cvxpy

        tag = self.tags.get(_thread.get_ident())
        attempt = self.attempts.get(tag, 0)
        self.attempts[tag] = attempt + 1
        seen = {k: v for k, v in opts.items() if k != "use_quad_obj"}
        fault = self.plan.get(tag)
        if fault is not None and fault.get("attempts", "all") == "first" and attempt > 0:
            fault = None
        kind = fault["kind"] if fault else None
        call = {"tag": tag, "attempt": attempt, "opts": seen, "kind": kind, "status": None}
        self.calls.append(call)

        def fired():
            self.fired[tag] = kind
            if self.ctx is not None:
                self.ctx.fault("solver:" + kind.split(":")[0] + (":" + kind.split(":")[1] if "status" in kind else ""))

        if kind == "raise":
            fired()
            self.failed.add(tag)
            call["status"] = "raise"
            raise cvxpy.SolverError("Solver 'CLARABEL' failed. (injected)")
        if kind and kind.startswith("exc:"):
            fired()
            self.raised = make_exception(kind[4:])
            call["status"] = kind
            raise self.raised
        if kind and kind.startswith("truncate:"):
            opts = dict(opts)
            opts["max_iter"] = int(kind.split(":")[1])
            cache = None
        res = real(solver, data, warm_start, verbose, opts, cache)
        status = str(res.status)
        if kind == "almost" and status != "Solved":
            kind = None
        if kind and (kind.startswith("status:") or kind == "almost"):
            status = "AlmostSolved" if kind == "almost" else kind.split(":")[1]
            fired()
            res = SimpleNamespace(
                status=status, x=list(res.x), z=list(res.z), s=list(res.s), obj_val=res.obj_val,
                obj_val_dual=getattr(res, "obj_val_dual", 0.0), solve_time=0.0, iterations=res.iterations,
            )
        elif kind and kind.startswith("truncate:") and status not in OK_STATUS:
            fired()
        elif status not in OK_STATUS:
            self.natural += 1
        call["status"] = status
        if status not in OK_STATUS:
            self.failed.add(tag)
        elif status == "AlmostSolved" and kind != "almost":
            self.inaccurate.add(tag)
        return res


def install_linalg_stub():
    """cvx.linalg is not installed here: a principal component analysis of the simulator takes its place."""
    import types
    from collections import namedtuple

    try:
        import cvx.linalg  # noqa: F401
    except ImportError:
        import numpy as np
        import pandas as pd

        PCA = namedtuple("PCA", ["exposure"])

        def pca(returns, n_components=10):
            X = returns.values - returns.values.mean(axis=0)
            _, V = np.linalg.eigh(X.T @ X)
            V = V[:, ::-1][:, :n_components].T
            V = V * np.sign(V.sum(axis=1, keepdims=True) + 1e-300)
            return PCA(exposure=pd.DataFrame(V, columns=returns.columns))

        m = types.ModuleType("cvx.linalg")
        m.pca = pca
        sys.modules["cvx.linalg"] = m


def install_ecos_stub():
    """ECOS is not installed here: problems that ask for it go to the installed conic solver."""
    import cvxpy

    if getattr(cvxpy.Problem, "_verif_ecos", False) or "ECOS" in cvxpy.installed_solvers():
        return
    real = cvxpy.Problem.solve

    def solve(self, *args, **kwargs):
        if kwargs.get("solver") == "ECOS":
            kwargs["solver"] = "CLARABEL"
        return real(self, *args, **kwargs)

    cvxpy.Problem.solve = solve
    cvxpy.Problem._verif_ecos = True


# --------------------------------------------------------------------------------------------------------------------
# simulated process pool: real forked workers, one runs at a time, the seed decides who, what and in which order


class _Remote(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


def _write(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd):
    def exact(n):
        buf = b""
        while len(buf) < n:
            b = os.read(fd, n - len(buf))
            if not b:
                raise EOFError
            buf += b
        return buf

    return pickle.loads(exact(struct.unpack("<Q", exact(8))[0]))


class PoolPlan:
    """Shared by all pools of one simulated run; decides and records."""

    def __init__(self, rng, ctx, seam=None):
        self.rng, self.ctx, self.seam = rng, ctx, seam
        self.fail = None  # {"call": which starmap, "task": index, "kind": exception name | "solver:raise" | "interrupt"}
        self.workers = None
        self.jobs = 0
        self.trace = []
        self.raised = None
        self.live = []


PLAN = PoolPlan(kernel.Rng("none"), None)


class _Result:
    def __init__(self, pool, tasks, unpack, callback=None, error_callback=None):
        self.pool, self.tasks, self.unpack = pool, tasks, unpack
        self.done, self.value, self.error = False, None, None
        self.callback, self.error_callback = callback, error_callback

    def _run(self):
        if self.done:
            return
        self.done = True
        try:
            self.value = self.pool._execute(self.tasks)
        except BaseException as e:  # noqa: BLE001
            self.error = e
        if self.error is None and self.callback:
            self.callback(self.unpack(self.value))
        if self.error is not None and self.error_callback and isinstance(self.error, Exception):
            self.error_callback(self.error)
        self._completed()

    def _completed(self):
        pass

    def _finish(self):
        """Jobs finish in an order the seed decides: some of the others may finish first."""
        self.pool._advance(self)

    def wait(self, timeout=None):
        self._finish()

    def ready(self):
        # whoever polls finds one more job done
        if not self.done:
            self.pool._advance(None, most=1)
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError("not ready")
        return self.error is None

    def get(self, timeout=None):
        self._finish()
        if self.error is not None:
            raise self.error
        return self.unpack(self.value)


def _one(index, fn, a, kw, fault):
    """One task in a worker."""
    seam = PLAN.seam
    try:
        if fault is not None:
            if fault.startswith("solver:") and seam is not None:
                seam.tag("worker", index)
                seam.plan[("worker", index)] = {"kind": fault.split(":", 1)[1]}
            else:
                raise make_exception(fault)
        elif seam is not None:
            seam.tag("worker", index)
            seam.plan.pop(("worker", index), None)
        return True, fn(*a, **kw)
    except Exception as e:  # noqa: BLE001
        e.__cause__ = _Remote("".join(traceback.format_exception(type(e), e, e.__traceback__)))
        return False, e
    finally:
        if seam is not None:
            seam.untag()


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        plan = PLAN
        self.plan = plan
        n = processes or plan.workers or plan.rng.randint(1, 5)
        self.n = max(1, min(n, 8))
        self.init = (initializer, initargs)
        self.state = "RUN"
        self.pending = []
        self.workers = []
        self._start()
        plan.live.append(self)

    def _start(self):
        for k in range(self.n):
            self._fork(k)

    def _fork(self, k):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for pool in [self, *self.plan.live]:  # descriptors of the other workers, of this pool or abandoned ones
                    for _, wf, rf in pool.workers:
                        os.close(wf)
                        os.close(rf)
                self._worker(r1, w2)
            except BaseException:  # noqa: BLE001
                pass
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.workers.append((pid, w1, r2))

    def _worker(self, rfd, wfd):
        kernel.LINES.stop()
        kernel.Sched.current = None
        init, args = self.init
        if init is not None:
            init(*args)
        while True:
            try:
                msg = _read(rfd)
            except EOFError:
                return
            out = []
            for index, fn, a, kw, fault in msg:
                res = _one(index, fn, a, kw, fault)
                try:
                    pickle.dumps(res)
                except Exception as e:  # noqa: BLE001
                    from multiprocessing.pool import MaybeEncodingError

                    res = (False, MaybeEncodingError(e, res[1]))
                out.append((index, res))
            _write(wfd, out)

    # -- the deterministic scheduler of the pool ---------------------------------------------------------------------
    def _execute(self, tasks):
        plan = self.plan
        job = plan.jobs
        plan.jobs += 1
        fail = plan.fail if plan.fail and plan.fail.get("call", 0) == job else None
        if not tasks:
            return []
        size = plan.rng.randint(1, max(1, min(len(tasks), 5)))
        chunks = [list(range(i, min(i + size, len(tasks)))) for i in range(0, len(tasks), size)]
        order = list(range(len(chunks)))
        plan.rng.shuffle(order)
        results = {}
        trace = []
        broken = None
        batches = []
        for c in order:
            if fail and fail["kind"] == "interrupt" and fail["task"] % len(tasks) in chunks[c]:
                broken = KeyboardInterrupt("injected while the pool is working")
                break
            msg = []
            for i in chunks[c]:
                fn, a, kw = tasks[i]
                fault = None
                if fail and fail["kind"] != "interrupt" and fail["task"] % len(tasks) == i:
                    fault = fail["kind"]
                    plan.ctx.fault("worker:" + fault)
                    plan.raised = fault
                msg.append((i, fn, a, kw, fault))
            batches.append((c, msg))
        self._serve(batches, results, trace)
        plan.trace.append((job, self.n, size, tuple(trace)))
        if broken is not None:
            plan.raised = broken
            plan.ctx.fault("pool:interrupt")
            raise broken
        for i in range(len(tasks)):
            ok, val = results[i]
            if not ok:
                raise val
        return [results[i][1] for i in range(len(tasks))]

    def _serve(self, batches, results, trace):
        for c, msg in batches:
            w = self.plan.rng.randrange(self.n)
            trace.append((c, w))
            pid, wf, rf = self.workers[w]
            _write(wf, msg)  # pickling errors surface here, as with a real pool
            for i, res in _read(rf):
                results[i] = res

    def _check(self):
        if self.state != "RUN":
            raise ValueError("Pool not running")

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return self._later([(func, tuple(a), {}) for a in iterable], list, callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return self._later([(func, (a,), {}) for a in iterable], list, callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        self._check()
        res = self._later([(func, (a,), {}) for a in iterable], list)
        yield from res.get()

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        res = self._later([(func, (a,), {}) for a in iterable], list)
        out = res.get()
        self.plan.rng.shuffle(out)
        yield from out

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        return self._later([(func, tuple(args), dict(kwds))], lambda v: v[0], callback, error_callback)

    def _later(self, tasks, unpack, callback=None, error_callback=None):
        r = _Result(self, tasks, unpack, callback, error_callback)
        self.pending.append(r)
        return r

    def close(self):
        if self.state == "RUN":
            self.state = "CLOSE"

    def terminate(self):
        self.state = "TERMINATE"
        self._stop()

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        self._advance(None)
        self._stop()

    def _advance(self, until, most=None):
        """Run unfinished jobs in seeded order, until the given one (or all of them) are done."""
        todo = [r for r in self.pending if not r.done]
        self.plan.rng.shuffle(todo)
        for r in todo:
            if until is not None and until.done or most == 0:
                return
            r._run()
            if most is not None:
                most -= 1

    def _stop(self):
        workers, self.workers = self.workers, []
        for pid, wf, rf in workers:
            os.close(wf)
            os.close(rf)
        for pid, _, _ in workers:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimThreadPool(SimPool):
    """Workers are threads of this process, switched at the source lines of the repository."""

    def _start(self):
        pass

    def _serve(self, batches, results, trace):
        if kernel.Sched.current is not None or kernel.LINES.on or self.n == 1 or len(batches) < 2:
            for c, msg in batches:
                trace.append((c, 0))
                for i, fn, a, kw, fault in msg:
                    results[i] = _one(i, fn, a, kw, fault)
            return
        todo = list(batches)

        def worker(k):
            while todo:
                c, msg = todo.pop(0)
                trace.append((c, k))
                for i, fn, a, kw, fault in msg:
                    results[i] = _one(i, fn, a, kw, fault)

        sched = kernel.Sched(kernel.Rng("threads of a pool", self.plan.rng.randrange(1 << 40)), p=0.15)
        for k in range(min(self.n, len(batches))):
            sched.spawn(f"w{k}", lambda k=k: worker(k))
        sched.run()


class SimFuture(_Result):
    def __init__(self, *a):
        super().__init__(*a)
        self.callbacks = []
        self.was_cancelled = False

    def result(self, timeout=None):
        if self.was_cancelled:
            from concurrent.futures import CancelledError

            raise CancelledError
        return self.get()

    def exception(self, timeout=None):
        self._finish()
        return self.error

    def running(self):
        return False

    def cancelled(self):
        return self.was_cancelled

    def cancel(self):
        if self.done:
            return self.was_cancelled
        self.done = self.was_cancelled = True
        return True

    def add_done_callback(self, fn):
        if self.done:
            fn(self)
        else:
            self.callbacks.append(fn)

    def _completed(self):
        for fn in self.callbacks:
            fn(self)


class _Future(SimFuture):
    """`done` is a method of futures and an attribute of pool results"""

    def __getattribute__(self, name):
        if name == "done" and not sys._getframe(1).f_code.co_filename.startswith(__file__):
            return object.__getattribute__(self, "ready")
        return object.__getattribute__(self, name)


class SimExecutor:
    POOL = SimPool

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), thread_name_prefix="", max_tasks_per_child=None):
        self._pool = self.POOL(max_workers, initializer, initargs)

    def submit(self, fn, /, *args, **kwargs):
        if self._pool.state != "RUN":
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = _Future(self._pool, [(fn, args, kwargs)], lambda v: v[0])
        self._pool.pending.append(f)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        res = self._pool._later([(fn, tuple(a), {}) for a in zip(*iterables)], list)

        def gen():
            yield from res.get()

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._pool.state == "RUN":
            self._pool.close()
            self._pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


class SimThreadExecutor(SimExecutor):
    POOL = SimThreadPool


def patch_pools():
    """Every pool the standard library offers is the simulator's."""
    import concurrent.futures as cf
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.dummy
    import multiprocessing.pool

    if multiprocessing.pool.Pool is SimPool:
        return
    make = lambda *a, **k: SimPool(*a, **k)  # noqa: E731
    multiprocessing.Pool = make
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocessing.dummy.Pool = lambda *a, **k: SimThreadPool(*a, **k)
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: SimPool(*a, **k)
    real_wait, real_completed = cf.wait, cf.as_completed

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if not all(isinstance(f, SimFuture) for f in fs):
            yield from real_completed(fs, timeout)
            return
        left = list(fs)
        while left:
            f = PLAN.rng.choice(left)
            left.remove(f)
            f._finish()
            yield f

    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = list(fs)
        if not all(isinstance(f, SimFuture) for f in fs):
            return real_wait(fs, timeout, return_when)
        for f in fs:
            f._finish()
            if return_when != cf.ALL_COMPLETED:
                break
        done = {f for f in fs if object.__getattribute__(f, "__dict__")["done"]}
        return cf._base.DoneAndNotDoneFutures(done, set(fs) - done)

    cf.ProcessPoolExecutor = SimExecutor
    cf.ThreadPoolExecutor = SimThreadExecutor
    cf.wait, cf.as_completed = wait, as_completed


def install_pool(rng, ctx, seam=None):
    global PLAN
    patch_pools()
    PLAN = PoolPlan(rng, ctx, seam)
    return PLAN


def stop_pools():
    for p in PLAN.live:
        p._stop()
