"""Deterministic simulation kernel: seeded PRNG, event log, line hook, thread scheduler, locks, pristine processes.

Everything that decides anything during a simulated run comes from one integer (the run's seed), or, for a replay,
from the scenario file.  No real clock is read here except for the wall-clock limits that guard against hangs.
"""

from __future__ import annotations

import _thread
import gc
import hashlib
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time as _time
import traceback

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep


def h64(*parts) -> int:
    return int.from_bytes(hashlib.sha256("\x1f".join(map(str, parts)).encode()).digest()[:8], "big")


class Rng(random.Random):
    """random.Random with independent named substreams."""

    def __new__(cls, *key):
        return super().__new__(cls, 0)

    def __init__(self, *key):
        self.key = key
        super().__init__(h64(*key))

    def sub(self, *name):
        return Rng(*self.key, *name)

    def chance(self, p):
        return self.random() < p

    def weighted(self, pairs):
        pairs = list(pairs)
        return self.choices([a for a, _ in pairs], [w for _, w in pairs])[0]


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)


class HarnessError(Exception):
    pass


class SimDeadlock(BaseException):
    """The code under test can make no progress (raised inside it)."""


class SimAbort(BaseException):
    """Tears down the remaining simulated threads after a violation."""


# --------------------------------------------------------------------------------------------------------------------
# line hook (sys.monitoring): called before every source line of the repository that is executed


class LineHook:
    TOOL = 4

    def __init__(self):
        self.fn = None
        self.on = False

    def _cb(self, code, line):
        if not code.co_filename.startswith(REPO):
            return sys.monitoring.DISABLE
        fn = self.fn
        if fn is not None:
            fn(code, line)

    def start(self, fn):
        mon = sys.monitoring
        self.fn = fn
        if not self.on:
            if mon.get_tool(self.TOOL) is None:
                mon.use_tool_id(self.TOOL, "verif-sim")
            mon.register_callback(self.TOOL, mon.events.LINE, self._cb)
            mon.set_events(self.TOOL, mon.events.LINE)
            self.on = True

    def stop(self):
        self.fn = None
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            self.on = False


LINES = LineHook()


# --------------------------------------------------------------------------------------------------------------------
# thread scheduler: real threads, parked and released one at a time


class _T:
    __slots__ = ("name", "fn", "baton", "state", "waiting", "exc", "ident", "index")

    def __init__(self, index, name, fn):
        self.index, self.name, self.fn = index, name, fn
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.state = "ready"
        self.waiting = None
        self.exc = None
        self.ident = None


class Sched:
    """Only the thread that holds the baton runs; at every yield point the seed (or the recorded plan) decides whether
    the baton moves on and to whom."""

    current = None  # the active scheduler of this process

    MAX_POINTS = 4_000_000

    def __init__(self, rng=None, p=0.02, p_solver=0.5, plan=None):
        self.rng, self.p, self.p_solver = rng, p, p_solver
        self.plan = None if plan is None else {int(k): int(v) for k, v in plan}
        self.threads = []
        self.by_ident = {}
        self.n = 0
        self.switches = []  # (yield point, thread switched to)
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.abort = False
        self.points = 0

    def spawn(self, name, fn):
        self.threads.append(_T(len(self.threads), name, fn))

    def managed(self):
        return self.by_ident.get(_thread.get_ident())

    # -- choice ------------------------------------------------------------------------------------------------------
    def _others(self, me):
        return [t for t in self.threads if t is not me and t.state == "ready"]

    def _choose_forced(self, me):
        """The running thread cannot go on: somebody else has to."""
        self.n += 1
        ready = self._others(me)
        if not ready:
            return None
        if self.plan is not None:
            want = self.plan.get(self.n)
            for t in ready:
                if t.index == want:
                    return t
            return ready[0]
        t = self.rng.choice(ready)
        self.switches.append((self.n, t.index))
        return t

    def _choose(self, me, p):
        self.n += 1
        if self.plan is not None:
            want = self.plan.get(self.n)
            if want is None or want == me.index:
                return None
            for t in self._others(me):
                if t.index == want:
                    return t
            return None
        if self.rng.random() >= p:
            return None
        ready = self._others(me)
        if not ready:
            return None
        t = self.rng.choice(ready)
        self.switches.append((self.n, t.index))
        return t

    # -- switching ---------------------------------------------------------------------------------------------------
    def _switch(self, me, to):
        to.baton.release()
        me.baton.acquire()
        if self.abort:
            raise SimAbort()

    def point(self, kind="line"):
        me = self.managed()
        if me is None:
            return
        if self.n > self.MAX_POINTS:
            raise SimDeadlock("no end in sight: too many steps")
        to = self._choose(me, self.p if kind == "line" else self.p_solver)
        if to is not None:
            self._switch(me, to)

    def block_on(self, what):
        me = self.managed()
        me.state, me.waiting = "blocked", what
        to = self._choose_forced(me)
        if to is None:
            me.state = "ready"
            raise SimDeadlock(f"thread {me.name} waits for a lock nobody can release")
        self._switch(me, to)

    def wake(self, what):
        for t in self.threads:
            if t.state == "blocked" and t.waiting is what:
                t.state, t.waiting = "ready", None

    def _body(self, t):
        t.baton.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.abort:
                t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001
            t.exc = e
            self.abort = True
        finally:
            t.state = "done"
            to = None
            if not self.abort:
                to = self._choose_forced(t)
                if to is None and any(x.state == "blocked" for x in self.threads):
                    t.exc = SimDeadlock("all remaining threads wait for locks")
                    self.abort = True
            if self.abort:
                rest = [x for x in self.threads if x.state != "done"]
                to = rest[0] if rest else None
                if to is not None:
                    to.state = "ready"
            if to is not None:
                to.baton.release()
            else:
                self.main.release()

    def run(self):
        Sched.current = self
        real = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        for r in real:
            r.start()
        if self.plan is not None:
            first = self.threads[self.plan.get(0, 0)]
        else:
            first = self.rng.choice(self.threads)
            self.switches.append((0, first.index))
        LINES.start(lambda code, line: self.point("line"))
        try:
            first.baton.release()
            self.main.acquire()
        finally:
            LINES.stop()
            Sched.current = None
        for r in real:
            r.join()
        for t in self.threads:
            if t.exc is not None:
                raise t.exc


def point(kind):
    s = Sched.current
    if s is not None:
        s.point(kind)


# --------------------------------------------------------------------------------------------------------------------
# locks created by the code under test cooperate with the scheduler

_real_lock, _real_rlock = threading.Lock, threading.RLock


class SimLock:
    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.count = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.owner is not None and self.reentrant and self.owner == me:
            self.count += 1
            return True
        s = Sched.current
        while self.owner is not None:
            if not blocking or timeout == 0:
                return False
            if s is None or s.managed() is None:
                if timeout > 0:
                    return False
                raise SimDeadlock("a lock is held for ever by the waiting thread itself")
            s.block_on(self)
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if Sched.current is not None:
                Sched.current.wake(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getstate__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def _lock_factory(real, reentrant):
    def make(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(REPO):
            return SimLock(reentrant)
        return real(*a, **k)

    return make


def patch_locks():
    threading.Lock = _lock_factory(_real_lock, False)
    threading.RLock = _lock_factory(_real_rlock, True)
    try:
        # held by scipy while it calls back into the repository
        from scipy.sparse.linalg._eigen.arpack import arpack

        arpack._ARPACK_LOCK._rlock = SimLock(True)
    except (ImportError, AttributeError):
        pass


# --------------------------------------------------------------------------------------------------------------------
# child processes


class ChildHang(Exception):
    pass


def _read_exact(fd, n, deadline):
    buf = b""
    while len(buf) < n:
        left = deadline - _time.monotonic()
        if left <= 0:
            raise ChildHang()
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            raise ChildHang()
        b = os.read(fd, min(1 << 20, n - len(buf)))
        if not b:
            raise EOFError
        buf += b
    return buf


_in_child = False


def forked(fn, limit=90.0):
    """Run fn() in a forked child; return ("ok", value) or ("exc", description) -- or raise ChildHang."""
    global _in_child
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if not _in_child:
                os.setpgid(0, 0)  # everything below this process is killed with it
            _in_child = True
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("exc", describe(e))
            data = pickle.dumps(out, protocol=pickle.HIGHEST_PROTOCOL)
            os.write(w, struct.pack("<Q", len(data)))
            view = memoryview(data)
            while view:
                k = os.write(w, view)
                view = view[k:]
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    deadline = _time.monotonic() + limit
    try:
        n = struct.unpack("<Q", _read_exact(r, 8, deadline))[0]
        out = pickle.loads(_read_exact(r, n, deadline))
    except ChildHang:
        try:
            if not _in_child:
                os.killpg(pid, signal.SIGKILL)
            else:
                os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        raise
    except EOFError:
        out = ("died", None)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if out[0] == "died":
        raise HarnessError(f"child died with status {status}")
    return out


def through_repo(exc) -> bool:
    """Does the exception come out of the repository's code?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, SyntaxError) and str(exc.filename).startswith(REPO):
            return True
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(REPO):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def describe(e) -> dict:
    return {
        "type": type(e).__name__,
        "text": str(e)[:2000],
        "repo": through_repo(e),
        "kind": getattr(e, "kind", None),
        "detail": getattr(e, "detail", None),
        "tb": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:],
    }


class Pristine(Exception):
    def __init__(self, info):
        super().__init__(info["tb"])
        self.info = info


def pristine(fn, limit=90.0):
    """fn() evaluated in a process in which the library has never been used."""
    kind, val = forked(fn, limit)
    if kind == "ok":
        return val
    if val["kind"]:
        raise Violation(val["kind"], val["detail"])
    if val["type"] == "SimDeadlock":
        raise Violation("no-progress", val["text"])
    if val["repo"]:
        raise Violation("unexpected-exception", f"in a run without faults: {val['type']}: {val['text']}\n{val['tb']}")
    raise HarnessError(val["tb"])


# --------------------------------------------------------------------------------------------------------------------
# context of one simulated run


class Ctx:
    def __init__(self, seed):
        self.seed = seed
        self.log = []
        self.faults = {}
        self.probes = {}
        self.nontrivial = False
        self.interleaving = None
        self.simtime = 0
        self.ops = 0
        self.steps = 0

    def event(self, *what):
        self.log.append(what)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log.append(("fault", kind, n))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, kind, detail=""):
        raise Violation(kind, detail)

    def digest(self):
        import numpy as np

        h = hashlib.sha256()

        def feed(x):
            if isinstance(x, np.ndarray):
                h.update(str(x.shape).encode())
                if x.dtype == object:
                    h.update(repr(x.tolist()).encode())
                else:
                    h.update(np.ascontiguousarray(x).tobytes())
            elif isinstance(x, dict):
                for k in x:
                    h.update(repr(k).encode())
                    feed(x[k])
            elif isinstance(x, (list, tuple)):
                h.update(b"(")
                for y in x:
                    feed(y)
                h.update(b")")
            elif isinstance(x, float):
                h.update(struct.pack("<d", x))
            else:
                h.update(repr(x).encode())

        feed(self.log)
        return h.hexdigest()[:24]


def no_gc():
    """Garbage collection at fixed points only: finalisers (generator close) must not depend on allocation history."""
    gc.disable()
