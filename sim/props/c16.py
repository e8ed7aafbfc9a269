"""However a stream got there, the weights it delivers are optimal for their own step."""

import hashlib
import json

import numpy as np

from .. import faulty, interleave, kernel, seams, world
from ..world import Sources, Stream
from . import c03

RUNS = {"quick": 900, "thorough": 12000}
RULE = ("A case is a set of 1-3 streams over one combinator (windows, times, solver options) on ordinary and hostile data, advanced in a "
        "seeded order under a schedule of solver faults; streams are reopened in the middle and failed steps are asked for again. Every "
        "delivered result is held against a reference that knows the definition of the problem and looks for better weights. Non-trivial: "
        "at least one result was verified after a fault, a reopening or in between other streams.")
PROBES = ["weights verified", "weights verified after a fault", "weights verified on hostile data", "weights in the interior", "a single expert takes it all",
          "stream reopened", "window of all steps"]
REAL = ["cvx.covariance.combination", "cvx.covariance.ewma", "cvxpy", "Clarabel (compiled)"]
STUB = ["status line of the solver in faulted steps (the solver itself still runs, except for raised errors)"]
ASSUMPTIONS = ["the experts are symmetric positive definite and have the same times",
               "optimality up to the accuracy of the solver; results it reports as inaccurate are not judged"]


def generate(rng, tier):
    w = faulty.gen_w(rng, T=(12, 26), long=0.05)
    if w["T"] > 100 and rng.chance(0.5):
        w["T"] = rng.randint(262, 330)
    hostile = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        hostile.append([rng.choice(["cond", "scale", "dup", "same", "outlier", "outlier", "huge", "tiny"]) if not w.get("ewmas") else "outlier", rng.randrange(1 << 30)])
    streams, plans = [], []
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = faulty.gen_stream(rng, w)
        if w["T"] > 100:
            s["window"] = rng.choice([1, 5, 20, 60, 150, w["T"] - 10, w["T"] - 6, None])
        elif rng.chance(0.25):
            s["window"] = rng.choice([None, 1, 1, 2])  # singular problems, too: any optimum will do
        streams.append(s)
        plans.append(faulty.gen_plan(rng, max(1, faulty.n_steps(w, s))) if rng.chance(0.6) else {})
    ops = []
    for _ in range(rng.randint(1, 12)):
        ops.append(rng.weighted([(["next", rng.randrange(len(streams)), rng.randint(1, 6)], 5), (["reopen", rng.randrange(len(streams)), rng.randrange(w["T"])], 1)]))
    return {"world": w, "hostile": hostile, "streams": streams, "plans": plans, "ops": ops}


class Reference:
    """The definition, from the inputs: sum of log-likelihoods of the last `window` returns under forecasts made a step earlier."""

    def __init__(self, src):
        self.sig, self.mus = c03.experts(src)
        self.keys = list(self.sig)
        self.times = list(self.sig[self.keys[0]])
        self.pos = {world._lab(t): i for i, t in enumerate(self.times)}
        self.L, self.nu = {}, {}
        self.R = src.R.fillna(0.0)
        self.rows = {}

    def row(self, i):
        """diagonals and whitened returns of the return at step i, judged by the forecasts of step i - 1"""
        if i not in self.rows:
            D, B = [], []
            for k in self.keys:
                before = self.times[i - 1]
                L = np.linalg.cholesky(np.linalg.inv(self.sig[k][before].values))
                mu = np.zeros(len(L)) if self.mus is None else np.asarray(self.mus[k][before], dtype=float)
                D.append(np.diag(L))
                B.append(L.T @ (self.R.loc[self.times[i]].values - mu))
            self.rows[i] = np.array(D).T, np.array(B).T
        return self.rows[i]

    def gap(self, label, window, weights):
        """(how much better other weights do, the scale of the objective, these weights)"""
        i = self.pos[label]
        rows = [self.row(j) for j in range(i - window + 1, i + 1)]
        A = np.vstack([r[0] for r in rows])
        B = np.vstack([r[1] for r in rows])
        v = np.maximum(np.asarray(weights, dtype=float), 0.0)
        v = v / v.sum()

        def value(x):
            p = B @ x
            return float(np.log(A @ x).sum() - 0.5 * (p @ p))

        def gradient(x):
            return A.T @ (1.0 / (A @ x)) - B.T @ (B @ x)

        size = len(A) + 0.5 * float((B @ v) @ (B @ v)) + np.abs(np.log(A @ v)).sum()
        g = gradient(v)
        bound = float(g.max() - g @ v)  # nothing is better by more than this
        if bound <= TOL * size:
            return 0.0, size, v
        # look for better weights: any that are found prove that these are not optimal
        best, at = value(v), v
        for x in (v, np.full(len(v), 1.0 / len(v)), *np.eye(len(v))):
            x = 0.999 * x + 0.001 / len(v)
            for _ in range(200):
                # multiplicative ascent with backtracking: stays inside the simplex
                g = gradient(x)
                g = g - g @ x
                t = 1.0 / (np.abs(g).max() + 1e-300)
                while t > 1e-14:
                    y = x * np.exp(np.minimum(t * g, 50))
                    y = y / y.sum()
                    if value(y) >= value(x):
                        break
                    t /= 4
                else:
                    break
                gain, x = value(y) - value(x), y
                if gain < 1e-13 * size:
                    break
            if value(x) > best:
                best, at = value(x), x
        return best - value(v), size, at


def execute(sc, ctx):
    w = sc["world"]
    seam = seams.SolverSeam(ctx).install()
    src = Sources(w)
    c03.apply_hostile(src, sc["hostile"], ctx)
    ref = Reference(src)
    n = len(ref.times) - 1
    streams = [None] * len(sc["streams"])
    windows = [None] * len(sc["streams"])
    gen = [0] * len(sc["streams"])
    faults = [False] * len(sc["streams"])
    dead = set()

    def reopen(i, at):
        s = dict(sc["streams"][i])
        if at is not None:
            at = min(at, n - 1)
            s["times"] = [at, n - at]
            ctx.probe("stream reopened")
            ctx.fault("stream abandoned and opened again")
        gen[i] += 1
        streams[i] = Stream((i, gen[i]), src.open(s), seam)
        windows[i] = min(s["window"] or n, n)
        if windows[i] == n:
            ctx.probe("window of all steps")
        for p, f in sc["plans"][i].items():
            if at is None:
                seam.plan[((i, 1), int(p))] = f
        dead.discard(i)

    def step(i):
        if streams[i] is None:
            reopen(i, None)
        st = streams[i]
        if i in dead:
            return False
        pos = len(st.got)
        more = st.next()
        ctx.ops += 1
        if not more:
            dead.add(i)
            return False
        ctx.simtime += 1
        r = st.got[-1]
        ctx.event("got", i, pos, r)
        tag = (st.sid, pos)
        if tag in seam.fired:
            faults[i] = True
        if r is None:
            return True
        if tag in seam.inaccurate or seam.fired.get(tag) == "almost":
            return True
        if r["time"] not in ref.pos:
            ctx.violate("wrong-time", f"stream {i} position {pos} is labelled {r['time']}, which is no step of the experts")
        gap, size, better = ref.gap(r["time"], windows[i], r["weights"]["v"])
        ctx.probe("weights verified")
        if faults[i] or gen[i] > 1 or len(sc["streams"]) > 1:
            ctx.nontrivial = True
        if faults[i]:
            ctx.probe("weights verified after a fault")
        if sc["hostile"]:
            ctx.probe("weights verified on hostile data")
        wv = r["weights"]["v"]
        if len(wv) > 1:
            ctx.probe("a single expert takes it all" if wv.max() > 0.999 else "weights in the interior")
        if gap > TOL * size:
            ctx.violate("not-optimal", f"stream {i} {sc['streams'][i]} position {pos} at {r['time']}: with the weights {wv} the objective is {gap:.3g} lower than with {better} (size {size:.3g})")
        return True

    for op in sc["ops"]:
        if op[1] >= len(streams):
            continue
        if op[0] == "reopen":
            reopen(op[1], op[2])
        else:
            for _ in range(op[2]):
                if not step(op[1]):
                    break
    for i in range(len(streams)):
        while step(i):
            pass

    ctx.interleaving = hashlib.sha256(json.dumps([sc["ops"], sc["plans"], sc["hostile"]], sort_keys=True).encode()).hexdigest()[:16]


TOL = 2e-7


def shrink(sc):
    for h in interleave.chunks_removed(sc["hostile"]):
        yield dict(sc, hostile=h)
    for x in interleave.chunks_removed(sc["ops"]):
        yield dict(sc, ops=x)
    if len(sc["streams"]) > 1:
        for i in range(len(sc["streams"])):
            yield dict(sc, streams=[sc["streams"][i]], plans=[sc["plans"][i]], ops=[[o[0], 0, o[2]] for o in sc["ops"] if o[1] == i])
    for i, p in enumerate(sc["plans"]):
        for kept in interleave.chunks_removed(sorted(p.items(), key=lambda kv: int(kv[0]))):
            yield dict(sc, plans=[dict(kept) if j == i else x for j, x in enumerate(sc["plans"])])
    for c in interleave.shrink_worlds({"sources": [sc["world"]]}):
        if all(world.fits(c["sources"][0], dict(s, window=None)) for s in sc["streams"]):
            yield dict(sc, world=c["sources"][0])
