"""A run resumed after a crash delivers the remaining results."""

import datetime
import hashlib
import json

import pandas as pd

from .. import faulty, interleave, kernel, seams, world
from ..world import Sources, Stream, diff

RUNS = {"quick": 600, "thorough": 10000}
RULE = ("A case is a durable consumer that is fed the steps of one combination in consecutive requests: it crashes after a seeded "
        "number of results with a checkpoint that may lag behind, restarts (new process, new combinator, or the same one), goes "
        "on from its checkpoint, asks again for steps that failed, and sometimes sends a malformed request. Non-trivial: at least "
        "one crash or restart in the middle of the stream.")
PROBES = ["request within the first window", "request ends with the last step", "failed step asked for again",
          "results lost with the crash and delivered again", "malformed request refused", "request for a single step",
          "session in a new process"]
REAL = ["cvx.covariance.combination", "cvx.covariance.ewma", "cvxpy", "Clarabel (compiled)", "process restart (fork of a process that never used the library)"]
STUB = ["status line of the solver in faulted steps", "the consumer's checkpoint file is an object of the simulator"]
ASSUMPTIONS = ["experts and returns are the same before and after the crash (C06 varies them)"]
BAD = ["gap", "repeat", "inner", "double", "reversed", "swapped", "unknown", "beyond", "before"]


def generate(rng, tier):
    w = faulty.gen_w(rng, T=(12, 26), long=0.05)
    if w["T"] > 100 and rng.chance(0.5):
        w["T"] = rng.randint(262, 330)
    s = faulty.gen_stream(rng, w)
    s["times"] = None
    T = world.avail(w)
    if s["window"] is None and rng.chance(0.7):
        s["window"] = world.low_window(w)
    style = rng.choice(["fork", "mixed", "mixed", "same"])
    sessions = []
    for _ in range(rng.randint(2, 7)):
        se = {
            "len": rng.choice([1, 1, 2, 3, rng.randint(1, max(1, T)), 10 ** 6]),
            "mode": "fork" if style == "fork" else ("same" if style == "same" else rng.choice(["rebuild", "same"])),
            "container": rng.choice(["list", "list", "tuple", "index"]),
            "crash": rng.weighted([(None, 3), (rng.randint(0, 6), 3)]),  # after that many results
            "lag": rng.choice([0, 0, 1, 2]),  # results not yet durable when it crashes
            "faults": {},
            "back": rng.weighted([(0, 5), (rng.randint(1, 4), 1)]),  # starts again a few steps earlier
        }
        if rng.chance(0.35):
            for p in rng.sample(range(6), rng.randint(1, 3)):
                se["faults"][str(p)] = faulty.gen_fault(rng)
        sessions.append(se)
    bad = [{"kind": rng.choice(BAD), "at": rng.randrange(max(1, T)), "len": rng.randint(2, 7), "mode": sessions[0]["mode"] if style == "fork" else "rebuild"}
           for _ in range(rng.choice([0, 1, 1, 2]))]
    return {"world": w, "stream": s, "start": rng.choice([0, 0, rng.randrange(T)]), "sessions": sessions, "bad": bad}


def container(kind, labels):
    return {"list": list, "tuple": tuple, "index": pd.Index}[kind](labels)


def play(src, s, labels, kind, faults, take):
    """One request; returns results, and what the solver boundary saw."""
    seam = seams.SolverSeam().install()
    for p, f in faults.items():
        seam.plan[("s", int(p))] = f
    try:
        it = src.comb.solve(window=s["window"], times=container(kind, labels), **(s.get("opts") or {}))
    except Exception as e:  # noqa: BLE001
        return {"refused": repr(e)[:200], "got": []}
    st = Stream("s", it, seam)
    try:
        while (take is None or len(st.got) < take) and st.next():
            pass
    except Exception as e:  # noqa: BLE001
        return {"refused": repr(e)[:200], "got": st.got, "exc": kernel.describe(e)}
    done = st.done
    st.close()
    return {"refused": None, "got": st.got, "done": done, "failed": sorted(k[1] for k in seam.failed if k),
            "fired": {k[1]: v for k, v in seam.fired.items()}, "inaccurate": sorted(k[1] for k in seam.inaccurate if k)}


def later(x, step):
    """a label that is not there"""
    if isinstance(x, pd.Timestamp):
        return x + pd.Timedelta(step)
    if isinstance(x, str):
        return x + "x"
    if isinstance(x, datetime.date):
        return x + datetime.timedelta(days=5000)
    return x + 1000


class Consumer:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.w, self.s = sc["world"], sc["stream"]
        self.full = kernel.pristine(lambda: world.alone(self.w, self.s))
        self.n = world.avail(self.w)
        self.weff = min(self.s["window"] or self.n, self.n)
        self.tol = world.LOOSE if self.w.get("ewmas") else world.SAME
        self.durable = {}  # step -> result (None = failed)
        self.same = None

    def expected(self, i):
        return self.full[i - (self.weff - 1)]

    def run(self, mode, rel, kind, faults, take):
        if mode == "fork":
            self.ctx.probe("session in a new process")
            return kernel.pristine(lambda: self._run(Sources(self.w), rel, kind, faults, take))
        if mode == "rebuild" or self.same is None:
            self.same = Sources(self.w)
        return self._run(self.same, rel, kind, faults, take)

    def _run(self, src, rel, kind, faults, take):
        return play(src, self.s, src.times(rel), kind, faults, take)

    def request(self, a, k, se, clean=False):
        """returns number of results that became durable"""
        ctx = self.ctx
        k = min(k, self.n - a)
        rel = [a, k]
        steps = [i for i in range(a, a + k) if i >= self.weff - 1]
        faults = {} if clean else se["faults"]
        take = None if clean else se["crash"]
        r = self.run(se["mode"], rel, se["container"], faults, take)
        ctx.ops += 1
        ctx.event("session", rel, r)
        if a < self.weff - 1:
            ctx.probe("request within the first window")
        if a + k == self.n:
            ctx.probe("request ends with the last step")
        if k == 1:
            ctx.probe("request for a single step")
        for f in (r.get("fired") or {}).values():
            ctx.fault("solver:" + f.split(":")[0])
        if r["refused"]:
            ctx.violate("request-refused", f"consecutive steps {a}..{a + k - 1} of {self.n}, window {self.s['window']}: {r['refused']}\n{(r.get('exc') or {}).get('tb', '')}")
        got = r["got"]
        want = steps if take is None else steps[:take]
        if len(got) > len(want) or (len(got) < len(want)):
            ctx.violate("wrong-number", f"steps {a}..{a + k - 1} of {self.n}, window {self.s['window']}: {len(got)} results, {len(want)} expected; first times "
                        f"{[g and g['time'] for g in got[:4]]}")
        for j, (i, g) in enumerate(zip(steps, got)):
            ctx.simtime += 1
            kind = (r["fired"] or {}).get(j)
            exp = self.expected(i)
            if g is None:
                if kind is None and exp is not None:
                    ctx.violate("placeholder-without-failure", f"step {i} is empty, no failure was injected and the uninterrupted run answers it")
                continue
            if kind is not None and kind != "almost" and faults[str(j)]["attempts"] == "all":
                ctx.violate("failure-not-reported", f"step {i}: solver failed ({kind}), result delivered")
            if exp is None or j in r["inaccurate"]:
                continue
            d = diff(g, exp, self.tol)
            if d:
                ctx.violate("result-differs", f"step {i} of request {a}..{a + k - 1} (resumed / uninterrupted): {d}")
        keep = len(got)
        crashed = take is not None and take < len(steps)
        if crashed:
            keep = max(0, keep - se["lag"])
            ctx.fault("crash of the consumer")
            if keep < len(got):
                ctx.probe("results lost with the crash and delivered again")
            if 0 < len(got):
                ctx.nontrivial = True
        for i, g in list(zip(steps, got))[:keep]:
            if g is not None or i not in self.durable:
                if self.durable.get(i, 0) is None and g is not None:
                    ctx.probe("failed step asked for again")
                self.durable[i] = g
        if not crashed:
            return a + k
        return steps[keep] if keep < len(steps) else a + k

    def malformed(self, b):
        ctx = self.ctx
        src = Sources(self.w) if b["mode"] != "fork" else None

        def go(src):
            src = src or Sources(self.w)
            labels = list(src.all_times())
            a = min(b["at"], max(0, len(labels) - b["len"]))
            t = labels[a: a + b["len"]]
            if b["kind"] == "gap":
                if len(t) < 3:
                    return None
                t = t[:1] + t[2:]
            elif b["kind"] == "repeat":
                t = t + t[-1:]
            elif b["kind"] == "inner":  # first and last steps are where they should be
                if len(t) < 4:
                    return None
                t = t[:1] + t[1:-1][::-1] + t[-1:]
            elif b["kind"] == "double":
                if len(t) < 3:
                    return None
                t = t[:1] + t[:1] + t[2:]
            elif b["kind"] == "reversed":
                t = t[::-1]
            elif b["kind"] == "swapped":
                t = t[:-2] + [t[-1], t[-2]]
            elif b["kind"] == "unknown":
                x = t[-1]
                y = later(x, "13min")
                t = t[:-1] + [y]
            elif b["kind"] == "beyond":
                x = labels[-1]
                y = later(x, "1D")
                t = labels[-2:] + [y]
            elif b["kind"] == "before":
                first = list(next(iter(src.comb.sigmas.values())))[0]
                t = [first] + labels[:2]
            if len(t) < 2:
                return None
            return play(src, self.s, t, "list", {}, None)

        r = kernel.pristine(lambda: go(None)) if b["mode"] == "fork" else go(src)
        ctx.event("malformed", b["kind"], r)
        if r is None:
            return
        if not r["refused"]:
            ctx.violate("malformed-request-answered", f"request with {b['kind']} answered with {len(r['got'])} results: "
                        f"{[g and g['time'] for g in r['got'][:5]]}")
        if r["got"]:
            ctx.violate("malformed-request-answered", f"request with {b['kind']}: {len(r['got'])} results before the refusal")
        ctx.probe("malformed request refused")


def execute(sc, ctx):
    c = Consumer(sc, ctx)
    pos = sc["start"]
    bad = list(sc["bad"])
    for se in sc["sessions"]:
        if pos >= c.n:
            break
        a = max(sc["start"], pos - se["back"])
        if pos > sc["start"]:
            ctx.nontrivial = True
        pos = c.request(a, se["len"], se, clean=False)
        if bad:
            c.malformed(bad.pop())
    # faults stop: everything that is missing is delivered in a bounded number of requests
    last = dict(sc["sessions"][-1], faults={}, crash=None) if sc["sessions"] else {"mode": "same", "container": "list", "faults": {}, "crash": None, "lag": 0}
    for _ in range(3):
        if pos >= c.n:
            break
        pos = c.request(pos, c.n - pos, last, clean=True)
    holes = [i for i, g in c.durable.items() if g is None and c.expected(i) is not None]
    for i in sorted(holes):
        c.request(i, 1, last, clean=True)
    for b in bad:
        c.malformed(b)
    want = [i for i in range(sc["start"], c.n) if i >= c.weff - 1]
    missing = [i for i in want if i not in c.durable]
    if missing:
        ctx.violate("steps-missing", f"never delivered: {missing}")
    for i in want:
        g, e = c.durable[i], c.expected(i)
        if g is None and e is not None:
            ctx.violate("hole-remains", f"step {i} stays empty without faults")
    ctx.interleaving = hashlib.sha256(json.dumps([sc["sessions"], sc["start"]], sort_keys=True).encode()).hexdigest()[:16]


def shrink(sc):
    for x in interleave.chunks_removed(sc["sessions"]):
        yield dict(sc, sessions=x)
    for x in interleave.chunks_removed(sc["bad"]):
        yield dict(sc, bad=x)
    for i, se in enumerate(sc["sessions"]):
        for ch in ({"faults": {}}, {"crash": None}, {"container": "list"}, {"lag": 0}, {"back": 0}, {"mode": "rebuild"}):
            if any(se[k] != v for k, v in ch.items()):
                yield dict(sc, sessions=[dict(x, **ch) if i == j else x for j, x in enumerate(sc["sessions"])])
    if sc["stream"].get("opts"):
        yield dict(sc, stream=dict(sc["stream"], opts=None))
    for c in interleave.shrink_worlds({"sources": [sc["world"]]}):
        v = c["sources"][0]
        if world.fits(v, sc["stream"]) and sc["start"] < world.avail(v):
            yield dict(sc, world=v)
