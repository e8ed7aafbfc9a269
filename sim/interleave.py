"""Interleaved consumption of lazy result streams: shared by C01 (combinations) and C08 (estimators, regularisation)."""

from __future__ import annotations

import hashlib
import json

from . import kernel, seams, world
from .world import LOOSE, SAME, Sources, Stream, canon, diff


# -- generation ------------------------------------------------------------------------------------------------------


def gen_opts(rng):
    return rng.weighted([
        (None, 4),
        ({"max_iter": 3}, 1),  # cannot be met: every step of this stream is a failure
        ({"max_iter": rng.randint(60, 200)}, 2),
        ({"tol_gap_rel": rng.choice([1e-9, 1e-7])}, 1),
        ({"solver": "CLARABEL"}, 1),
        ({"solver": "CLARABEL", "max_iter": rng.randint(60, 200)}, 1),
        ({"warm_start": True}, 1),
    ])


def gen_combo(rng, w):
    T = world.avail(w)
    lo = world.low_window(w)
    win = rng.weighted([(lo, 2), (rng.randint(lo, max(lo, T // 2)), 5), (None, 1), (T + 7, 1)])
    s = {"kind": "combo", "window": win, "opts": gen_opts(rng), "times": None}
    if rng.chance(0.4):
        a = rng.randrange(0, T)
        s["times"] = [a, rng.randint(1, T - a)]
    return s


def gen_estimator(rng, w):
    n, T = w["n"], w["T"]
    kinds = ["iewma", "iewma", "reg", "em", "realized"] + (["lowrank", "lowrank"] if n >= 2 and not w.get("gaps") else [])
    k = rng.choice(kinds)
    if k in ("iewma", "lowrank"):
        kw = {"min_periods_vola": rng.choice([1, 2, 4]), "min_periods_cov": rng.choice([1, 2, 5]), "mean": rng.chance(0.5),
              "clip_at": rng.choice([None, None, 3.0, 1.5])}
        s = {"kind": k, "hl": list(rng.choice([(3, 6), (8, 4), (5, 20)])), "kw": kw}
        if k == "lowrank":
            s["rank"] = rng.randint(1, n - 1)
            kw["min_periods_vola"] = max(2, kw["min_periods_vola"])
            if kw["mean"] and rng.chance(0.5):  # returns that are clipped from the start: no variance yet
                kw.update(clip_at=rng.choice([1.5, 1.0, 0.8]), min_periods_vola=2, min_periods_cov=rng.choice([1, 2]))
        return s
    if k == "reg":
        return {"kind": "reg", "rank": rng.randint(1, n), "low": rng.chance(0.5)}
    if k == "em":
        return {"kind": "em", "rank": rng.randint(1, max(1, n - 1))}
    return {"kind": "realized", "hl": rng.choice([2, 5]), "kw": rng.choice([{}, {"clip_at": 4.0, "min_periods": 2}])}


def generate(rng, tier, gen_stream, gen_w):
    big = tier == "thorough"
    ns = rng.choice([1, 1, 2]) if rng.chance(0.7) else 2
    srcs = [gen_w(rng.sub("w", i)) for i in range(ns)]
    if ns == 2 and rng.chance(0.5):
        srcs[1] = dict(srcs[0])  # two combinators over equal data, or only a few things different
        if rng.chance(0.5):
            srcs[1]["means"] = None if srcs[0].get("means") else "array"
    m = rng.weighted([(2, 4), (3, 3), (4, 2), (5, 1 if big else 0.3)])
    streams = []
    for _ in range(m):
        src = rng.randrange(ns)
        if streams and rng.chance(0.3):  # a twin, or nearly so
            s = json.loads(json.dumps(rng.choice(streams)))
            if rng.chance(0.5) and s["kind"] == "combo":
                s["opts"] = gen_opts(rng)
        else:
            s = gen_stream(rng, srcs[src])
            s["src"] = src
        streams.append(s)
    sc = {"sources": srcs, "streams": streams}
    if rng.chance(0.55):
        sc["mode"] = "coop"
        sc["ops"] = gen_ops(rng, m)
    else:
        sc["mode"] = "threads"
        nt = min(m, rng.choice([2, 2, 3]))
        sc["threads"] = [i % nt for i in range(m)]
        sc["pre"] = [rng.choice([-1, -1, -1, 0, 1, 3]) for _ in range(m)]  # -1: opened inside its thread
        sc["take"] = [rng.weighted([(None, 5), (rng.randint(0, 12), 2)]) for _ in range(m)]
        sc["end"] = [rng.choice(["keep", "close", "drop"]) for _ in range(m)]
        sc["own"] = [rng.chance(0.25) for _ in range(m)]  # builds a combinator of its own over the shared data
        sc["p"] = rng.choice([0.002, 0.01, 0.03, 0.1])
        sc["p_solver"] = rng.choice([0.2, 0.6, 0.9])
        sc["sched"] = rng.randrange(1 << 40)
    return sc


def gen_ops(rng, m):
    ops = []
    todo = list(range(m))
    live = []
    style = rng.choice(["mixed", "mixed", "bursty", "sequential"])
    for _ in range(rng.randint(20, 70)):
        x = rng.random()
        if todo and (not live or x < 0.12):
            i = todo.pop(0)
            ops.append(["open", i])
            live.append(i)
        elif live and x < 0.16:
            i = rng.choice(live)
            ops.append([rng.choice(["close", "drop"]), i])
            live.remove(i)
        elif x < 0.20:
            ops.append(["other", rng.randrange(6)])
        elif live:
            i = live[-1] if style == "sequential" else rng.choice(live)
            ops.append(["next", i, rng.randint(2, 6) if style == "bursty" else 1])
    for i in todo:
        ops.append(["open", i])
        live.append(i)
    rng.shuffle(live)
    for i in live:
        if rng.chance(0.85):
            ops.append(["next", i, 10 ** 6])
    return ops


# -- execution -------------------------------------------------------------------------------------------------------


def tol_of(spec, w):
    return LOOSE if spec["kind"] == "combo" and w.get("ewmas") else SAME


def alone_spec(sc, i):
    s = dict(sc["streams"][i])
    return sc["sources"][s["src"]], s


def expectations(sc, ctx):
    """Every distinct stream run alone in a process of its own."""
    cache = {}
    out = []
    for i in range(len(sc["streams"])):
        w, s = alone_spec(sc, i)
        key = json.dumps([w, s], sort_keys=True)
        if key not in cache:
            cache[key] = kernel.pristine(lambda: world.alone(w, s))
            ctx.event("alone", i, cache[key])
        out.append(cache[key])
    return out


def other_activity(src, k):
    """Library activity beside the streams."""
    from cvx.covariance.ewma import center, clip, iterated_ewma, volatility

    if k == 0:
        for _ in iterated_ewma(src.R, 4, 9, min_periods_vola=2, min_periods_cov=2, clip_at=2.0):
            pass
    elif k == 1:
        volatility(src.R, halflife=5, min_periods=2, clip_at=2.0)
    elif k == 2:
        center(src.R, halflife=4, mean_adj=True)
        clip(src.R, clip_at=0.01)
    elif k == 3 and src.comb is not None:
        it = src.comb.solve(window=world.min_window(src.w) + 1)
        next(it, None)
    elif k == 4 and src.comb is not None:
        src.comb.sigmas, src.comb.means, src.comb.K, src.comb.assets, src.comb.returns
    elif k == 5:
        from cvx.covariance.regularization import regularize_covariance

        next(iter(regularize_covariance(src.covs(), r=1)))


class Play:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.exp = expectations(sc, ctx)
        self.seam = seams.SolverSeam(ctx).install()
        self.src = [Sources(w) for w in sc["sources"]]
        self.streams = [None] * len(sc["streams"])
        self.tols = [tol_of(s, sc["sources"][s["src"]]) for s in sc["streams"]]
        self.overlap = 0
        self.inputs = [s.given for s in self.src]

    def open(self, i, own=False):
        s = self.sc["streams"][i]
        src = self.src[s["src"]]
        if own and src.comb is not None:
            src = Sources(src.w)
            src.R, src.sig, src.mus = self.src[s["src"]].R, self.src[s["src"]].sig, self.src[s["src"]].mus
        self.streams[i] = Stream(i, src.open(s), self.seam)
        self.ctx.event("open", i)

    def next(self, i):
        st = self.streams[i]
        if st is None or st.done:
            return False
        exp = self.exp[i]
        pos = len(st.got)
        if any(o is not None and o is not st and not o.done and o.got for o in self.streams):
            self.overlap += 1
        more = st.next()
        self.ctx.ops += 1
        if not more:
            if pos != len(exp):
                self.ctx.violate("stream-incomplete", f"stream {i} ended after {pos} results, alone it delivers {len(exp)}")
            self.ctx.event("end", i)
            return False
        if pos >= len(exp):
            self.ctx.violate("stream-too-long", f"stream {i} delivers result {pos}, alone it delivers {len(exp)}")
        self.ctx.event("got", i, pos, st.got[-1])
        self.ctx.simtime += 1
        d = diff(st.got[-1], exp[pos], self.tols[i])
        if d:
            self.ctx.violate("stream-differs", f"stream {i} ({self.sc['streams'][i]}) result {pos} (here / alone): {d}")
        return True

    def finish(self):
        sc, ctx = self.sc, self.ctx
        for c in self.seam.calls:
            if c["tag"] is None or not isinstance(c["tag"][0], int):
                continue
            want = {k: v for k, v in (sc["streams"][c["tag"][0]].get("opts") or {}).items() if k not in ("solver", "warm_start")}
            for k, v in want.items():
                if c["opts"].get(k) != v:
                    ctx.violate("foreign-options", f"stream {c['tag'][0]} solved with {c['opts']}, its own options are {want}")
            for k in ("max_iter", "tol_gap_rel"):
                if k in c["opts"] and k not in want:
                    others = [s.get("opts") or {} for s in sc["streams"]]
                    if any(o.get(k) == c["opts"][k] for o in others):
                        ctx.violate("foreign-options", f"stream {c['tag'][0]} solved with {k} of another stream: {c['opts']}")
        for s, before in zip(self.src, self.inputs):
            if world.snap(s.inputs()) != before:
                ctx.violate("inputs-changed", "the experts or returns given to the library were changed")
        ctx.nontrivial = self.overlap > 0
        ctx.probe("results delivered while another stream was open", self.overlap)


def execute(sc, ctx):
    play = Play(sc, ctx)
    if sc["mode"] == "coop":
        for op in sc["ops"]:
            k, i = op[0], op[1]
            if k == "open":
                if play.streams[i] is None:
                    play.open(i)
            elif k == "other":
                other_activity(play.src[0], i)
                ctx.event("other", i)
                ctx.probe("other library activity in between")
            elif play.streams[i] is None:
                continue
            elif k == "close":
                play.streams[i].close()
                ctx.event("close", i)
                ctx.fault("stream closed early" if play.streams[i].got else "stream closed unused")
            elif k == "drop":
                play.streams[i].drop()
                ctx.event("drop", i)
                ctx.fault("stream abandoned")
            elif k == "next":
                for _ in range(op[2]):
                    if not play.next(i):
                        break
        ctx.interleaving = hashlib.sha256(json.dumps(sc["ops"]).encode()).hexdigest()[:16]
    else:
        m = len(sc["streams"])
        for i in range(m):
            if sc["pre"][i] >= 0:
                play.open(i)
                for _ in range(sc["pre"][i]):
                    play.next(i)
        rng = kernel.Rng("sched", sc["sched"])
        sched = kernel.Sched(rng, sc["p"], sc["p_solver"], plan=sc.get("plan"))

        def body(t):
            def run():
                mine = [i for i in range(m) if sc["threads"][i] == t]
                for i in mine:
                    if play.streams[i] is None:
                        play.open(i, own=sc["own"][i])
                    take = sc["take"][i]
                    n = 0
                    while (take is None or n < take) and play.next(i):
                        n += 1
                    if sc["end"][i] == "close":
                        play.streams[i].close()
                        ctx.event("close", i)
                    elif sc["end"][i] == "drop":
                        play.streams[i].drop()
                        ctx.event("drop", i)
            return run

        for t in sorted(set(sc["threads"])):
            sched.spawn(f"thread-{t}", body(t))
        try:
            sched.run()
        finally:
            ctx.steps += sched.n
            ctx.probe("thread switches", len(sched.switches) if sc.get("plan") is None else len(sc["plan"]))
            if sc.get("plan") is None:
                ctx.record["plan"] = [list(x) for x in sched.switches]
            ctx.interleaving = hashlib.sha256(repr(sched.switches or sc.get("plan")).encode()).hexdigest()[:16]
            ctx.event("switches", sched.switches if sc.get("plan") is None else [tuple(x) for x in sc["plan"]])
    play.finish()
    return play


# -- minimisation ----------------------------------------------------------------------------------------------------


def chunks_removed(seq, least=0):
    n = len(seq)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            c = seq[:i] + seq[i + size:]
            if len(c) >= least:
                yield c
        if size == 1:
            break
        size //= 2


def shrink_worlds(sc, key="sources"):
    for i, w in enumerate(sc[key]):
        for change in ({"T": max(10, w["T"] - 6)}, {"T": w["T"] - 1}, {"index": "int"}, {"heavy": False}, {"means": None},
                       {"start": 0}, {"assets": "str"}, {"experts": "str"}, {"n": 2}, {"K": 2}, {"scale": 0.01}, {"gaps": 0}, {"uneven": False}, {"slow": False}):
            if any(w.get(k) != v for k, v in change.items()) and not (change.get("T", 99) < 8) \
                    and not (change.get("n", 0) > w["n"]) and not ("n" in change and w.get("nocomb")) and not (change.get("K", 0) > w["K"]):
                c = dict(sc)
                c[key] = [dict(x, **change) if j == i else x for j, x in enumerate(sc[key])]
                yield c


def shrink(sc):
    if sc["mode"] == "coop":
        for ops in chunks_removed(sc["ops"], 1):
            yield dict(sc, ops=ops)
    else:
        plan = sc.get("plan")
        if plan:
            for p in chunks_removed(plan):
                yield dict(sc, plan=p)
        for i in range(len(sc["streams"])):
            if sc["take"][i] is None or sc["take"][i] > 0:
                for t in (0, 2, 6):
                    if sc["take"][i] is None or t < sc["take"][i]:
                        yield dict(sc, take=[t if j == i else x for j, x in enumerate(sc["take"])])
            if sc["own"][i]:
                yield dict(sc, own=[False if j == i else x for j, x in enumerate(sc["own"])])
    for i, s in enumerate(sc["streams"]):
        for change in ({"opts": None}, {"times": None}):
            if s.get(next(iter(change))) is not None:
                yield dict(sc, streams=[dict(x, **change) if j == i else x for j, x in enumerate(sc["streams"])])
    for c in shrink_worlds(sc):
        if all(world.fits(c["sources"][s["src"]], s) for s in c["streams"]):
            yield c
