"""A solver failure costs exactly its own step."""

import hashlib
import json

from .. import faulty, kernel, seams, world
from ..world import Sources, Stream, diff

RUNS = {"quick": 900, "thorough": 14000}
RULE = ("A case is a combination stream with a seeded schedule of solver faults (raised errors, every failure status, really "
        "truncated runs, reduced accuracy; single, bursts, first/last step, alternating, nearly all), for all attempts of a step "
        "or for the first one only. Non-trivial: at least one fault fired and at least one step without a fault was delivered.")
PROBES = ["result delivered right after a failed step", "first step failed", "last step failed", "fault for the first attempt only",
          "second stream alive during faults"]
REAL = ["cvx.covariance.combination", "cvx.covariance.ewma", "cvxpy", "Clarabel (compiled)"]
STUB = ["status line of the solver in faulted steps (the solver itself still runs, except for raised errors)"]
ASSUMPTIONS = ["a solve belongs to the step whose delivery was being asked for when the solver was called"]
shrink = faulty.shrink


def generate(rng, tier):
    w = faulty.gen_w(rng, long=0.02)
    s = faulty.gen_stream(rng, w)
    n = faulty.n_steps(w, s)
    return {"world": w, "stream": s, "plan": faulty.gen_plan(rng, max(1, n)), "twin": rng.chance(0.3), "again": rng.chance(0.2)}


def execute(sc, ctx):
    w, s = sc["world"], sc["stream"]
    clean = kernel.pristine(lambda: world.alone(w, s))
    tol = world.LOOSE if w.get("ewmas") else world.SAME
    seam = seams.SolverSeam(ctx).install()
    src = Sources(w)
    for p, f in sc["plan"].items():
        seam.plan[("main", int(p))] = f
    st = Stream("main", src.open(s), seam)
    twin = Stream("twin", src.open(s), seam) if sc["twin"] else None
    delivered = 0
    while True:
        pos = len(st.got)
        more = st.next()
        ctx.ops += 1
        ctx.simtime += 1
        if twin is not None and twin.next():
            ctx.probe("second stream alive during faults")
            d = diff(twin.got[-1], clean[len(twin.got) - 1], tol) if len(twin.got) <= len(clean) else "too long"
            if d:
                ctx.violate("other-stream-disturbed", f"a stream without failures differs at {len(twin.got) - 1}: {d}")
        if not more:
            break
        got = st.got[-1]
        ctx.event("got", pos, got)
        if pos >= len(clean):
            ctx.violate("stream-too-long", f"result {pos}, without failures there are {len(clean)}")
        kind = seam.fired.get(("main", pos))
        failing = kind is not None and kind != "almost"
        part = failing and sc["plan"][str(pos)]["attempts"] == "first"
        if part:
            ctx.probe("fault for the first attempt only")
        if failing and not part and got is not None:
            ctx.violate("failure-not-reported", f"position {pos}: the solver failed ({kind}) but a result was delivered: {got['weights']['v']}")
        if got is None:
            if kind is None and clean[pos] is not None or ("main", pos) not in seam.failed:
                ctx.violate("placeholder-without-failure", f"position {pos} is empty, no failure was injected there and the run without failures answers it")
            if pos == 0:
                ctx.probe("first step failed")
            if pos == len(clean) - 1:
                ctx.probe("last step failed")
        else:
            if clean[pos] is None or ("main", pos) in seam.inaccurate:
                continue
            d = diff(got, clean[pos], tol)
            if d:
                ctx.violate("result-differs", f"position {pos} (with failures elsewhere / without failures): {d}")
            delivered += 1
            if pos and st.got[pos - 1] is None:
                ctx.probe("result delivered right after a failed step")
    if len(st.got) != len(clean):
        ctx.violate("stream-incomplete", f"{len(st.got)} results, without failures there are {len(clean)}")
    if twin is not None:
        while twin.next():
            pass
        if len(twin.got) != len(clean):
            ctx.violate("other-stream-disturbed", f"{len(twin.got)} results instead of {len(clean)}")
    if sc["again"]:
        st = Stream("again", src.open(s), seam)
        while st.next():
            pass
        if diff(st.got, clean, tol):
            ctx.violate("failure-remembered", f"a new stream after the failures differs: {diff(st.got, clean, tol)}")
    ctx.nontrivial = bool(seam.fired) and delivered > 0
    ctx.interleaving = hashlib.sha256(json.dumps(sc["plan"], sort_keys=True).encode()).hexdigest()[:16]
