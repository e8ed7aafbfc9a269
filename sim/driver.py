"""Runs the seeds of one property on a pool of zygotes, minimises and replays violations, writes the evidence."""

from __future__ import annotations

import argparse
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
MAX_SECONDS = {"quick": 300.0, "thorough": 3000.0}


class Fleet:
    def __init__(self, n=WORKERS, env=None):
        self.n = n
        self.jobs = queue.Queue()
        self.answers = queue.Queue()
        self.procs = []
        self.threads = []
        e = dict(os.environ)
        e.update(env or {})
        e["PYTHONPATH"] = ROOT
        self.err = open(os.path.join(ROOT, "out", f"zygote-{os.getpid()}.log"), "w")
        for _ in range(n):
            p = subprocess.Popen([PY, "-m", "sim.zygote"], cwd=ROOT, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=self.err, text=True)
            self.procs.append(p)
        for p in self.procs:
            t = threading.Thread(target=self._serve, args=(p,), daemon=True)
            t.start()
            self.threads.append(t)
        self.next = 0

    def _serve(self, p):
        line = p.stdout.readline()
        if not line:
            self.answers.put({"job": None, "res": {"status": "harness", "detail": "zygote did not start (see log)"}})
            return
        while True:
            job = self.jobs.get()
            if job is None:
                p.stdin.close()
                return
            try:
                p.stdin.write(json.dumps(job) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                if not line:
                    raise OSError("zygote died")
                self.answers.put(json.loads(line))
            except (OSError, ValueError) as e:
                self.answers.put({"job": job["job"], "res": {"status": "harness", "detail": f"zygote: {e}"}})
                return

    def submit(self, **job):
        job["job"] = self.next
        self.next += 1
        self.jobs.put(job)
        return job["job"]

    def get(self):
        a = self.answers.get()
        return a["job"], a["res"]

    def map(self, jobs):
        """results of a batch, in order"""
        ids = [self.submit(**j) for j in jobs]
        out = {}
        while len(out) < len(ids):
            i, r = self.get()
            if i is None:
                raise RuntimeError(r["detail"])
            out[i] = r
        return [out[i] for i in ids]

    def close(self):
        for _ in self.procs:
            self.jobs.put(None)
        for p in self.procs:
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        self.err.close()
        try:
            if os.path.getsize(self.err.name) == 0:
                os.unlink(self.err.name)
        except OSError:
            pass


def known_findings():
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def match(res, known):
    return [k for k in known if k["kind"] == res.get("kind") and k.get("match", "") in res.get("detail", "")]


def settle(fleet, prop, res):
    """Hangs and deaths are believed only when they repeat."""
    if res["status"] in ("hang", "died"):
        again = fleet.map([{"prop": prop, "scenario": res["scenario"], "limit": 150}])[0]
        if again["status"] in ("hang", "died"):
            again.update(status="violation", kind="no-progress" if again["status"] == "hang" else "process-died",
                         detail="the simulated system neither finishes nor fails" if again["status"] == "hang" else again["detail"])
        again.setdefault("scenario", res["scenario"])
        return again
    return res


def minimise(fleet, prop, mod, res, seconds):
    """Greedy, in parallel: the first smaller scenario of each batch that fails in the same way is kept."""
    best = res
    tried = 0
    deadline = time.monotonic() + seconds
    if not hasattr(mod, "shrink"):
        return best, tried
    progress = True
    seen = set()
    while progress and time.monotonic() < deadline:
        progress = False
        base = dict(best["scenario"])
        if best.get("record"):
            base.update(best["record"])
        cands = []
        for c in mod.shrink(json.loads(json.dumps(base))):
            key = json.dumps(c, sort_keys=True)
            if key not in seen:
                seen.add(key)
                cands.append(c)
            if len(cands) >= 64:
                break
        i = 0
        while i < len(cands) and time.monotonic() < deadline:
            batch = cands[i: i + fleet.n]
            i += len(batch)
            tried += len(batch)
            for r in fleet.map([{"prop": prop, "scenario": c, "limit": 60} for c in batch]):
                if r["status"] == "violation" and r["kind"] == best["kind"]:
                    best = r
                    progress = True
                    break
            if progress:
                break
    return best, tried


def finalise(fleet, prop, res):
    """The scenario with its recorded schedule; replayed until the same digest is seen twice."""
    sc = dict(res["scenario"])
    if res.get("record"):
        sc.update(res["record"])
    a = fleet.map([{"prop": prop, "scenario": sc}, {"prop": prop, "scenario": sc}])
    same = all(r["status"] == "violation" and r["kind"] == res["kind"] for r in a) and a[0]["digest"] == a[1]["digest"]
    return (a[0] if same else res), sc, same


def load_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def check(prop, tier, runs=None, seed=None, quiet=False, env=None):
    from . import kernel

    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    seed = load_seed() if seed is None else seed
    runs = runs or mod.RUNS[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    runs = max(1, int(runs * scale))
    t0 = time.monotonic()
    fleet = Fleet(env=env)
    print(f"{prop}: VERIF_SEED={seed} tier={tier} runs={runs} workers={fleet.n} repo={kernel.REPO}", flush=True)
    seeds = [kernel.h64(seed, prop, i) % (1 << 48) for i in range(runs)]
    known = [k for k in known_findings().get("findings", []) if k["property"] == prop]
    pending = {}
    results = {}
    nxt = 0
    bad = None
    stop = False
    cap = MAX_SECONDS[tier]
    while nxt < len(seeds) or pending:
        while nxt < len(seeds) and len(pending) < 2 * fleet.n and not stop:
            pending[fleet.submit(prop=prop, seed=seeds[nxt], tier=tier)] = nxt
            nxt += 1
        if not pending:
            break
        j, res = fleet.get()
        if j is None:
            print(f"HARNESS-ERROR {res['detail']}")
            fleet.close()
            return 2
        results[pending.pop(j)] = res
        if res["status"] != "ok" and not match(res, known):
            stop = True
        if time.monotonic() - t0 > cap:
            stop = True
    status = 0
    order = sorted(results)
    lines = []
    replay_path = None
    for i in order:
        res = results[i]
        if res["status"] == "ok":
            continue
        res = settle(fleet, prop, res)
        results[i] = res
        if res["status"] == "ok":
            continue
        if res["status"] != "violation":
            print(f"HARNESS-ERROR seed={seeds[i]} {res['status']}: {res.get('detail')}")
            status = max(status, 2)
            continue
        hit = match(res, known)
        if hit:
            lines.append(f"KNOWN-FINDING: property={prop} {hit[0]['what']}")
            continue
        if bad is not None:
            continue
        bad = i
        first_detail = res["detail"]
        small, tried = minimise(fleet, prop, mod, res, float(os.environ.get("VERIF_MINIMISE", 90.0 if tier == "quick" else 300.0)))
        final, sc, same = finalise(fleet, prop, small)
        if not same and small is not res:
            final, sc, same = finalise(fleet, prop, res)
        os.makedirs(os.path.join(ROOT, "out", "replay"), exist_ok=True)
        replay_path = os.path.join("out", "replay", f"{prop}-{seeds[i]}.json")
        with open(os.path.join(ROOT, replay_path), "w") as f:
            json.dump({"property": prop, "verif_seed": seed, "seed": seeds[i], "kind": final["kind"], "detail": final["detail"],
                       "digest": final.get("digest"), "reproduced_exactly": same, "minimisation_runs": tried,
                       "first_detail": first_detail, "scenario": sc}, f, indent=1)
        print(f"{prop}: seed={seeds[i]} {final['kind']}: {final['detail'][:1500]}")
        print(f"  minimised with {tried} runs; replay reproduces exactly: {same}")
        status = 1
    for ln in sorted(set(lines)):
        print(ln)
    wall = time.monotonic() - t0
    write_evidence(prop, tier, seed, mod, results, order, wall, 1 if bad is not None else 0, fleet.n)
    fleet.close()
    if replay_path:
        print(f"VIOLATION property={prop} replay={replay_path}", flush=True)
        return 1
    n_ok = sum(1 for i in order if results[i]["status"] == "ok")
    print(f"{prop}: {n_ok} runs without violation in {wall:.1f} s", flush=True)
    return status


def write_evidence(prop, tier, seed, mod, results, order, wall, violations, workers):
    faults, probes = {}, {}
    shapes, digests = set(), set()
    nontrivial = simtime = ops = steps = 0
    for i in order:
        r = results[i]
        for k, v in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get("probes") or {}).items():
            probes[k] = probes.get(k, 0) + v
        if r.get("interleaving"):
            shapes.add(r["interleaving"])
        if r.get("nontrivial") and r.get("digest") not in digests:
            nontrivial += 1
        digests.add(r.get("digest"))
        simtime += r.get("simtime", 0)
        ops += r.get("ops", 0)
        steps += r.get("steps", 0)
    n = len(order)
    sample = [results[i].get("scenario") for i in order[:2]]
    cov = {
        "evaluations": n,
        "distinct_nontrivial": nontrivial,
        "rule": mod.RULE,
        "samples": sample,
        "simulated_runs": n,
        "seeds_per_hour": round(n / max(wall, 1e-9) * 3600),
        "simulated_time": {"amount": simtime, "unit": getattr(mod, "TIME_UNIT", "time steps of the data")},
        "operations": ops,
        "yield_points_or_lines": steps,
        "faults_injected": dict(sorted(faults.items())),
        "rare_conditions_hit": dict(sorted(probes.items())),
        "rare_conditions_never_hit": [p for p in getattr(mod, "PROBES", []) if p not in probes],
        "distinct_interleavings": len(shapes),
        "interleaving_measure": getattr(mod, "MEASURE", "distinct sequences of scheduler decisions and faults"),
        "real_components": mod.REAL,
        "stub_components": mod.STUB,
        "worker_processes": workers,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    fleet = Fleet(n=1)
    r = fleet.map([{"prop": rec["property"], "scenario": rec["scenario"], "limit": 150}])[0]
    r = settle(fleet, rec["property"], r)
    fleet.close()
    if r["status"] == "violation":
        exact = r["kind"] == rec["kind"] and r.get("digest") == rec.get("digest")
        print(f"{rec['property']}: {r['kind']}: {r['detail'][:3000]}")
        print(f"identical to the recorded run: {exact}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    if r["status"] == "ok":
        print(f"{rec['property']}: the recorded scenario does not fail (any more)")
        return 0
    print(f"HARNESS-ERROR {r}")
    return 2


def main():
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    c.add_argument("--runs", type=int)
    c.add_argument("--seed", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    one = sub.add_parser("one")
    one.add_argument("prop")
    one.add_argument("run_seed", type=int)
    a = ap.parse_args()
    if a.cmd == "check":
        sys.exit(check(a.prop, a.tier, a.runs, a.seed))
    if a.cmd == "replay":
        sys.exit(replay(a.file))
    if a.cmd == "one":
        fleet = Fleet(n=1)
        print(json.dumps(fleet.map([{"prop": a.prop, "seed": a.run_seed, "tier": "quick"}])[0], indent=1))
        fleet.close()


if __name__ == "__main__":
    main()
