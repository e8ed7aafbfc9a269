"""(/opt/venv/bin/python) Writes MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
PURE = "A pure function of its input: no schedule, fault, crash point, history or I/O takes part in it, so there is nothing for a simulator to decide."
NA = {
    "C17": PURE + " (Linear-algebra identity of one matrix.)",
    "C18": PURE + " (Inequality between likelihoods of two matrices.)",
    "C19": PURE + " (Equivariance under relabelling and rescaling of the input.)",
    "C20": PURE + " (Agreement of closed formulas on the same input.)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "sim", "props", i.lower() + ".py")):
        m = importlib.import_module(f"sim.props.{i.lower()}")
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh check {i} --tier quick",
            "thorough_cmd": f"./run.sh check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": getattr(m, "TECHNIQUE", "deterministic simulation with fault injection: seeded search over schedules and faults"),
            "level": "exploration",
            "level_note": getattr(m, "NOTE", "Sampled seeds, no proof: a clean run means that no violation was found in the simulated executions counted in the evidence.")
            + " Assumes: " + "; ".join(m.ASSUMPTIONS) + ".",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet.")})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo are needed: every seam (solver, worker pool, threads, interruption, data feed) is reached from outside. Replay a violation with ./run.sh replay FILE."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
