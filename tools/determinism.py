"""Runs the same seeds twice (8 workers and hash seed 0, 3 workers and hash seed 7) and compares event digests.

usage: ./tools/determinism.py [seeds per property]      (run with the interpreter of the checks)
"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
from sim import driver, kernel  # noqa: E402

N = int(sys.argv[1]) if len(sys.argv) > 1 else 100
props = [f[:-3].upper() for f in sorted(os.listdir(os.path.join(driver.ROOT, "sim", "props"))) if f[0] == "c" and f[1:3].isdigit()]
jobs = [dict(prop=p, seed=kernel.h64("determinism", p, i) % (1 << 48), tier="quick") for p in props for i in range(N)]
runs = []
for n, env in ((8, {"PYTHONHASHSEED": "0"}), (3, {"PYTHONHASHSEED": "7"})):
    fleet = driver.Fleet(n, env)
    runs.append(fleet.map(jobs))
    fleet.close()
bad = 0
for j, a, b in zip(jobs, *runs):
    if any(a.get(k) != b.get(k) for k in ("status", "digest", "interleaving", "faults", "probes", "ops", "steps")):
        bad += 1
        print("DIFFERENT", j["prop"], j["seed"], a["status"], b["status"], [k for k in ("digest", "interleaving", "faults", "probes", "ops", "steps") if a.get(k) != b.get(k)])
print(f"{len(jobs)} seeds, {bad} not repeated exactly")
sys.exit(bool(bad))
