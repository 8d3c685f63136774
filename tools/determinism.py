"""
Are runs repeatable?  Executes the first RUNS scenarios of each property twice,
in different worker processes (different number of workers, hence a different
process history before each run, and different hash seeds), and compares the
event-log hashes run by run.

    python3 tools/determinism.py [RUNS] [PROP ...]

C03 compares across processes by design and C10 may take a different number of
events when a measurement is cached by matplotlib; both must agree as well.
"""

import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import runner  # noqa: E402


def hashes(prop, seed, runs, nworkers):
    recs, violation, harness, stops, _, _ = runner.search(prop, "quick", seed, runs, nworkers, 600.0)
    if violation:
        print(f"{prop}: violation in run {violation['index']}: {violation['detail'][:300]}")
    for i, h in harness:
        print(f"{prop}: harness {i}: {h[-300:]}")
    return {r["i"]: (r.get("hash"), r.get("events"), r.get("switches")) for r in recs}


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    props = sys.argv[2:] or [f"C{k:02d}" for k in range(1, 13)]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    bad = 0
    for prop in props:
        a = hashes(prop, seed, runs, 8)
        b = hashes(prop, seed, runs, 5)
        diff = sorted(i for i in a if a[i] != b.get(i))
        bad += len(diff)
        print(f"{prop}: {len(a)} runs, {len(diff)} differ {[(i, a[i], b.get(i)) for i in diff[:4]]}", flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
