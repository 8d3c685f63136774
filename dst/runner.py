"""
Runs the seeded search for one property and reports

    python -m dst.runner PROP quick|thorough

Exit 0: the property held on everything explored; exit 1: a VIOLATION line
with a replay file; exit 2: the machinery itself failed.
"""

import json
import os
import queue
import subprocess
import sys
import threading
import time
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
DEADLINE = {"quick": 210.0, "thorough": 600.0}
HANG_S = {"quick": 150.0, "thorough": 240.0}
SHRINK_S = {"quick": 60.0, "thorough": 120.0}

REAL = ["mpllayout (every module, from /repo/src)", "numpy", "jax tracing and differentiation (XLA or op-by-op)",
        "scipy.optimize", "matplotlib with the Agg backend", "CPython threads (one runs at a time)"]
STUBS = ["thread scheduler (decided by the seed)", "id() as seen by the package (adversarial address reuse)",
         "cyclic garbage collector (runs only when the scenario says so)",
         "locks created by the package (blocking is a scheduling decision)",
         "failing numpy/scipy/jax/matplotlib calls (injected exceptions at the seams)"]


class Worker:
    def __init__(self, prop, seed, tier, start, step, count, deadline, q, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        self.hashseed = hashseed
        self.args = (prop, seed, tier, start, step, count, deadline)
        self.done = []          # indices finished by this process
        self.current = None
        self.since = time.monotonic()
        self.proc = subprocess.Popen(
            [PY, "-m", "dst.worker", "run", prop, str(seed), tier, str(start), str(step), str(count), str(deadline)],
            cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        self.err = []
        threading.Thread(target=self._pump, args=(q,), daemon=True).start()
        threading.Thread(target=self._pump_err, daemon=True).start()

    def _pump(self, q):
        for line in self.proc.stdout:
            try:
                q.put((self, json.loads(line)))
            except ValueError:
                continue
        self.proc.wait()
        q.put((self, {"exit": self.proc.returncode}))

    def _pump_err(self):
        for line in self.proc.stderr:
            self.err.append(line)
            if len(self.err) > 400:
                del self.err[:200]

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass


def run_worker(args, hashseed, timeout):
    """One-shot worker; returns the last JSON line or None"""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    proc = subprocess.Popen([PY, "-m", "dst.worker", *args], cwd=ROOT, env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, 9)
        except ProcessLookupError:
            pass
        proc.communicate()
        return {"hang": True}
    lines = [x for x in out.splitlines() if x.strip()]
    if not lines:
        return {"harness": f"worker produced nothing (exit {proc.returncode}): {err[-1500:]}"}
    return json.loads(lines[-1])


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    try:
        return json.load(open(path))
    except FileNotFoundError:
        return {"open": [], "fixed": []}


def known_match(prop, v, known):
    for k in known.get("open", ()):
        if k["property"] == prop and k["kind"] == v["kind"] and all(s in v["detail"] for s in k["match"]):
            return k
    return None


def search(prop, tier, seed, runs, nworkers, deadline):
    """All runs over the workers; returns (records, violation, harness errors)"""
    q = queue.Queue()
    t0 = time.monotonic()
    workers = []

    def spawn(start, left):
        w = Worker(prop, seed, tier, start, nworkers, runs, left, q, hashseed=(seed * 7919 + start) % 4294967295)
        workers.append(w)
        return w

    live = {spawn(k, deadline) for k in range(min(nworkers, runs))}
    recs, violation, harness = [], None, []
    stops = Counter()
    known = load_known()
    findings = {}
    while live:
        try:
            w, msg = q.get(timeout=1.0)
        except queue.Empty:
            msg = None
        now = time.monotonic()
        if msg is not None and w in live:
            w.since = now
            if "start" in msg:
                w.current = msg["start"]
            elif "exit" in msg:
                live.discard(w)
                if w.current is not None:
                    # died in the middle of a run
                    harness.append((w.current, f"worker exited with {msg['exit']}: {''.join(w.err)[-1500:]}"))
                    nxt = w.current + nworkers
                    if len(harness) < 20 and nxt < runs and now - t0 < deadline:
                        live.add(spawn(nxt, deadline - (now - t0)))
            elif "stop" in msg:
                stops[msg["stop"]] += 1
                w.current = None
                if msg["stop"] == "memory" and now - t0 < deadline:
                    live.add(spawn(msg["next"], deadline - (now - t0)))
            else:
                w.current = None
                if msg.get("harness"):
                    harness.append((msg["i"], msg["harness"]))
                    w.done.append(msg["i"])
                    continue
                v = msg.get("violation")
                if v:
                    k = known_match(prop, v, known)
                    if k is not None:
                        findings[k["id"]] = k
                        nxt = msg["i"] + nworkers
                        if nxt < runs and now - t0 < deadline:
                            live.add(spawn(nxt, deadline - (now - t0)))
                        recs.append(msg)
                        continue
                    violation = {"index": msg["i"], **v, "history": list(w.done), "hashseed": w.hashseed}
                    break
                recs.append(msg)
                w.done.append(msg["i"])
        for w in list(live):
            if w.current is not None and now - w.since > HANG_S[tier]:
                violation = {"index": w.current, "kind": "hang",
                             "detail": f"run {w.current} made no progress for {HANG_S[tier]:.0f} s",
                             "history": list(w.done), "hashseed": w.hashseed}
                break
        if violation:
            break
    for w in workers:
        w.kill()
    return recs, violation, harness, stops, findings, time.monotonic() - t0


def reproduce(prop, tier, seed, v):
    """Make the violation a self-contained, minimised, verified replay file"""
    from importlib import import_module
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{prop}-{tier}-s{seed}-r{v['index']}.json")
    mod = import_module(f"dst.props.{prop.lower()}")
    scn = json.loads(json.dumps(mod.generate(seed, v["index"], tier)))
    doc = {"property": prop, "seed": seed, "tier": tier, "index": v["index"], "kind": v["kind"],
           "detail": v["detail"], "hashseed": v["hashseed"], "scenario": scn, "history": [],
           "minimised": False, "reproduced": False}

    def save():
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)

    def again(timeout=HANG_S[tier]):
        save()
        res = run_worker(["exec", path], v["hashseed"], timeout)
        if res.get("hang"):
            return v["kind"] == "hang", res
        rv = res.get("violation")
        return bool(rv) and rv["kind"] == v["kind"], res

    ok, res = again()
    if not ok and v["history"]:
        # needs what ran before it in the same process: shortest suffix that does
        hist = v["history"]
        k = 1
        budget = time.monotonic() + 2 * SHRINK_S[tier]
        while time.monotonic() < budget:
            doc["history"] = hist[-k:]
            ok, res = again()
            if ok or k >= len(hist):
                break
            k = min(len(hist), k * 4)
    if ok and not doc["history"] and v["kind"] != "hang":
        got = run_worker(["shrink", path, str(SHRINK_S[tier])], v["hashseed"], SHRINK_S[tier] + HANG_S[tier])
        small = got.get("shrunk")
        if small:
            full = doc["scenario"]
            doc["scenario"] = small
            doc["minimised"] = True
            doc["shrink_runs"] = got.get("tries")
            ok2, res2 = again()
            if ok2:
                res = res2
            else:
                doc["scenario"], doc["minimised"] = full, False
    doc["reproduced"] = ok
    if ok and res.get("violation"):
        doc["detail"] = res["violation"]["detail"]
        doc["hash"] = res.get("hash")
        doc["trace"] = (res.get("log") or [])[-4000:]
    save()
    return path, doc


def evidence(prop, mod, tier, seed, recs, harness, stops, wall, violation, findings):
    hashes = {r.get("hash") for r in recs}
    nontriv = {r.get("hash") for r in recs if r.get("nontrivial")}
    seams, fired, locs, stats = Counter(), Counter(), Counter(), Counter()
    tot = Counter()
    for r in recs:
        seams.update(r.get("seams", {}))
        fired.update(r.get("fired", {}))
        locs.update(r.get("switch_at", {}))
        for k, val in (r.get("stats") or {}).items():
            if isinstance(val, (int, float)):
                stats[k] += val
        for k in ("events", "lines", "steps", "switches", "planned", "reused_ids", "stalls"):
            tot[k] += r.get(k, 0)
    n = len(recs)
    rate = n / wall * 3600 if wall else 0
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(nontriv),
        "rule": mod.RULE,
        "samples": [{"run": r["i"], "hash": r.get("hash"), "events": r.get("events"), "fired": r.get("fired"),
                     "switches": r.get("switches"), "seconds": r.get("t")} for r in recs[:6]],
        "simulated_runs": n,
        "seeds": n,
        "runs_per_hour": round(rate),
        "seeds_per_hour": round(rate),
        "simulated_time": {
            "unit": "logical steps (the package has no clocks or timers): seam calls + package lines traced",
            "seam_and_op_events": tot["events"], "package_lines_traced": tot["lines"],
            "scheduling_points": tot["steps"], "events_per_run": round(tot["events"] / n, 1) if n else 0},
        "faults": {"planned": tot["planned"], "fired": sum(fired.values()), "by_kind": dict(fired.most_common(80))},
        "interleavings": {"measure": "distinct event-log hashes (operations, seam calls, faults, thread switches)",
                          "distinct": len(hashes), "thread_switches": tot["switches"],
                          "switch_locations": dict(locs.most_common(40)), "distinct_switch_locations": len(locs)},
        "seams_hit": dict(seams.most_common()),
        "id_reuses": tot["reused_ids"],
        "operations": dict(stats.most_common()),
        "components_real": REAL,
        "components_stubbed": STUBS,
        "stopped_by": dict(stops),
        "harness_errors": len(harness),
        "known_findings": sorted(findings),
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
               "seeded sampling: absence of a violation is evidence only for the runs listed",
               "thread switches happen at package lines and seam calls, not inside numpy/jax/matplotlib"],
           "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)
    return doc


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from importlib import import_module
    mod = import_module(f"dst.props.{prop.lower()}")
    runs = int(os.environ.get("DST_RUNS", mod.RUNS[tier]))
    nworkers = int(os.environ.get("DST_WORKERS", "8"))
    deadline = float(os.environ.get("DST_DEADLINE", DEADLINE[tier]))
    recs, violation, harness, stops, findings, wall = search(prop, tier, seed, runs, nworkers, deadline)
    doc = evidence(prop, mod, tier, seed, recs, harness, stops, wall, violation, findings)
    for k in findings.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    cov = doc["coverage"]
    print(f"{prop} {tier}: {cov['evaluations']} runs in {wall:.1f} s, {cov['distinct_nontrivial']} distinct "
          f"non-trivial, {cov['faults']['fired']} faults fired, {cov['interleavings']['thread_switches']} thread "
          f"switches, stopped by {cov['stopped_by']}", file=sys.stderr)
    for i, h in harness[:3]:
        print(f"HARNESS run {i}: {h}", file=sys.stderr)
    if violation:
        path, rep = reproduce(prop, tier, seed, violation)
        print(f"{prop} run {violation['index']} seed {seed}: {rep['kind']}: {rep['detail'][:2000]}", file=sys.stderr)
        if not rep["reproduced"]:
            print("note: not reproduced in a fresh process; the replay file has the full history", file=sys.stderr)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not recs or len(harness) > max(2, 0.02 * (len(recs) + len(harness))):
        print(f"{prop}: the machinery failed on {len(harness)} runs", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
