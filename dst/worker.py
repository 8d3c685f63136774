"""
Worker process: executes scenarios of one property

    worker.py run PROP SEED TIER START STEP COUNT DEADLINE_S
    worker.py exec FILE              one scenario (with its process history)
    worker.py shrink FILE BUDGET_S   minimise a failing scenario

Results are JSON lines on the original stdout; everything the code under test
prints goes to stderr.
"""

import copy
import importlib
import json
import os
import resource
import sys
import time
import traceback

MAX_RSS_KB = 3_000_000


def emit(obj):
    OUT.write(json.dumps(obj, default=str) + "\n")
    OUT.flush()


def setup():
    global OUT
    OUT = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    import logging
    logging.disable(logging.WARNING)
    import warnings
    warnings.simplefilter("ignore")
    from . import build
    build.mods()


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def rss_kb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * (resource.getpagesize() // 1024)


def in_package(exc):
    from .world import PKG
    tb = exc.__traceback__
    last = None
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG):
            last = tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return last


def execute(mod, scn):
    """One run; unexpected exceptions out of the package are violations too"""
    from .world import HarnessError, is_injected
    scn = copy.deepcopy(scn)
    try:
        res = mod.execute(scn)
    except HarnessError as e:
        res = {"harness": f"{e!r}\n{traceback.format_exc()[-2000:]}"}
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not is_injected(e):
            raise
        where = in_package(e)
        tb = traceback.format_exc()[-2500:]
        if where and not is_injected(e):
            res = {"violation": {"kind": "unexpected-exception",
                                 "detail": f"{type(e).__name__}: {e} (in {where})\n{tb}"}}
        else:
            res = {"harness": tb}
    res["_scn"] = scn
    return res


def run(prop, seed, tier, start, step, count, deadline):
    setup()
    mod = load(prop)
    t0 = time.monotonic()
    i = start
    done = 0
    while i < count:
        if time.monotonic() - t0 > deadline:
            emit({"stop": "deadline", "next": i})
            return
        if rss_kb() > MAX_RSS_KB:
            emit({"stop": "memory", "next": i})
            return
        emit({"start": i})
        t = time.monotonic()
        scn = json.loads(json.dumps(mod.generate(seed, i, tier)))
        res = execute(mod, scn)
        res.pop("_scn")
        res["i"] = i
        res["t"] = round(time.monotonic() - t, 4)
        emit(res)
        done += 1
        if res.get("violation"):
            return
        i += step
    emit({"stop": "done", "next": i})


def exec_file(path):
    """Replay: the process history (if any), then the scenario"""
    setup()
    doc = json.load(open(path))
    mod = load(doc["property"])
    for h in doc.get("history", ()):
        if isinstance(h, int):
            h = json.loads(json.dumps(mod.generate(doc["seed"], h, doc["tier"])))
        r = execute(mod, h)
        if r.get("violation"):
            break
    scn = dict(doc["scenario"])
    scn["_keep_log"] = True
    res = execute(mod, scn)
    after = res.pop("_scn")
    if after.get("_script"):
        res["script"] = after["_script"]
    emit(res)


# ------------------------------------------------------------------ minimise

class Shrinker:
    def __init__(self, mod, scn, kind, budget):
        self.mod, self.kind = mod, kind
        self.scn = scn
        self.end = time.monotonic() + budget
        self.tries = 0

    def fails(self, cand):
        if time.monotonic() > self.end:
            return False
        self.tries += 1
        try:
            res = execute(self.mod, cand)
        except BaseException:
            return False
        v = res.get("violation")
        return bool(v) and v["kind"] == self.kind

    def keep(self, cand):
        if cand != self.scn and self.fails(cand):
            self.scn = cand
            return True
        return False

    def ddlist(self, get, put, blank=None):
        """Remove (or blank out) entries of a list, big chunks first"""
        n = len(get(self.scn) or [])
        chunk = max(1, n // 2)
        while n and chunk >= 1 and time.monotonic() < self.end:
            i = 0
            while i < len(get(self.scn)):
                cur = get(self.scn)
                if blank is None:
                    new = cur[:i] + cur[i + chunk:]
                else:
                    new = cur[:i] + [dict(blank) for _ in cur[i:i + chunk]] + cur[i + chunk:]
                cand = copy.deepcopy(self.scn)
                put(cand, copy.deepcopy(new))
                ok = new != cur and self.keep(cand)
                if not ok or blank is not None:
                    i += chunk
                if time.monotonic() > self.end:
                    return
            if chunk == 1:
                break
            chunk = max(1, chunk // 2)

    def run(self):
        scn = self.scn
        # schedule: as a script of explicit switches
        if scn.get("sched") and scn["sched"].get("kind") != "script":
            probe = copy.deepcopy(scn)
            res = execute(self.mod, probe)
            script = res["_scn"].get("_script")
            if script:
                self.keep({**copy.deepcopy(scn), "sched": script})
        for _ in range(3):
            before = json.dumps(self.scn, sort_keys=True, default=str)
            if self.scn.get("sched", {}).get("kind") == "script":
                self.ddlist(lambda s: s["sched"]["switches"],
                            lambda s, v: s["sched"].__setitem__("switches", v))
            if self.scn.get("faults"):
                self.ddlist(lambda s: s["faults"], lambda s, v: s.__setitem__("faults", v))
            for a in range(len(self.scn.get("actors", ()))):
                self.ddlist(lambda s: s["actors"][a]["ops"],
                            lambda s, v: s["actors"][a].__setitem__("ops", v), blank={"op": "nop"})
            for k in range(len(self.scn.get("recipes", ()))):
                self.ddlist(lambda s: s["recipes"][k]["cons"],
                            lambda s, v: s["recipes"][k].__setitem__("cons", v))
                self.ddlist(lambda s: s["recipes"][k]["prims"],
                            lambda s, v: s["recipes"][k].__setitem__("prims", v))
            if json.dumps(self.scn, sort_keys=True, default=str) == before or time.monotonic() > self.end:
                break
        return self.scn


def shrink(path, budget):
    setup()
    doc = json.load(open(path))
    mod = load(doc["property"])
    s = Shrinker(mod, doc["scenario"], doc["kind"], budget)
    if not s.fails(copy.deepcopy(s.scn)):
        emit({"shrunk": None})
        return
    scn = s.run()
    scn = {k: v for k, v in scn.items() if not k.startswith("_")}
    emit({"shrunk": scn, "tries": s.tries})


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "run":
        prop, seed, tier, start, step, count, deadline = sys.argv[2:9]
        run(prop, int(seed), tier, int(start), int(step), int(count), float(deadline))
    elif cmd == "exec":
        exec_file(sys.argv[2])
    elif cmd == "shrink":
        shrink(sys.argv[2], float(sys.argv[3]))
    # worker threads of abandoned runs must not keep the process alive
    OUT.flush()
    os._exit(0)
