"""
Execution helpers shared by the property executors
"""

import gc
import hashlib
import os
import traceback
import warnings
from collections import Counter

import numpy as np

from . import build, model, sched, snap, world


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


def frames_in(exc, prefix):
    """Function names of the traceback inside files under `prefix`"""
    out = []
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(prefix):
            out.append((os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


class Outcome:
    """Result of one operation: a value or an exception"""
    __slots__ = ("ok", "value", "exc", "fired")

    def __init__(self, ok, value, exc, fired):
        self.ok, self.value, self.exc, self.fired = ok, value, exc, fired

    @property
    def injected(self):
        return (not self.ok) and world.is_injected(self.exc)

    def __str__(self):
        return "ok" if self.ok else f"{type(self.exc).__name__}: {str(self.exc)[:160]}"

    def short(self):
        return "ok" if self.ok else type(self.exc).__name__


def attempt(sim, i, label, fn):
    """Run one operation of the calling actor under fault injection"""
    sim.begin_op(i, label)
    try:
        value = fn()
        ok, exc = True, None
    except (world.HarnessError, world.Stall, Violation):
        raise
    except world.NoProgress as e:
        raise Violation("no-progress", f"operation {i} {label}: more than {world.MAX_SEAMS_PER_OP} external calls")
    except BaseException as e:
        ok, value, exc = False, None, e
    fired = sim.end_op("ok" if ok else type(exc).__name__)
    out = Outcome(ok, value, exc, fired)
    return out


def raising(fired):
    """Fired faults that raise (not GC points)"""
    return [f for f in fired if f["exc"] != "GC"]


_clean = {}


def reset_process():
    """Bring process-wide state back to the state at start-up"""
    import matplotlib as mpl
    from matplotlib import pyplot as plt
    import random
    if not _clean:
        _clean["filters"] = list(warnings.filters)
        _clean["showwarning"] = warnings.showwarning
        _clean["rc"] = dict(dict.items(mpl.rcParams))
        _clean["err"] = np.geterr()
        _clean["environ"] = dict(os.environ)
        _clean["cwd"] = os.getcwd()
        _clean["print"] = np.get_printoptions()
    plt.close("all")
    if list(warnings.filters) != _clean["filters"]:
        warnings.filters[:] = _clean["filters"]
        warnings._filters_mutated()
    warnings.showwarning = _clean["showwarning"]
    np.seterr(**_clean["err"])
    np.random.seed(12345)
    random.seed(12345)
    cur = dict(dict.items(mpl.rcParams))
    if cur != _clean["rc"]:
        dict.update(mpl.rcParams, _clean["rc"])
    if os.getcwd() != _clean["cwd"]:
        os.chdir(_clean["cwd"])
    import jax
    if not jax.config.jax_enable_x64:
        jax.config.update("jax_enable_x64", True)


def run_bodies(scn, bodies, trace=False):
    """
    Execute actor bodies under a Sim; returns the Sim.

    With one body no scheduler is involved. A Violation raised by an actor
    propagates.
    """
    sched_obj = None
    if len(bodies) > 1:
        sched_obj = sched.Scheduler(scn.get("sched") or {"kind": "pct", "seed": 0, "d": 0, "n": 1})
    sim = world.Sim(scn.get("faults", ()), sched_obj)
    if trace:
        sim.trace_lines = True
    sim.keep_log = bool(scn.get("_keep_log"))
    with world.running(sim):
        if sched_obj is None:
            bodies[0](sim)
        else:
            try:
                sched_obj.run([lambda b=b: b(sim) for b in bodies])
            finally:
                scn["_script"] = sched_obj.script_policy()
    return sim


def result(scn, sim=None, violation=None, stats=None, sig=None, nontrivial=True, sims=()):
    """The JSON record of one run"""
    sims = list(sims) or ([sim] if sim is not None else [])
    h = hashlib.blake2b(digest_size=10)
    seams, fired = Counter(), Counter()
    events = lines = steps = switches = stalls = planned = reused = 0
    locs = Counter()
    for s in sims:
        h.update(s.hash.digest())
        seams.update(s.seams)
        fired.update(s.fired)
        events += s.n_events
        lines += s.n_lines
        planned += s.planned
        reused += s.heap.reused
        if s.sched is not None:
            steps += s.sched.step
            switches += s.sched.n_switch
            stalls += s.sched.stalls
            for w in s.sched.where:
                locs["/".join(w)] += 1
    out = {
        "hash": h.hexdigest(), "events": events, "lines": lines, "steps": steps,
        "switches": switches, "stalls": stalls, "planned": planned,
        "seams": dict(seams), "fired": dict(fired), "reused_ids": reused,
        "switch_at": dict(locs.most_common(40)),
        "stats": stats or {}, "sig": sig, "nontrivial": bool(nontrivial),
        "violation": None,
    }
    if violation is not None:
        out["violation"] = {"kind": violation.kind, "detail": str(violation.detail)[:3000]}
    if scn.get("_keep_log"):
        out["log"] = [x for s in sims for x in s.log]
    return out


def guarded(execute):
    """Decorator: turn a Violation into a result, reset the process around the run"""
    def run(scn):
        reset_process()
        gc.disable()
        holder = {"sims": [], "stats": Counter()}
        try:
            try:
                sig, nontrivial = execute(scn, holder)
                v = None
            except Violation as e:
                v, sig, nontrivial = e, "violation", True
            return result(scn, violation=v, stats=dict(holder["stats"]), sig=sig,
                          nontrivial=nontrivial, sims=holder["sims"])
        finally:
            reset_process()
    return run


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def direct_residuals(layout, entries):
    """
    Residual values of accepted constraints evaluated one at a time through
    the public call, on the layout's own primitives. `entries` is a list of
    (constraint object, prim keys, params).
    """
    out = []
    for c, prims, params in entries:
        res = c(tuple(layout.root_prim[k] for k in prims), *params)
        out.append(np.asarray(res, dtype=float).ravel())
    return np.concatenate(out) if out else np.zeros(0)


def flat_residuals(layout):
    ns = build.mods()
    cons, keys, params = layout.flat_constraints()
    if not (len(cons) == len(keys) == len(params)):
        raise Violation("misaligned", f"flat_constraints lengths {len(cons)}, {len(keys)}, {len(params)}")
    if hasattr(ns.sv, "assem_constraint_residual"):
        res = ns.sv.assem_constraint_residual(layout.root_prim, cons, keys, params)
    else:
        res = [c(tuple(layout.root_prim[k] for k in ks), *ps) for c, ks, ps in zip(cons, keys, params)]
    return np.concatenate([np.asarray(x, dtype=float).ravel() for x in res]) if res else np.zeros(0)


def same_multiset(a, b, tol=1e-9):
    a = np.sort(np.abs(np.asarray(a, float)))
    b = np.sort(np.abs(np.asarray(b, float)))
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def converged(info, abs_tol=1e-10, rel_tol=1e-7):
    if not info["abs_errs"]:
        return False
    return info["abs_errs"][-1] <= abs_tol or info["rel_errs"][-1] <= rel_tol


def np_coords(root):
    """Deterministic coordinate list of a solution"""
    G = model.from_tree(root)
    return {k: [float(x) for x in v] for k, v in G.c.items()}


def coords_close(a, b, tol=1e-7):
    if set(a) != set(b):
        return f"points differ: {sorted(set(a) ^ set(b))[:4]}"
    for k in a:
        d = max(abs(x - y) for x, y in zip(a[k], b[k]))
        if not d <= tol:
            return f"{k}: {[float(x) for x in a[k]]} vs {[float(x) for x in b[k]]}"
    return None
