"""
C03: a solve's answer depends only on the layout and options

Every solve of a seeded history (other builds, solves, failures, collected
layouts with reused addresses, concurrent solves) is compared with the answer
of a fresh process that builds the same layout and solves it once.
"""

import gc

import numpy as np

from .. import build, common, gen, model, snap, world
from ..baseline import BASE, summary
from ..common import Violation, attempt

PROP = "C03"
RUNS = {"quick": 400, "thorough": 6000}
RULE = ("One run = 1-3 actors performing 4-10 operations (build, extend, edit, drop, collect, solve) on layouts from a "
        "pool with same-structure siblings, with failing numerical/user code, interrupts at lines, simulated address "
        "reuse and a seeded schedule; every undisturbed solve is compared with a fresh process. Non-trivial: at "
        "least two compared solves after other activity. Distinct: event-log hash.")

OPTS = [{}, {}, {}, {"max_iter": 2}, {"max_iter": 4, "abs_tol": 1e-3}, {"method": "minimize", "max_iter": 2}]


def make_family(rng):
    """A recipe and siblings with the same structure"""
    base = gen.gen_layout(rng, size=rng.choice(["xs", "xs", "s"]), n_random=rng.randint(0, 4), keyed_p=.15)
    if rng.random() < .4:
        from .c02 import user_con
        user_con(rng, base)
    if rng.random() < .15:
        gen.integral(rng, base["prims"], .5)
    if rng.random() < .2:
        gen.nest(rng, base, rng.choice([1, 2]))
    out = [base]
    for _ in range(4):
        sib = gen.retruth(rng, base)
        if sib is not None and sib["cons"] != base["cons"]:
            gen.perturb(rng, sib["prims"], .1)
            sib["how"] = "params"
            out.append(sib)
            break
    moved = json_copy(base)
    gen.perturb(rng, moved["prims"], .12)
    moved["how"] = "start"
    out.append(moved)
    return out


def json_copy(x):
    import json
    return json.loads(json.dumps(x))


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    lane = index % 8
    pick = gen.pooled(PROP + f".{lane}", seed, index, make_family, block=320, size=3)
    recipes = []
    for j in rng.sample(range(3), rng.choice([1, 2, 2])):
        recipes += pick(rng, j)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    shared = [rng.randrange(len(recipes)) for _ in range(2)] if n > 1 else []
    lane_rng = gen.rng_for(PROP, seed, f"opts{lane}.{index // 320}")
    oi = [0, lane_rng.randrange(3, 5), 5] if lane_rng.random() < .4 else [0, lane_rng.randrange(3, 5)]
    faults, actors = [], []
    for a in range(n):
        ops = []
        slots = 0
        for i in range(rng.randint(5, 10) if n == 1 else rng.randint(2, 5)):
            c = rng.random()
            if (c < .3 or slots == 0) and not (n > 1 and c < .1):
                k = rng.randrange(len(recipes))
                op = {"op": "new", "r": k}
                if rng.random() < .35:
                    op["cut"] = rng.randrange(1, 30)
                    op["solve_cut"] = rng.random() < .7
                ops.append(op)
                slots += 1
            elif c < .74:
                op = {"op": "solve", "opts": rng.choice(oi)}
                if n > 1 and rng.random() < .5:
                    op["shared"] = rng.randrange(2)
                else:
                    op["slot"] = rng.randrange(max(1, slots))
                d = rng.random()
                if d < .22:
                    faults.append(gen.seam_fault(rng, len(ops), a, names=("lstsq", "jit.call", "jacfwd.call", "user.assem",
                                                                   "value_and_grad.call", "minimize", "*"),
                                                 max_nth=8, excs=["MemoryError", "LinAlgError", "RuntimeError",
                                                                  "FloatingPointError", "KeyboardInterrupt",
                                                                  "ValueError", "TypeError", "KeyError"]))
                elif d < .36:
                    faults.append(gen.line_fault(rng, len(ops), a, hi=20000))
                elif d < .42:
                    faults.append({"actor": a, "op": len(ops), "at": "seam", "name": "*", "nth": rng.randrange(8),
                                   "when": "before", "exc": "GC"})
                ops.append(op)
            elif c < .8:
                ops.append({"op": "drop", "slot": rng.randrange(max(1, slots)), "gc": rng.random() < .5})
            elif c < .9:
                k = rng.randrange(max(1, slots))
                if rng.random() < .6:
                    ops.append({"op": "solve", "opts": rng.choice(oi), "slot": k})
                ops.append({"op": "edit", "slot": k, "how": rng.choice(["start", "params"])})
                if rng.random() < .8:
                    ops.append({"op": "solve", "opts": rng.choice(oi), "slot": k})
            elif c < .95:
                ops.append({"op": "bad_add", "slot": rng.randrange(max(1, slots))})
            else:
                ops.append({"op": "gc"})
        actors.append({"ops": ops})
    scn = {"prop": PROP, "recipes": recipes, "actors": actors, "faults": faults, "shared": shared,
           "share_objs": rng.random() < .35, "jit": rng.random() < .05}
    if n > 1:
        scn["sched"] = gen.sched_policy(
            rng, hot=["solver.py", "seam", "primitives.py", "containers.py"], horizon=15000,
            fns=["solve_newton", "solve_minimize", "assem_constraint_residual", "filter_unique_values_from_prim",
                 "build_prim_from_unique_values", "flat_constraints", "assem", "__call__", "child_prim_keys"])
    return scn


def shape_of(spec):
    """What a constraint is, apart from its parameters"""
    return (spec["type"], spec.get("kw", {}), spec["prims"], spec.get("key", ""))


def compare(got, want, where):
    if "exc" in want or "exc" in got:
        if got.get("exc") != want.get("exc"):
            raise Violation("history-dependent", f"{where}: {got.get('exc', 'returned')} {got.get('msg', '')} here, "
                                                 f"{want.get('exc', 'returned')} in a fresh process")
        return
    if list(got["coords"]) != list(want["coords"]):
        raise Violation("history-dependent", f"{where}: points {list(got['coords'])[:6]} vs "
                                             f"{list(want['coords'])[:6]} in a fresh process")
    for k, v in want["coords"].items():
        g = got["coords"][k]
        if not np.allclose(g, v, rtol=1e-6, atol=1e-6, equal_nan=True):
            raise Violation("history-dependent", f"{where}: {k} = {g}, {v} in a fresh process")
    for name in ("abs", "rel"):
        g, v = got[name], want[name]
        if len(g) != len(v) or not np.allclose(g, v, rtol=1e-4, atol=1e-7, equal_nan=True):
            raise Violation("history-dependent", f"{where}: {name}_errs {g}, {v} in a fresh process")


class Slot:
    def __init__(self, lay, recipe):
        self.lay, self.recipe = lay, recipe


def actor_body(scn, a, holder, shared):
    ns = build.mods()
    stats = holder["stats"]
    eager = not scn.get("jit")

    def body(sim):
        pool = holder["pool"]
        slots = []
        for i, op in enumerate(scn["actors"][a]["ops"]):
            where = f"actor {a} op {i} {op['op']}"
            kind = op["op"]
            if kind == "new":
                if op["r"] >= len(scn["recipes"]):
                    continue
                rec = scn["recipes"][op["r"]]
                lay = ns.ly.Layout()
                for k, p in build.build_prims(rec["prims"]).items():
                    lay.add_prim(p, k)
                cut = op.get("cut", 0) % (len(rec["cons"]) + 1) if op.get("cut") else 0
                for j, s in enumerate(rec["cons"]):
                    if j == cut and j and op.get("solve_cut"):
                        try:
                            ns.sv.solve(lay, max_iter=1)
                        except (ValueError, np.linalg.LinAlgError):
                            pass
                    prims, params = build.cons_args(s)
                    lay.add_constraint(pool.get(s), prims, params, key=s.get("key", ""))
                slots.append(Slot(lay, rec))
            elif kind == "solve":
                if "shared" in op:
                    if op["shared"] >= len(shared):
                        continue
                    slot = shared[op["shared"]]
                else:
                    live = [s for s in slots if s is not None]
                    if not live:
                        continue
                    slot = live[op["slot"] % len(live)]
                opts = OPTS[op["opts"]]
                rec = slot.recipe
                o = attempt(sim, i, f"solve {opts}", lambda: ns.sv.solve(slot.lay, **opts))
                fired = common.raising(o.fired)
                stats["solves"] += 1
                stats["solve faulted" if fired else "solve clean"] += 1
                if fired and not o.ok and world.is_injected(o.exc):
                    continue
                # not disturbed, or the disturbance was swallowed: the answer must be right
                want = BASE.get(rec, opts, eager)
                got = summary(*o.value, common) if o.ok else {"exc": type(o.exc).__name__, "msg": str(o.exc)[:200]}
                if fired and not o.ok:
                    continue        # surfaced as another exception
                compare(got, want, where + f" opts {opts}" + (f" despite {fired}" if fired else ""))
                stats["compared"] += 1
            elif kind == "drop":
                live = [k for k, s in enumerate(slots) if s is not None]
                if live:
                    slots[live[op["slot"] % len(live)]] = None
                slot = None
                if op.get("gc"):
                    gc.collect()
            elif kind == "edit":
                # move the primitives of a layout in place
                live = [s for s in slots if s is not None]
                if not live:
                    continue
                slot = live[op["slot"] % len(live)]
                how = op.get("how", "start")
                sib = next((r for r in scn["recipes"] if r is not slot.recipe
                            and (r["cons"] == slot.recipe["cons"]) == (how == "start")
                            and [shape_of(c) for c in r["cons"]] == [shape_of(c) for c in slot.recipe["cons"]]
                            and [p["key"] for p in r["prims"]] == [p["key"] for p in slot.recipe["prims"]]), None)
                if sib is None or len(slot.lay.root_constraint) != len(sib["cons"]) \
                        or any("num" in p for p in sib["prims"]):
                    continue
                if how == "params":
                    for k, s in zip(slot.lay.root_constraint.keys(), sib["cons"]):
                        slot.lay.root_param[k] = slot.lay.root_constraint[k].root_params(build.cons_args(s)[1])
                    stats["parameter edits"] += 1
                for path, xy in build.expand_all(sib["prims"]).items():
                    slot.lay.root_prim[path].value[...] = xy
                slot.recipe = sib
                stats["edits"] += 1
            elif kind == "bad_add":
                live = [s for s in slots if s is not None]
                if not live:
                    continue
                slot = live[op["slot"] % len(live)]
                try:
                    slot.lay.add_constraint(ns.cr.Box(), ("no such primitive",), ())
                except Exception:
                    pass
            elif kind == "gc":
                gc.collect()
    return body


@common.guarded
def execute(scn, holder):
    world.set_eager(not scn.get("jit"))
    holder["pool"] = build.ObjPool(scn.get("share_objs", False))
    shared = [Slot(build.build_layout(scn["recipes"][k], pool=holder["pool"]), scn["recipes"][k])
              for k in scn.get("shared", ()) if k < len(scn["recipes"])]
    n = len(scn["actors"])
    sim = common.run_bodies(scn, [actor_body(scn, a, holder, shared) for a in range(n)])
    holder["sims"].append(sim)
    return sim.hash.hexdigest(), holder["stats"]["compared"] >= 2
