"""
C02: solving has no side effects, however it ends

Actors solve (shared and own) layouts with both methods while solves fail,
are interrupted at arbitrary lines and overlap; layouts, process-wide state
and earlier results are snapshotted around every solve.
"""

import gc
import random
import warnings

import numpy as np

from .. import build, common, gen, model, snap, world
from ..common import Violation, attempt

PROP = "C02"
RUNS = {"quick": 520, "thorough": 4000}
RULE = ("One run = 1-3 actors performing 3-8 solves of 1-3 generated layouts (shared between actors), with failing "
        "numerical calls, user code and memory, interrupts at package lines, in-place edits of results and layouts, "
        "and a seeded schedule. Non-trivial: a fault fired or two actors interleaved. Distinct: event-log hash.")

SOLVE_SEAMS = ("lstsq", "jit.call", "jacfwd.call", "value_and_grad.call", "minimize", "user.assem", "*")


def gen_opts(rng):
    c = rng.random()
    o = {"method": "minimize" if c < .15 else "newton"}
    if rng.random() < .6:
        o["max_iter"] = rng.choice([1, 2, 3, 5, 10, 15])
    if o["method"] == "minimize":
        o["max_iter"] = rng.choice([1, 1, 2, 2, 3, 5])
    if rng.random() < .3:
        o["abs_tol"] = rng.choice([1e-10, 1e-6, 0.0, 1e-2])
    if rng.random() < .3:
        o["rel_tol"] = rng.choice([1e-7, 1e-3, 0.0])
    return o


def user_con(rng, recipe):
    """Sometimes add a user-defined constraint (its code can fail)"""
    G = gen.truth_geo(recipe["prims"])
    inv = gen.inventory(recipe["prims"])
    if inv["point"]:
        s = gen.random_spec(rng, rng.choice(["u:fixx", "u:pair"]), recipe["prims"], inv, G, recipe["info"])
        if s:
            s["key"] = ""
            recipe["cons"].append(s)


def make_recipe(rng):
    r = gen.gen_layout(rng, size=rng.choice(["xs"] * 5 + ["s"] * 3 + ["m"] * (rng.random() < .1)), n_random=rng.randint(0, 3),
                       start="truth" if rng.random() < .2 else None)
    if rng.random() < .5:
        user_con(rng, r)
    if rng.random() < .15:
        gen.nest(rng, r, 1)
    gen.plain_starts(rng, r["prims"])
    return r


def gen_env(rng):
    return {"filters": rng.choice(["default", "ignore", "always", "once", "error:UserWarning"]),
            "np_err": rng.choice([{}, {"divide": "ignore"}, {"over": "warn", "invalid": "ignore"},
                                  {"divide": "warn", "invalid": "warn"}]),
            "rng": rng.randrange(1 << 30),
            "figs": rng.randint(0, 2),
            "rc": rng.choice([{}, {"lines.linewidth": 3.0}, {"font.size": 7.0}]),
            "x64": rng.random() > .2}


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    nrec = rng.choice([1, 1, 2, 2, 3])
    pick = gen.pooled(PROP, seed, index, make_recipe)
    recipes = [pick(rng) for _ in range(nrec)]
    n = rng.choice([1, 1, 1, 2, 2, 3])
    faults, actors = [], []
    for a in range(n):
        ops = []
        for i in range(rng.randint(3, 7) if n == 1 else rng.randint(1, 3)):
            c = rng.random()
            if c < .75 or not ops:
                ops.append({"op": "solve", "r": rng.randrange(nrec), "opts": gen_opts(rng)})
                if i and rng.random() < .15:
                    ops[-1]["resume"] = rng.randrange(9)
                d = rng.random()
                if d < .3:
                    faults.append(gen.seam_fault(rng, i, a, names=SOLVE_SEAMS, max_nth=8, excs=[
                        "MemoryError", "LinAlgError", "RuntimeError", "KeyboardInterrupt", "FloatingPointError"]))
                elif d < .62:
                    faults.append(gen.line_fault(rng, i, a, hi=30000))
                elif d < .68:
                    faults.append({"actor": a, "op": i, "at": "seam", "name": "*", "nth": rng.randrange(8),
                                   "when": "before", "exc": "GC"})
            elif c < .85:
                ops.append({"op": "edit_result", "res": rng.randrange(9)} if rng.random() < .5 else
                           {"op": "solve", "r": rng.randrange(nrec), "resume": rng.randrange(9), "opts": gen_opts(rng)})
            elif c < .93 and n == 1:
                ops.append({"op": "edit_layout", "r": rng.randrange(nrec)})
            else:
                ops.append({"op": "gc"})
        actors.append({"ops": ops})
    scn = {"prop": PROP, "recipes": recipes, "actors": actors, "faults": faults, "env": gen_env(rng),
           "jit": rng.random() < .08 and sum(len(r["cons"]) for r in recipes) < 25}
    if n > 1:
        scn["sched"] = gen.sched_policy(rng, hot=["solver.py", "seam"], horizon=20000,
                                         fns=["solve_newton", "solve_newton", "solve_minimize", "callback", "solve"])
    return scn


def apply_env(env):
    import matplotlib as mpl
    from matplotlib import pyplot as plt
    f = env["filters"]
    if f.startswith("error:"):
        warnings.simplefilter("error", UserWarning)
    else:
        warnings.simplefilter(f)
    np.seterr(**env["np_err"])
    np.random.seed(env["rng"] % (1 << 31))
    random.seed(env["rng"])
    for _ in range(env["figs"]):
        plt.figure()
    if env["rc"]:
        mpl.rcParams.update(env["rc"])
    if not env.get("x64", True):
        import jax
        jax.config.update("jax_enable_x64", False)


def own_arrays(root):
    return [x for x in snap.arrays_of(root) if x.size]


def overlap(xs, ys):
    for x in xs:
        for y in ys:
            if np.may_share_memory(x, y) and np.shares_memory(x, y):
                return True
    return False


def nodes_of(root):
    out = [root]
    for c in root.children.values():
        out += nodes_of(c)
    return out


def check_separate(lay, root, others, where):
    if overlap(own_arrays(root), own_arrays(lay.root_prim)):
        raise Violation("aliasing", f"{where}: the returned primitives share storage with the layout's")
    for j, other in others:
        if overlap(own_arrays(root), own_arrays(other)):
            raise Violation("aliasing", f"{where}: the returned primitives share storage with earlier result {j}")
    mine = {id(n) for n in nodes_of(lay.root_prim)}
    dicts = {id(n.children) for n in nodes_of(lay.root_prim)}
    for n in nodes_of(root):
        if id(n) in mine or id(n.children) in dicts:
            raise Violation("aliasing", f"{where}: the returned tree shares nodes with the layout's")


def info_dump(info):
    return {k: np.array(v, float).tobytes() for k, v in info.items()}


def actor_body(scn, a, holder, world_state):
    ns = build.mods()
    stats = holder["stats"]
    single = len(scn["actors"]) == 1

    def body(sim):
        thread0 = snap.process_state(thread_only=True)
        results = []    # (op, root, dump)
        source = {}
        for i, op in enumerate(scn["actors"][a]["ops"]):
            where = f"actor {a} op {i} {op['op']}"
            lays = world_state["lays"]
            if op["op"] == "solve":
                if op["r"] >= len(lays):
                    continue
                lay, dump = lays[op["r"]], world_state["dumps"][op["r"]]
                if "resume" in op:
                    # continue from an earlier result
                    mine = [root for _, root, _, _ in results if source[id(root)] == op["r"]]
                    if not mine:
                        continue
                    lay = ns.ly.Layout(mine[op["resume"] % len(mine)], lay.root_constraint, lay.root_prim_keys, lay.root_param)
                    dump = snap.layout_dump(lay, identity=True)
                    stats["resumed"] += 1
                p0 = snap.process_state() if single else snap.process_state(thread_only=True)
                o = attempt(sim, i, f"solve {op['opts']}", lambda: ns.sv.solve(lay, **op["opts"]))
                stats["solves"] += 1
                stats["solve " + ("ok" if o.ok else "faulted" if o.fired else "raised")] += 1
                where += f" ({o})"
                d = snap.diff(dump, snap.layout_dump(lay, identity=True))
                if d:
                    raise Violation("layout-changed", f"{where}: the layout changed: {d}")
                p1 = snap.process_state() if single else snap.process_state(thread_only=True)
                for k in snap.state_diff(p0, p1):
                    raise Violation("process-state", f"{where}: {k} changed from {snap._short(p0[k])} "
                                                     f"to {snap._short(p1[k])}")
                if o.ok:
                    root, info = o.value
                    check_separate(lay, root, [(j, x) for j, x, _, _ in results], where)
                    for j, _, _, (other, _) in results:
                        if info is other or any(x is y for x in info.values() for y in other.values()):
                            raise Violation("aliasing", f"{where}: the error history is that of op {j}")
                    results.append((i, root, snap.node_dump(root), (info, info_dump(info))))
                    source[id(root)] = op["r"]
            elif op["op"] == "edit_result" and results:
                j = op["res"] % len(results)
                _, root, _, info = results[j]
                for x in own_arrays(root):
                    if x.flags.writeable:
                        x += x.dtype.type(0.5) or 1
                results[j] = (results[j][0], root, snap.node_dump(root), info)
                stats["edits"] += 1
            elif op["op"] == "edit_layout":
                if op["r"] >= len(lays):
                    continue
                lay = lays[op["r"]]
                keep = [(x, x.copy()) for x in {id(v): v for v in own_arrays(lay.root_prim)}.values()]
                for x, _ in keep:
                    x += x.dtype.type(0.25) or 1
                for j, root, dump, hist in results:
                    d = snap.diff(dump, snap.node_dump(root))
                    if d:
                        raise Violation("aliasing", f"{where}: editing the layout changed result {j}: {d}")
                for x, v in keep:
                    x[...] = v
                stats["edits"] += 1
            elif op["op"] == "gc":
                gc.collect()
            for r, lay in enumerate(lays):
                d = snap.diff(world_state["dumps"][r], snap.layout_dump(lay, identity=True))
                if d:
                    raise Violation("layout-changed", f"{where}: layout {r} changed: {d}")
            for j, root, dump, hist in results:
                d = snap.diff(dump, snap.node_dump(root))
                if d:
                    raise Violation("result-changed", f"{where}: the result of op {j} changed: {d}")
                if info_dump(hist[0]) != hist[1]:
                    raise Violation("result-changed", f"{where}: the error history of op {j} changed")
        t1 = snap.process_state(thread_only=True)
        for k in snap.state_diff(thread0, t1):
            raise Violation("process-state", f"actor {a}: {k} changed from {thread0[k]} to {t1[k]}")
    return body


@common.guarded
def execute(scn, holder):
    world.set_eager(not scn.get("jit"))
    apply_env(scn["env"])
    state = {"lays": [build.build_layout(r) for r in scn["recipes"]]}
    state["dumps"] = [snap.layout_dump(x, identity=True) for x in state["lays"]]
    p0 = snap.process_state()
    n = len(scn["actors"])
    sim = common.run_bodies(scn, [actor_body(scn, a, holder, state) for a in range(n)])
    holder["sims"].append(sim)
    p1 = snap.process_state()
    for k in snap.state_diff(p0, p1):
        raise Violation("process-state", f"after all solves ended: {k} changed from {snap._short(p0[k])} "
                                         f"to {snap._short(p1[k])}")
    for r, lay in enumerate(state["lays"]):
        d = snap.diff(state["dumps"][r], snap.layout_dump(lay, identity=True))
        if d:
            raise Violation("layout-changed", f"after all solves ended: layout {r} changed: {d}")
    nontrivial = bool(sim.fired) or (sim.sched is not None and sim.sched.n_switch > 0)
    return sim.hash.hexdigest(), nontrivial
