"""
C05: solutions keep the layout's structure and can be resumed

Chains of solves, each continuing from the previous solution, with stops after
arbitrary iterations, failures, interrupts and retries; every link is compared
with the layout's structure and the end with one uninterrupted solve.
"""

import json

import numpy as np

from .. import build, common, gen, model, snap, world
from ..common import Violation, attempt

PROP = "C05"
RUNS = {"quick": 440, "thorough": 5000}
RULE = ("One run = 1-2 actors, each a chain of 2-6 solves where every solve continues from the last solution: stopped "
        "after k Newton iterations, failing or interrupted and retried, converged and re-solved, or minimised. "
        "Non-trivial: at least two links. Distinct: event-log hash.")


def share_more(rng, prims):
    """Primitives that share vertices with others, user-defined types, groups"""
    paths = list(build.expand_all(prims, "truth"))
    G = gen.truth_geo(prims)
    for k in range(rng.choice([0, 1, 2, 2, 3])):
        c = rng.random()
        key = f"Shared{k}"
        pool = paths if rng.random() < .5 else paths[-6:]
        if c < .35:
            a, b = rng.choice(pool), rng.choice(paths)
            prims.append({"key": key, "kind": "line", "truth": [{"ref": a}, {"ref": b}]})
        elif c < .55:
            prims.append({"key": key, "kind": "point", "truth": {"ref": rng.choice(pool)}})
        elif c < .8:
            p = [{"ref": rng.choice(paths)}, [round(rng.uniform(0, 4), 3), round(rng.uniform(0, 4), 3)],
                 {"ref": rng.choice(paths)}]
            prims.append({"key": key, "kind": "polygon", "truth": p})
        else:
            q = [{"ref": rng.choice(paths)}] + [[round(rng.uniform(0, 4), 3), round(rng.uniform(0, 4), 3)]
                                               for _ in range(3)]
            prims.append({"key": key, "kind": "quad", "truth": q})
    # exact copies at the same place: stay distinct vertices
    if rng.random() < .5:
        v = G.pt(rng.choice(paths))
        prims.append({"key": "Same", "kind": rng.choice(["point"]), "truth": [float(v[0]), float(v[1])]})
        prims.append({"key": "SameLine", "kind": "line", "truth": [
            [float(v[0]), float(v[1])], [float(v[0]), float(v[1])]]})
    if rng.random() < .3:
        prims.append({"key": "Mark", "kind": "point", "cls": "point", "truth": [1.0, 2.0]})
        prims.append({"key": "Arrow", "kind": "line", "cls": "line",
                      "truth": [{"ref": rng.choice(paths)}, [2.5, 2.0]]})
    if rng.random() < .3:
        prims.append({"key": "Group", "kind": "group", "truth": []})
        prims.append({"key": "Group/In", "kind": "line", "truth": [[.5, .5], {"ref": rng.choice(paths)}]})
        prims.append({"key": "Group/Q", "kind": "quad", "truth": gen.box_pts(0, 0, 1, .5)})


def make_recipe(rng):
    base = gen.gen_layout(rng, size=rng.choice(["xs", "xs", "xs", "s", "s", "m"]), n_random=rng.randint(0, 2),
                          keyed_p=.2, start="truth", touch=rng.choice([0, 0, 1]))
    n0 = len(base["prims"])
    share_more(rng, base["prims"])
    # a few constraints on the shared parts
    more = [p for p in base["prims"] if p["kind"] != "group"]
    G = gen.truth_geo(more)
    inv = gen.inventory([p for p in more[n0:]])
    for _ in range(rng.randint(0, 3)):
        t = rng.choice(["Fix", "XLength", "DirectedLength", "Width", "YDistance", "Midpoint"])
        s = gen.random_spec(rng, "d:constraint" if t == "Midpoint" else t, more, inv, G, None) \
            if inv["line"] and inv["quad"] else None
        if s is not None:
            s["key"] = ""
            base["cons"].append(s)
    scale = rng.choice([.02, .05, .1, .15])
    for p in base["prims"]:
        if p["kind"] == "group":
            continue
        gen.perturb(rng, [p], scale)
    for p in base["prims"]:
        if p["key"] in ("Same", "SameLine"):
            p["pts"] = p["truth"]
        p.pop("truth", None)
    for p in base["prims"]:
        if p["key"] not in ("Same", "SameLine"):
            gen.plain_starts(rng, [p])
    base["info"] = {"fig": base["info"].get("fig")}
    return base


def gen_ops(rng, a, faults):
    ops = []
    n = rng.choice([2, 3, 3, 4, 5])
    for i in range(n):
        c = rng.random()
        if c < .62:
            ops.append({"op": "step", "k": rng.choice([1, 1, 1, 2, 2, 3, 4])})
        elif c < .82:
            ops.append({"op": "solve", "opts": {"max_iter": 20}})
        elif c < .9:
            ops.append({"op": "minimize", "k": rng.choice([1, 2])})
        else:
            ops.append({"op": "twice", "k": rng.choice([1, 2])})
        d = rng.random()
        if d < .2:
            faults.append(gen.seam_fault(rng, i, a, names=("lstsq", "jit.call", "jacfwd.call", "*"), max_nth=6, excs=[
                "MemoryError", "LinAlgError", "RuntimeError", "KeyboardInterrupt"]))
        elif d < .45:
            faults.append(gen.line_fault(rng, i, a, hi=20000))
        elif d < .5:
            faults.append({"actor": a, "op": i, "at": "seam", "name": "*", "nth": rng.randrange(8),
                           "when": "before", "exc": "GC"})
    return ops


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    lane = index % 8
    pick = gen.pooled(PROP + f".{lane}", seed, index, make_recipe, block=320, size=9)
    j = index // 8
    n = rng.choice([1, 1, 1, 1, 2])
    recipes = [pick(rng, j)] + ([pick(rng, j - 1)] if n > 1 else [])
    faults = []
    actors = [{"ops": gen_ops(rng, a, faults), "r": a if rng.random() < .6 else 0} for a in range(n)]
    scn = {"prop": PROP, "recipes": recipes, "actors": actors, "faults": faults,
           "jit": rng.random() < .05 and sum(len(r["cons"]) for r in recipes) < 20}
    if n > 1:
        scn["sched"] = gen.sched_policy(rng, hot=["solver.py", "primitives.py", "containers.py"], horizon=20000,
                                        fns=["solve_newton", "build_prim_from_unique_values",
                                             "filter_unique_values_from_prim", "unflatten", "flatten"])
    return scn


def structure(root):
    """Keys in order, types and shapes"""
    return (type(root).__module__, type(root).__qualname__, np.asarray(root.value).shape,
            tuple((k, structure(c)) for k, c in root.children.items()))


def sharing(root):
    groups = {}

    def visit(node, path):
        if isinstance(node.value, np.ndarray) and node.value.size:
            groups.setdefault(id(node.value), []).append(path)
        for k, c in node.children.items():
            visit(c, f"{path}/{k}")
    visit(root, "")
    return sorted(tuple(g) for g in groups.values())


def check_structure(ref, root, where):
    d = snap.diff(ref["structure"], structure(root))
    if d:
        raise Violation("structure", f"{where}: the solution's tree differs from the layout's: {d}")
    sh = sharing(root)
    if sh != ref["sharing"]:
        lost = [g for g in ref["sharing"] if g not in sh][:2]
        new = [g for g in sh if g not in ref["sharing"]][:2]
        raise Violation("sharing", f"{where}: vertices shared in the layout {lost} became {new}")
    G = model.from_tree(root)
    for p, v in G.c.items():
        if not np.issubdtype(np.asarray(v).dtype, np.floating):
            raise Violation("structure", f"{where}: {p} has dtype {v.dtype}")


def well_posed(lay, recipe):
    ref = model.Reference([p for p in recipe["prims"] if p["kind"] != "group"], recipe["cons"])
    pts = model.from_tree(lay.root_prim).c
    x = ref.x0.reshape(-1, 2).copy()
    for p, k in ref.var.items():
        x[k] = pts[p]
    ref.x0 = x.ravel()
    r = ref.res(ref.x0)
    if not np.all(np.isfinite(r)):
        return False
    ref_s = ref.specs
    return ref.solve(3) is not None


def body_of(scn, a, holder):
    ns = build.mods()
    stats = holder["stats"]
    spec = scn["actors"][a]
    recipe = scn["recipes"][min(spec["r"], len(scn["recipes"]) - 1)]

    def call(sim, i, lay, opts, where):
        for tr in range(4):
            before = snap.layout_dump(lay)
            o = attempt(sim, i if tr == 0 else 1000 + 10 * i + tr, f"solve {opts}", lambda: ns.sv.solve(lay, **opts))
            d = snap.diff(before, snap.layout_dump(lay))
            if d:
                raise Violation("layout-changed", f"{where} ({o}) changed the layout: {d}")
            if o.ok or not o.fired:
                break
            stats["failed solves"] += 1
        if not o.ok:
            raise Violation("solve-raised", f"{where}: {o}")
        return o.value

    def body(sim):
        first = build.build_layout(recipe)
        ref = {"structure": structure(first.root_prim), "sharing": sharing(first.root_prim)}
        lay = first
        done = 0            # Newton iterations since `first`, None if unknown
        hist = []
        links = 0
        for i, op in enumerate(spec["ops"]):
            where = f"actor {a} op {i} {op['op']}"
            if op["op"] in ("step", "twice"):
                for t in range(1 if op["op"] == "step" else 2):
                    root, info = call(sim, i if t == 0 else 500 + i, lay,
                                      {"max_iter": op["k"], "abs_tol": 0.0, "rel_tol": 0.0}, where)
                    if t == 0 and op["op"] == "twice":
                        keep = common.np_coords(root)
                with world.paused():
                    if op["op"] == "twice":
                        d = common.coords_close(keep, common.np_coords(root), 1e-9)
                        if d:
                            raise Violation("not-repeatable", f"{where}: the same solve twice: {d}")
                if done is not None:
                    done += op["k"]
                    hist += [float(x) for x in info["abs_errs"]]
                    if len(info["abs_errs"]) < op["k"]:
                        done = None
            elif op["op"] == "solve":
                root, info = call(sim, i, lay, op["opts"], where)
                done = None
            elif op["op"] == "minimize":
                root, info = call(sim, i, lay, {"max_iter": op["k"], "method": "minimize"}, where)
                done = None
            else:
                continue
            links += 1
            stats["links"] += 1
            with world.paused():
                check_structure(ref, root, where)
                d = snap.diff(ref["structure"], structure(lay.root_prim))
                if d:
                    raise Violation("structure", f"{where}: the layout's own tree changed: {d}")
                nxt = ns.ly.Layout(root, lay.root_constraint, lay.root_prim_keys, lay.root_param)
                # a converged solution is a fixed point
                if op["op"] == "solve" and info["abs_errs"] and info["abs_errs"][-1] < 1e-9:
                    again, info2 = ns.sv.solve(nxt, max_iter=3)
                    check_structure(ref, again, where + " (re-solved)")
                    d = common.coords_close(common.np_coords(root), common.np_coords(again), 1e-6)
                    if d and well_posed(nxt, recipe):
                        raise Violation("not-fixed", f"{where}: re-solving a converged solution moved it: {d}")
                    stats["fixed points"] += 1
            lay = nxt
            if done and (i + 1 == len(spec["ops"]) or spec["ops"][i + 1]["op"] not in ("step", "twice")) \
                    and links > 1:
                with world.paused():
                    root1, info1 = ns.sv.solve(first, max_iter=done, abs_tol=0.0, rel_tol=0.0)
                    e1 = [float(x) for x in info1["abs_errs"]]
                    tame = np.all(np.isfinite(e1)) and (max(e1) <= 10 * (e1[0] + 1e-9))
                    if tame and len(e1) == done:
                        d = common.coords_close(common.np_coords(root1), common.np_coords(root), 1e-6)
                        if d:
                            raise Violation("resume", f"{where}: {done} iterations with stops differ from one "
                                            f"uninterrupted solve: {d}")
                        if len(hist) == len(e1) and not np.allclose(hist, e1, rtol=1e-5, atol=1e-8):
                            raise Violation("resume", f"{where}: errors with stops {hist}, without {e1}")
                        stats["resume compared"] += 1
                    else:
                        stats["resume skipped"] += 1
        holder["links"] = max(holder.get("links", 0), links)
    return body


@common.guarded
def execute(scn, holder):
    world.set_eager(not scn.get("jit"))
    sim = common.run_bodies(scn, [body_of(scn, a, holder) for a in range(len(scn["actors"]))])
    holder["sims"].append(sim)
    return sim.hash.hexdigest(), holder.get("links", 0) > 1
