"""
C04: a converged solve satisfies every accepted constraint

Sessions build layouts (with rejected and aborted additions in between),
solve, fail, retry, change parameters and continue from earlier solutions; the
returned coordinates are judged by the independent reference residuals.
"""

import json
import random

import numpy as np

from .. import build, common, gen, model, snap, world
from ..common import Violation, attempt

PROP = "C04"
RUNS = {"quick": 380, "thorough": 4000}
RULE = ("One run = a session: build a generated layout (with rejected/aborted additions interleaved), then 2-6 of "
        "solve / failing solve and retry / parameter change / continue from a solution. Every returned arrangement "
        "is checked against independent reference residuals. Non-trivial: at least one converged solve was checked "
        "after a fault, rejection, parameter change or earlier solve. Distinct: event-log hash.")

AXIS_TYPES = ("PositionAxis", "PositionXAxis", "PositionYAxis", "PositionAxisLabel", "PositionXAxisLabel",
              "PositionYAxisLabel", "XAxisThickness", "YAxisThickness", "AxisThickness")
TOUCH_TYPES = ("Coincident", "CoincidentLines", "Collinear", "CoincidentOutwardFaces", "AlignColumn", "AlignRow",
               "Align", "RectilinearGrid", "Grid")
PAIR_TYPES = ("OuterMargin", "InnerMargin", "OuterMarginArray", "d:map", "d:lincomb", "d:constraint")


def make_recipe(rng, focus):
    ax = any(t in AXIS_TYPES for t in focus)
    tc = any(t in TOUCH_TYPES for t in focus)
    pr = any(t in PAIR_TYPES for t in focus)
    c = rng.random()
    size = "m" if c < .22 else "s" if (ax or pr or c < .5) else "xs"
    if "Grid" in focus or "RectilinearGrid" in focus:
        size = "m"
    rec = gen.gen_layout(
        rng, size=size, n_random=rng.randint(0, 2), touch=rng.choice([1, 2]) if (tc or pr) else 0,
        focus=list(focus) * 2, axis_p=rng.choice([.5, .8]) if ax else None, keyed_p=.3,
        core_p=.5, perturb_scale=rng.choice([.01, .03, .05, .1]),
        start=rng.choice(["perturb"] * 9 + ["truth"]))
    if rng.random() < .15:
        gen.integral(rng, [p for p in rec["prims"] if p["kind"] in ("point", "line")], .6)
    if rng.random() < .2:
        gen.nest(rng, rec, rng.choice([1, 2, 3]))
    return rec


def make_family(seed, block, lane, j):
    """A recipe and a sibling with other parameters"""
    order = list(gen.CATALOG)
    gen.rng_for(PROP, seed, f"order{block}").shuffle(order)
    k = (lane * 12 + j) * 4
    focus = [order[(k + d) % len(order)] for d in range(4)]
    rng = gen.rng_for(PROP, seed, f"recipe{block}.{lane}.{j}")
    base = make_recipe(rng, focus)
    sibs = []
    for _ in range(3):
        sib = gen.retruth(rng, base)
        if sib is not None and sib["cons"] != base["cons"]:
            gen.perturb(rng, sib["prims"], .03)
            sibs.append(sib)
            break
    return [base] + sibs


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    lane, block = index % 8, index // 320
    fam = make_family(seed, block, lane, (index // 8) % 12)
    base = fam[0]
    n_cons = len(base["cons"])
    ops, faults = [], []
    bads = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        bads.append({"at": rng.randrange(n_cons + 1), "why": rng.choice(
            ["prim", "count", "params", "dup", "abort", "abort"]), "like": rng.randrange(n_cons)})
    ops.append({"op": "build", "bads": bads})
    big = n_cons > 45
    for i in range(1, rng.randint(2, 4) if big else rng.randint(3, 6)):
        c = rng.random()
        if c < .6 or i == 1:
            o = {"max_iter": rng.choice([15, 15, 20, 30])}
            d = rng.random()
            if d < .15:
                o["max_iter"] = rng.choice([1, 2, 3])
            elif d < .25:
                o["abs_tol"] = rng.choice([1e-4, 1e-8])
            elif d < .35:
                o["rel_tol"] = rng.choice([1e-3, 0.0])
            elif d < .45:
                o = {}
            elif d < .48:
                o["max_iter"] = 0
            ops.append({"op": "solve", "opts": o})
            if rng.random() < .3:
                faults.append(gen.seam_fault(rng, len(ops) - 1, 0, names=("lstsq", "jit.call", "jacfwd.call", "user.assem", "*"),
                                             max_nth=6, excs=["MemoryError", "LinAlgError", "RuntimeError",
                                                              "FloatingPointError", "KeyboardInterrupt", "ValueError"]))
        elif c < .85 and len(fam) > 1:
            ops.append({"op": "params", "to": rng.randrange(2), "how": rng.choice(["update", "tree", "rebuild", "inplace", "inplace"])})
        elif c < .9:
            ops.append({"op": "resume"})
        elif c < .95:
            ops.append({"op": "kick", "scale": rng.choice([.5, 1, 2, 5]), "seed": rng.randrange(1 << 20)})
            ops.append({"op": "solve", "opts": {"max_iter": rng.choice([3, 5, 8])}})
        else:
            ops.append({"op": "restart"})
    if ops[-1]["op"] != "solve":
        ops.append({"op": "solve", "opts": {"max_iter": 15}})
    return {"prop": PROP, "recipes": fam, "actors": [{"ops": ops}], "faults": faults,
            "jit": rng.random() < .05 and n_cons < 25}


def entries_of(lay, recipe):
    """(constraint object, prim keys, params) in the order of addition"""
    out = []
    for s in recipe["cons"]:
        prims, params = build.cons_args(s)
        out.append((build.make_cons(s["type"], s.get("kw", {})), prims, params))
    return out


def bad_add(sim, i, lay, recipe, bad, keys, stats):
    """An addition that must be rejected or aborted"""
    ns = build.mods()
    s = recipe["cons"][bad["like"] % len(recipe["cons"])]
    prims, params = build.cons_args(s)
    key = ""
    cons = build.make_cons(s["type"], s.get("kw", {}))
    why = bad["why"]
    if why == "prim":
        prims = (prims[0] + "/Nowhere",) + prims[1:]
    elif why == "count":
        prims = prims + (prims[-1],)
    elif why == "params":
        params = params + (1.0,)
    elif why == "dup":
        if not keys:
            return
        key = keys[bad["like"] % len(keys)]
    elif why == "abort":
        pt = next((p for p in gen.inventory(recipe["prims"])["point"]), None)
        if pt is None:
            return

        class Aborting(ns.user["u:pair"]):
            def root_params(self, *a, **k):
                raise world.make_exc("RuntimeError")
        cons, prims, params = Aborting(), (pt,), (1.0, 2.0)
    o = attempt(sim, i, f"bad add {why}", lambda: lay.add_constraint(cons, prims, params, key=key))
    stats["bad " + why] += 1
    if o.ok:
        raise Violation("accepted-invalid", f"addition of {s['type']} with bad {why} {prims} {params} accepted")


def build_with_failures(sim, i, recipe, bads, stats):
    ns = build.mods()
    lay = ns.ly.Layout()
    for k, p in build.build_prims(recipe["prims"]).items():
        lay.add_prim(p, k)
    pool = build.ObjPool(recipe.get("share_objs", False))
    keys = []
    for n, s in enumerate(recipe["cons"]):
        for b in bads:
            if b["at"] == n:
                bad_add(sim, i, lay, recipe, b, keys, stats)
        prims, params = build.cons_args(s)
        before = set(lay.root_constraint.keys())
        lay.add_constraint(pool.get(s), prims, params, key=s.get("key", ""))
        new = [k for k in lay.root_constraint.keys() if k not in before]
        if len(new) != 1:
            raise Violation("not-added", f"adding {s['type']} gave new keys {new}")
        keys.append(new[0])
    for b in bads:
        if b["at"] >= len(recipe["cons"]):
            bad_add(sim, i, lay, recipe, b, keys, stats)
    return lay, keys


def check_history(lay, recipe, info, opts, start, where):
    mi = opts.get("max_iter", 10)
    ae, re_ = [float(x) for x in info["abs_errs"]], [float(x) for x in info["rel_errs"]]
    if len(ae) != len(re_) or not min(1, mi) <= len(ae) <= mi:
        raise Violation("error-history", f"{where}: {len(ae)} absolute and {len(re_)} relative errors, max_iter {mi}")
    if not ae:
        return False
    if abs(ae[0] - start) > 1e-6 * (1 + start):
        raise Violation("error-history", f"{where}: abs_errs[0] is {ae[0]}, the residual norm at the start is {start}")
    for a, b in zip(ae, re_):
        if ae[0] > 1e-12 and np.isfinite(a) and abs(b - a / ae[0]) > 1e-9 * (1 + abs(b)):
            raise Violation("error-history", f"{where}: rel_errs {re_} are not relative to abs_errs[0] of {ae}")
    conv = ae[-1] <= opts.get("abs_tol", 1e-10) or re_[-1] <= opts.get("rel_tol", 1e-7)
    if len(ae) < mi and not conv:
        raise Violation("error-history", f"{where}: stopped after {len(ae)} of {mi} iterations without convergence: {ae}")
    return conv


def check_solution(lay, recipe, root, info, opts, where, stats, rough, wild=False):
    with world.paused():
        want = common.direct_residuals(lay, entries_of(lay, recipe))
        start = float(np.linalg.norm(want))
        if not np.all(np.isfinite(want)):
            stats["skipped: start not finite"] += 1
            return
        conv = check_history(lay, recipe, info, opts, start, where)
        if opts.get("max_iter", 10) == 0:
            d = common.coords_close(common.np_coords(root), common.np_coords(lay.root_prim))
            if d:
                raise Violation("error-history", f"{where}: no iterations allowed but {d}")
            return
        if wild:
            # anything can happen this far from a solution, but the history must be true
            stats["far starts"] += 1
            if max(info["abs_errs"]) > 1.01 * start:
                stats["far starts with growing errors"] += 1
            return
        G = model.from_tree(root)
        if conv:
            stats["converged"] += 1
            tol = max(1e-6, 100 * float(info["abs_errs"][-1]))
            for s in recipe["cons"]:
                res = np.asarray(model.residual(s, G), float)
                stats["checked"] += 1
                stats["type " + s["type"]] += 1
                if not np.all(np.abs(res) <= tol):
                    raise Violation("not-satisfied", f"{where}: converged to {float(info['abs_errs'][-1]):.3g} in "
                                    f"{len(info['abs_errs'])} iterations but {s['type']} {s['kw']} on {s['prims']} with "
                                    f"{s['params']} is off by {res.tolist()} (tolerance {tol:.3g})")
            return
        stats["not converged"] += 1
        mi = opts.get("max_iter", 10)
        if mi >= 8 and not rough and opts.get("rel_tol", 1) > 0:
            pts = {p: v for p, v in model.from_tree(lay.root_prim).c.items()}
            ref = model.Reference(recipe["prims"], recipe["cons"])
            # start from the layout's own coordinates
            x = ref.x0.reshape(-1, 2).copy()
            for p, k in ref.var.items():
                x[k] = pts[p]
            ref.x0 = x.ravel()
            n = ref.solve(int(.6 * mi))
            stats["reference " + ("converged" if n is not None else "failed too")] += 1
            if n is not None:
                raise Violation("not-solved", f"{where}: not converged in {len(info['abs_errs'])} iterations "
                                f"({[float(f'{x:.3g}') for x in info['abs_errs']]}); the reference Gauss-Newton "
                                f"iteration from the same start satisfies all constraints after {n}")


def body_of(scn, holder):
    ns = build.mods()
    stats = holder["stats"]
    fam = scn["recipes"]

    def body(sim):
        cur, lay, keys, sol = 0, None, [], None
        prior = 0
        checked = 0
        wild = False        # the start was moved far away
        rough = False       # the start was moved by a failed or rough attempt
        for i, op in enumerate(scn["actors"][0]["ops"]):
            where = f"op {i} {op['op']}"
            recipe = fam[cur]
            if op["op"] == "build":
                lay, keys = build_with_failures(sim, i, recipe, op["bads"], stats)
                prior += len(op["bads"])
            elif lay is None:
                continue
            elif op["op"] == "solve":
                for tr in range(4):
                    before = snap.layout_dump(lay)
                    o = attempt(sim, i if tr == 0 else 1000 + 10 * i + tr, f"solve {op['opts']}",
                                lambda: ns.sv.solve(lay, **op["opts"]))
                    d = snap.diff(before, snap.layout_dump(lay))
                    if d:
                        raise Violation("layout-changed", f"{where} ({o}) changed the layout: {d}")
                    if o.ok or not o.fired:
                        break
                    stats["failed solves"] += 1
                    prior += 1
                if wild and not o.ok and isinstance(o.exc, (np.linalg.LinAlgError, FloatingPointError)):
                    continue
                if not o.ok:
                    raise Violation("solve-raised", f"{where}: {o}")
                root, info = o.value
                sol = root
                check_solution(lay, recipe, root, info, op["opts"], where, stats, rough, wild)
                if prior:
                    checked += 1
                prior += 1
            elif op["op"] == "params" and len(fam) > 1:
                cur = op["to"] % len(fam)
                new = fam[cur]
                prior += 1
                if op["how"] == "rebuild":
                    lay, keys = build_with_failures(sim, i, new, [], stats)
                    rough = wild = False
                else:
                    rough = True
                    if op["how"] == "update":
                        upd = {}
                        for k, s in zip(keys, new["cons"]):
                            if gen.has_value(s):
                                upd[k] = build.cons_args(s)[1]
                        rp = ns.ly.update_root_param(lay.root_constraint, lay.root_param, upd)
                    else:
                        rp = lay.root_param.copy()
                        for k, s in zip(keys, new["cons"]):
                            rp[k] = lay.root_constraint[k].root_params(build.cons_args(s)[1])
                    if op["how"] == "inplace":
                        for k, node in rp.items():
                            lay.root_param[k] = node
                    else:
                        lay = ns.ly.Layout(lay.root_prim, lay.root_constraint, lay.root_prim_keys, rp)
                    if s_frozen(fam):
                        # frozen parameters are part of the constraint objects
                        lay, keys = build_with_failures(sim, i, new, [], stats)
            elif op["op"] == "kick":
                krng = random.Random(op["seed"])
                moved = set()
                for _, node in ns.cn.iter_flat("", lay.root_prim):
                    v = node.value
                    if v.size and id(v) not in moved and v.dtype.kind == "f":
                        moved.add(id(v))
                        v += [krng.uniform(-op["scale"], op["scale"]) for _ in range(v.size)]
                rough = wild = True
            elif op["op"] == "resume" and sol is not None:
                if wild:
                    continue
                lay = ns.ly.Layout(sol, lay.root_constraint, lay.root_prim_keys, lay.root_param)
                rough = True
                prior += 1
            elif op["op"] == "restart":
                lay, keys = build_with_failures(sim, i, recipe, [], stats)
                rough = wild = False
        holder["nontrivial"] = checked > 0
    return body


def s_frozen(fam):
    a = [s["kw"].get("frozen") for s in fam[0]["cons"] if s["type"] == "d:partial"]
    b = [s["kw"].get("frozen") for s in fam[-1]["cons"] if s["type"] == "d:partial"]
    return a != b


@common.guarded
def execute(scn, holder):
    world.set_eager(not scn.get("jit"))
    holder["nontrivial"] = False
    sim = common.run_bodies(scn, [body_of(scn, holder)])
    holder["sims"].append(sim)
    return sim.hash.hexdigest(), holder["nontrivial"]
