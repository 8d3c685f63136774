"""
C09: update_layout_constraints returns an independent refresh

A growing family of layouts derived from one another; operations on any of
them (additions, failures, refreshes, solves) and on the figure, with failing
measurements. Every layout has its own model of what must be in it.
"""

import json
import random

import numpy as np

from .. import axcfg, build, common, gen, model, snap, world
from ..common import Violation, attempt
from .c05 import sharing, structure

PROP = "C09"
RUNS = {"quick": 1100, "thorough": 12000}
RULE = ("One run = 8-20 operations on a family of layouts (refresh from a figure, valid and invalid additions, solves, "
        "parameter updates) and on the figure, with failing measurements. Non-trivial: at least two refreshes with an "
        "operation on an ancestor or descendant in between. Distinct: event-log hash.")

THICK = ("XAxisThickness", "YAxisThickness", "u:nested", "t:map", "t:mul", "u:deep")


def is_x(s):
    """Whether a thickness constraint is about x axes"""
    return s["type"] in ("XAxisThickness", "u:nested") or s["kw"].get("c") == "x"


def gen_recipe(rng):
    size = rng.choice(["s", "s", "m"])
    base = gen.gen_layout(rng, size=size, n_random=rng.randint(0, 2), axis_p=.85, keyed_p=.3,
                          keys=["Axes0", "Axes1", "Axes2", "Axes10", "MyAxes", "left"])
    if not base["info"]["axes"]:
        return gen_recipe(rng)
    cons = base["cons"]
    # thickness constraints
    ths = []
    axes = base["info"]["axes"]
    xs, ys = [], []
    for ax in axes:
        for c in "xy":
            if not ax["opts"][c + "axis"]:
                continue
            q = f"{ax['key']}/{c.upper()}Axis"
            (xs if c == "x" else ys).append(q)
            d = rng.random()
            if d < .1:
                ths.append({"type": "u:deep", "kw": {"axis": c, "c": c, "depth": rng.choice([0, 1, 2, 3, 4])}, "prims": [q],
                            "params": [None]})
            elif d < .55:
                ths.append({"type": f"{c.upper()}AxisThickness", "kw": {}, "prims": [q], "params": [None]})
            elif d < .8 and c == "x":
                ths.append({"type": "u:nested", "kw": {}, "prims": [q], "params": [None]})
            elif d < .9:
                f, how = rng.choice([2, -1, .5]), rng.choice(["number", "number", "scalar", "div"])
                ths.append({"type": "t:mul", "kw": {"c": c, "how": how, "f": 1 / f if how == "div" else f}, "prims": [q],
                            "params": [None] + ([f] if how != "number" else [])})
            if ax["opts"]["twin" + c] and rng.random() < .4:
                ths.append({"type": f"{c.upper()}AxisThickness", "kw": {},
                            "prims": [f"{ax['key']}/Twin{c.upper()}Axis"], "params": [None]})
    for qs, c in ((xs, "x"), (ys, "y")):
        if qs and rng.random() < .5:
            n = rng.randint(1, len(qs))
            P = rng.sample(qs, n)
            if rng.random() < .3:
                # each with a factor of its own
                fs = [rng.choice([2, -1, .5]) for _ in P]
                ths.append({"type": "t:map", "kw": {"c": c, "n": n, "fs": fs}, "prims": P,
                            "params": [v for f in fs for v in (None, f)]})
            else:
                ths.append({"type": "t:map", "kw": {"c": c, "n": n}, "prims": P, "params": [None] * n})
    cons = [s for s in cons if s["type"] not in ("XAxisThickness", "YAxisThickness", "AxisThickness")]
    keep = rng.random()
    if keep < .5:
        cons = rng.sample(cons, min(len(cons), rng.randint(0, 6)))
    for k, s in enumerate(ths):
        s["key"] = rng.choice(["", "", f"thick{k}", "XAxisThickness"])
    used = {s["key"] for s in cons if s.get("key")}
    for s in ths:
        if s["key"] in used:
            s["key"] = ""
        elif s["key"]:
            used.add(s["key"])
    cons = cons + ths
    rng.shuffle(cons)
    if not ths:
        return gen_recipe(rng)
    base["cons"] = cons
    if rng.random() < .25:
        group(rng, base)
    return base


def group(rng, base):
    """Put some axes below a container"""
    ren = {a["key"]: "Group/" + a["key"] for a in base["info"]["axes"] if rng.random() < .7}

    def path(p):
        head, *rest = p.split("/")
        return "/".join([ren.get(head, head)] + rest)

    def conv(v):
        if isinstance(v, dict) and "ref" in v:
            return {"ref": path(v["ref"])}
        return v
    # references into grouped primitives can't be resolved while building
    for p in base["prims"]:
        vals = p["pts"].values() if isinstance(p["pts"], dict) else [p["pts"]]
        if "ref" in json.dumps(p["pts"]):
            return
    for p in base["prims"]:
        p["key"] = ren.get(p["key"], p["key"])
    for s in base["cons"]:
        s["prims"] = [path(q) for q in s["prims"]]
    for a in base["info"]["axes"]:
        a["key"] = ren.get(a["key"], a["key"])
    base["prims"].insert(0, {"key": "Group", "kind": "group"})


def make_cons(s):
    ns = build.mods()
    if s["type"] in ("t:map", "t:mul"):
        T = ns.cr.XAxisThickness if s["kw"]["c"] == "x" else ns.cr.YAxisThickness
        if s["type"] == "t:mul":
            if s["kw"]["how"] == "number":
                return T() * s["kw"]["f"]
            return T() / ns.con.Scalar() if s["kw"]["how"] == "div" else T() * ns.con.Scalar()
        c = T() * ns.con.Scalar() if "fs" in s["kw"] else T()
        return ns.con.transform_map(c, [ns.pr.Quadrilateral] * s["kw"]["n"])
    return build.make_cons(s["type"], {k: v for k, v in s.get("kw", {}).items() if k != "c"})


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    pick = gen.pooled(PROP, seed, index, gen_recipe, block=320, size=60)
    rec = pick(rng)
    keys = [a["key"] for a in rec["info"]["axes"]]
    fig = axcfg.gen_figure(rng, n=len(keys) + rng.choice([0, 0, 1]), keys=keys + ["Spare"], n_edits=(0, 3))
    cons = rec["cons"]
    hold = [i for i in range(len(cons)) if rng.random() < .3]   # added later, to some of the layouts
    ops, faults = [], []
    n = rng.randint(8, 18)
    lays = 1
    for i in range(n):
        c = rng.random()
        L = rng.randrange(8)
        if c < .32 or (i > 2 and lays == 1):
            op = {"op": "refresh", "lay": L, "spare": rng.random() < .5}
            if rng.random() < .08:
                op["drop"] = rng.randrange(4)
            if rng.random() < .4:
                faults.append(gen.seam_fault(rng, i, 0, names=("axis.get_tightbbox", "axis.get_ticks_position",
                                                               "user.format", "user.child_params", "ax.get_position", "*"),
                                             max_nth=6, excs=["RuntimeError", "MemoryError", "KeyboardInterrupt",
                                                              "ValueError", "OSError", "KeyError"]))
            lays += 1
        elif c < .5:
            op = {"op": "con", "lay": L, "con": rng.choice(hold) if hold else 0}
            if rng.random() < .3:
                op["key"] = rng.choice(["new", "later", "Box", "0", f"k{i}"])
        elif c < .6:
            op = {"op": "bad", "lay": L, "con": rng.randrange(len(cons)), "why": rng.choice(
                ["prim", "params", "dup", "count", "abort", "dupprim"])}
        elif c < .68:
            op = {"op": "prim", "lay": L, "key": rng.choice(["Late", f"Late{i}", "Mark"]),
                  "kind": rng.choice(["point", "line", "quad"]), "in_group": rng.random() < .5}
        elif c < .74:
            op = {"op": "param", "lay": L, "con": rng.randrange(len(cons)), "seed": rng.randrange(1 << 20)}
        elif c < .76:
            op = {"op": "solve", "lay": L}
        elif c < .8:
            op = {"op": "moved", "lay": L, "dx": round(rng.uniform(-1, 1), 3)}
        else:
            e = axcfg.gen_edit(rng)
            op = {"op": "edit", "ax": rng.randrange(len(fig["axes"])), "edit": e}
        ops.append(op)
    return {"prop": PROP, "recipe": rec, "hold": hold, "fig": fig, "actors": [{"ops": ops}], "faults": faults}


class Lay:
    """A layout and what must be in it"""

    def __init__(self, lay, prims, cons, parent=None):
        self.lay, self.prims, self.cons, self.parent = lay, prims, cons, parent
        self.moved = 0
        self.touch()

    def touch(self):
        self.dump = snap.layout_dump(self.lay, identity=True)

    def unchanged(self):
        return snap.diff(self.dump, snap.layout_dump(self.lay, identity=True))


def entry(spec, obj):
    prims, params = build.cons_args(spec)
    return {"spec": spec, "obj": obj, "prims": prims, "params": params, "t": None}


def body_of(scn, holder):
    ns = build.mods()
    stats = holder["stats"]
    rec = scn["recipe"]

    def add(L, spec, key):
        e = entry(spec, make_cons(spec))
        before = L.lay.root_constraint.keys()
        L.lay.add_constraint(e["obj"], e["prims"], e["params"], key=key)
        new = [k for k in L.lay.root_constraint.keys() if k not in before]
        if len(new) != 1 or L.lay.root_constraint.keys() != before + new:
            raise Violation("not-added", f"adding {spec['type']} with key {key!r} to {before} gave "
                                         f"{L.lay.root_constraint.keys()}")
        if key and new[0] != key:
            raise Violation("not-added", f"constraint added as {key!r} is under {new[0]!r}")
        L.cons.append((new[0], e))
        L.touch()

    def check(L, where):
        """Contents of one layout against its model"""
        lay = L.lay
        if lay.root_prim.keys() != [k for k in L.prims]:
            raise Violation("prims", f"{where}: primitives {lay.root_prim.keys()}, expected {list(L.prims)}")
        want = [k for k, _ in L.cons]
        for name, tree in (("root_constraint", lay.root_constraint), ("root_prim_keys", lay.root_prim_keys),
                           ("root_param", lay.root_param)):
            if tree.keys() != want:
                raise Violation("keys", f"{where}: {name} has {tree.keys()}, expected {want}")
        exp = []
        geo = model.from_tree(lay.root_prim)
        for k, e in L.cons:
            if type(lay.root_constraint[k]).__name__ != type(e["obj"]).__name__:
                raise Violation("constraint", f"{where}: {k!r} is a {type(lay.root_constraint[k]).__name__}, "
                                              f"expected {type(e['obj']).__name__}")
            if tuple(lay.root_prim_keys[k].value) != tuple(e["prims"]):
                raise Violation("pairing", f"{where}: {k!r} is paired with {lay.root_prim_keys[k].value}, "
                                           f"expected {e['prims']}")
            s = e["spec"]
            if s["type"] in THICK:
                t = e["t"] or [0.0] * len(s["prims"])
                fs = s["kw"].get("fs") or [s["kw"].get("f", 1)] * len(s["prims"])
                for q, tv, f in zip(s["prims"], t, fs):
                    x = is_x(s)
                    v = geo.vec(q + ("/Line1" if x else "/Line0"))
                    exp.append((f * (float(v[1] if x else v[0]) - tv), k))
                if s["type"] == "u:nested":
                    exp += [(r, k) for r in model.residual({"type": "Box", "prims": s["prims"], "params": []}, geo)]
            else:
                if snap.value_dump(lay.root_param[k].value) != snap.value_dump(e["params"]):
                    raise Violation("params", f"{where}: {k!r} has parameters {lay.root_param[k].value}, expected "
                                              f"{e['params']}")
                r = e["obj"](tuple(lay.root_prim[q] for q in e["prims"]), *e["params"])
                exp += [(float(x), k) for x in np.asarray(r, float).ravel()]
        got = common.flat_residuals(lay)
        if not common.same_multiset(got, [x for x, _ in exp], 1e-6):
            g, w = np.sort(np.abs(got)), sorted((abs(x), k) for x, k in exp)
            odd = next((f"{a} vs {b}" for a, b in zip(g.tolist(), w) if abs(a - b[0]) > 1e-6), f"{len(g)} vs {len(w)}")
            raise Violation("effect", f"{where}: residuals differ from those of the constraints with the current "
                                      f"thicknesses: {odd}")

    def body(sim):
        real, axs = axcfg.new_figure(scn["fig"], True)
        bare, baxs = axcfg.new_figure(scn["fig"], False)
        first = ns.ly.Layout()
        L0 = Lay(first, [], [])
        for k, p in build.build_prims(rec["prims"]).items():
            first.add_prim(p, k)
            if "/" not in k:
                L0.prims.append(k)
        for i, s in enumerate(rec["cons"]):
            if i not in scn["hold"]:
                add(L0, s, s.get("key", ""))
        L0.touch()
        lays = [L0]
        refreshes = touched = 0
        keys = [a["key"] for a in scn["fig"]["axes"]]
        for i, op in enumerate(scn["actors"][0]["ops"]):
            kind = op["op"]
            where = f"op {i} {kind}"
            if kind == "nop":
                continue
            if kind == "edit":
                for fig, ax, lab in ((real, axs, True), (bare, baxs, False)):
                    try:
                        axcfg.edit(fig, ax[keys[op["ax"]]], op["edit"], lab)
                    except Exception:
                        pass
                continue
            j = op["lay"] % len(lays)
            L = lays[j]
            where += f" layout {j}"
            if kind == "refresh":
                given = {k: v for k, v in axs.items() if k != "Spare" or op["spare"]}
                dropped = None
                if "drop" in op:
                    dropped = keys[op["drop"] % len(keys)]
                    given.pop(dropped, None)
                for tr in range(3):
                    gd = dict(given)
                    fs = axcfg.state(real)
                    p0 = snap.process_state()
                    o = attempt(sim, i if tr == 0 else 1000 + 10 * i + tr, "refresh",
                                lambda: ns.ly.update_layout_constraints(L.lay, gd))
                    w = f"{where} ({o})"
                    for n, x in enumerate(lays):
                        d = x.unchanged()
                        if d:
                            raise Violation("layout-changed", f"{w}: layout {n} changed: {d}")
                    if list(gd.items()) != list(given.items()):
                        raise Violation("axs-changed", f"{w}: the axes dictionary changed")
                    d = snap.diff(fs, axcfg.state(real))
                    if d:
                        raise Violation("figure-changed", f"{w}: {d}")
                    for k in snap.state_diff(p0, snap.process_state()):
                        raise Violation("process-state", f"{w}: {k} changed")
                    if o.ok or not o.fired:
                        break
                    stats["failed refreshes"] += 1
                # what the new parameters must be
                with world.paused():
                    thick, nominal = {}, True
                    cons = []
                    for k, e in L.cons:
                        s = e["spec"]
                        e2 = dict(e)
                        if s["type"] in THICK:
                            ts = []
                            for q in s["prims"]:
                                ak = q.rsplit("/", 1)[0]
                                if ak not in given or ak not in baxs:
                                    nominal = False
                                    break
                                x = is_x(s)
                                try:
                                    t = axcfg.measure(baxs[ak].xaxis if x else baxs[ak].yaxis)
                                except Exception:
                                    t = None
                                if t is None:
                                    nominal = False
                                    break
                                ts.append(t)
                            e2["t"] = ts
                        cons.append((k, e2))
                if not o.ok:
                    if nominal:
                        raise Violation("refresh-failed", f"{w}: fails although every axis has a side and renders")
                    stats["refused refreshes"] += 1
                    continue
                if not nominal:
                    stats["refreshes without a side"] += 1
                    continue
                if o.value is L.lay:
                    raise Violation("not-new", f"{w}: returned the layout it was given")
                stats["refreshes"] += 1
                refreshes += 1
                N = Lay(o.value, list(L.prims), cons, parent=L)
                with world.paused():
                    check(N, f"{w}, new layout")
                    if structure(N.lay.root_prim) != structure(L.lay.root_prim):
                        raise Violation("prims", f"{w}: primitive tree differs: "
                                        f"{snap.diff(structure(L.lay.root_prim), structure(N.lay.root_prim))}")
                    if sharing(N.lay.root_prim) != sharing(L.lay.root_prim):
                        raise Violation("prims", f"{w}: shared vertices differ")
                    a, b = model.from_tree(L.lay.root_prim).c, model.from_tree(N.lay.root_prim).c
                    d = common.coords_close({k: v for k, v in a.items()}, {k: v for k, v in b.items()}, 0)
                    if d:
                        raise Violation("prims", f"{w}: {d}")
                if len(lays) < 6:
                    lays.append(N)
                else:
                    lays[1 + i % 5] = N
                continue
            # operations on one layout that must not reach the others
            own = None
            if kind == "con":
                s = rec["cons"][op["con"] % len(rec["cons"])]
                key = op.get("key", "")
                if key in [k for k, _ in L.cons]:
                    key = ""
                try:
                    add(L, s, key)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("add-failed", f"{where}: {s['type']} on {s['prims']}: {e!r}")
                own = L
                touched += 1
            elif kind == "bad":
                s = rec["cons"][op["con"] % len(rec["cons"])]
                e = entry(s, make_cons(s))
                c, prims, params, key = e["obj"], e["prims"], e["params"], ""
                if op["why"] == "prim":
                    prims = (prims[0] + "/Nowhere",) + prims[1:]
                elif op["why"] == "params":
                    params = params + (1.0,)
                elif op["why"] == "count":
                    prims = prims + prims[-1:]
                elif op["why"] == "dup":
                    if not L.cons:
                        continue
                    key = L.cons[op["con"] % len(L.cons)][0]
                elif op["why"] == "abort":
                    base = type(c)

                    class Aborting(ns.user["u:pair"]):
                        def root_params(self, *a, **k):
                            raise world.make_exc("RuntimeError")
                    pt = next(iter(model.from_tree(L.lay.root_prim).c))
                    c, prims, params = Aborting(), (pt,), (1.0, 2.0)
                if op["why"] == "dupprim":
                    o = attempt(sim, i, "bad prim", lambda: L.lay.add_prim(ns.pr.Point(), L.prims[0]))
                else:
                    o = attempt(sim, i, f"bad {op['why']}", lambda: L.lay.add_constraint(c, prims, params, key=key))
                if o.ok:
                    raise Violation("accepted-invalid", f"{where} {op['why']}: accepted")
                d = L.unchanged()
                if d:
                    raise Violation("layout-changed", f"{where} ({o}) changed the layout: {d}")
                touched += 1
            elif kind == "prim":
                key = op["key"]
                if op["in_group"] and "Group" in L.prims:
                    key = "Group/" + key
                elif key in L.prims:
                    continue
                p = {"point": ns.pr.Point, "line": ns.pr.Line, "quad": ns.pr.Quadrilateral}[op["kind"]]()
                try:
                    L.lay.add_prim(p, key)
                except KeyError:
                    d = L.unchanged()
                    if d or "Group/" not in key:
                        raise Violation("add-failed", f"{where}: {key!r} refused; {d}")
                    continue
                if "/" not in key:
                    L.prims.append(key)
                L.touch()
                own = L
                touched += 1
            elif kind == "param":
                # give one layout other parameters
                cands = [k for k, e in L.cons if e["spec"]["type"] in ("Width", "Height", "InnerMargin", "XLength",
                                                                       "YDistance", "XDistance", "YLength")]
                if not cands:
                    continue
                k = cands[op["con"] % len(cands)]
                v = (round(random.Random(op["seed"]).uniform(.5, 3), 3),)
                rp = ns.ly.update_root_param(L.lay.root_constraint, L.lay.root_param, {k: v})
                d = L.unchanged()
                if d:
                    raise Violation("layout-changed", f"{where}: update_root_param changed its layout: {d}")
                L.lay = ns.ly.Layout(L.lay.root_prim, L.lay.root_constraint, L.lay.root_prim_keys, rp)
                L.cons = [(kk, {**e, "params": v} if kk == k else e) for kk, e in L.cons]
                L.touch()
                own = L
            elif kind == "solve":
                o = attempt(sim, i, "solve", lambda: ns.sv.solve(L.lay, max_iter=2))
                stats["solves"] += 1
            elif kind == "moved":
                # continue from other primitives (as after a solve)
                with world.paused():
                    from .. import baseline
                    flat = ns.cn.flatten("", L.lay.root_prim)
                    graph, values = ns.pr.filter_unique_values_from_prim(L.lay.root_prim)
                    root = ns.pr.build_prim_from_unique_values(
                        flat, graph, [v + op["dx"] if v.size else v.copy() for v in values])
                    rc, rk, rp = (ns.cn.unflatten(ns.cn.flatten("", t))[0] for t in (
                        L.lay.root_constraint, L.lay.root_prim_keys, L.lay.root_param))
                L.lay = ns.ly.Layout(root, rc, rk, rp)
                L.touch()
                own = L
            for n, x in enumerate(lays):
                if x is not own:
                    d = x.unchanged()
                    if d:
                        raise Violation("layout-changed", f"{where}: layout {n} changed: {d}")
        with world.paused():
            for n, x in enumerate(lays):
                check(x, f"layout {n} at the end")
        holder["nontrivial"] = refreshes >= 2 and touched >= 1
    return body


@common.guarded
def execute(scn, holder):
    world.set_eager(True)
    holder["nontrivial"] = False
    sim = common.run_bodies(scn, [body_of(scn, holder)])
    holder["sims"].append(sim)
    return sim.hash.hexdigest(), holder["nontrivial"]
