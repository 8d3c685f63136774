"""
C01: layout additions are all-or-nothing and stay aligned

Actors build separate layouts through add_prim/add_prims/add_constraint with
accepted, rejected and aborted additions; a list model says what must be in
each layout.
"""

import json
import random

import numpy as np

from .. import build, common, gen, model, snap, world
from ..common import Violation, attempt

PROP = "C01"
RUNS = {"quick": 3600, "thorough": 24000}
RULE = ("One run = 1-3 actors, each a seeded sequence of 8-30 layout additions (valid, invalid, duplicate, "
        "aborted by an injected failure in user/matplotlib code). Non-trivial: at least one addition was "
        "rejected or aborted and at least one constraint was added after it, or at least two actors interleaved. "
        "Distinct: different event-log hash (operations, seams, faults, thread switches).")

HOOKS = ("validate_prims", "validate_params", "root_prim_keys", "root_params")


def _user_hook_class():
    """A user constraint whose public methods can fail at any stage"""
    ns = build.mods()
    if "u:hook" in ns.user:
        return
    base = ns.user["u:pair"]

    def hooked(name):
        def method(self, *args, **kwargs):
            world.user_seam(name + ".enter")
            out = getattr(super(UHook, self), name)(*args, **kwargs)
            world.user_seam(name + ".exit")
            return out
        return method

    class UHook(base):
        pass

    for h in HOOKS:
        setattr(UHook, h, hooked(h))
    ns.user["u:hook"] = UHook


# ------------------------------------------------------------------ generator

def gen_actor(rng, actor, faults, n_ops):
    prims, info = gen.gen_geometry(rng, n_axes=rng.choice([0, 1, 1, 2, 3]), axis_p=.4, extras=3,
                                   grid=rng.choice([None, None, None, (1, 2), (2, 2)]))
    G = gen.truth_geo(prims)
    gen.perturb(rng, prims, .1)
    ops = []
    todo = list(prims)
    have = []
    live_keys = []
    measured = rng.random() < .35
    nbox = 0
    while len(ops) < n_ops or todo:
        i = len(ops)
        c = rng.random()
        if todo and (not have or c < .3):
            k = rng.randint(1, min(3, len(todo)))
            if k == 1 or rng.random() < .5:
                p = todo.pop(0)
                have.append(p)
                ops.append({"op": "prim", "prim": p})
            else:
                batch = [todo.pop(0) for _ in range(k)]
                have += batch
                ops.append({"op": "prims", "prims": batch})
            continue
        inv = gen.inventory(have)
        inf = {**info, "axes": [a for a in info["axes"] if any(p["key"] == a["key"] for p in have)]}
        if inf.get("grid") and len(inf["axes"]) < len(inf["grid"]["keys"]):
            inf["grid"] = None
        if len(ops) >= n_ops and not todo:
            break
        spec = None
        if c < .72:
            t = rng.choice(gen.CATALOG + ["Box", "Box", "Box", "u:hook", "u:hook", "u:hook", "Fix", "Width"])
            if t == "u:hook":
                if inv["point"]:
                    spec = gen.random_spec(rng, "u:pair", have, inv, G, inf)
                    if spec:
                        spec["type"] = "u:hook"
            else:
                spec = gen.random_spec(rng, t, have, inv, G, inf)
            if spec is None:
                continue
            if measured and rng.random() < .25 and inf["axes"]:
                ax = rng.choice(inf["axes"])
                cc = rng.choice("xy")
                if ax["opts"][cc + "axis"]:
                    spec = {"type": f"{cc.upper()}AxisThickness", "kw": {},
                            "prims": [f"{ax['key']}/{cc.upper()}Axis"],
                            "params": [{"axis": ["A", cc]}]}
            key = ""
            if rng.random() < .35:
                cands = [f"c{i}", f"Box{rng.randint(0, 3)}", f"SumConstruction{rng.randint(0, 3)}",
                         f"UHook{rng.randint(0, 2)}", f"k {i}", "Figure", "Box", f"Partial{rng.randint(0, 1)}",
                         f"Box0{rng.randint(0, 3)}", "Box1", "Coincident0", " ", "  "]
                key = rng.choice(cands)
            if rng.random() < .06 and not measured:
                # spoil numeric parameters with numpy scalars (legal or rejected, never half-added)
                spec = dict(spec)
                spec["params"] = [
                    {"np": rng.choice(["float32", "int64", "float64"]), "v": round(v) or 1}
                    if isinstance(v, float) else v for v in spec["params"]]
                spec["maybe"] = True
            ops.append({"op": "con", "spec": spec, "key": key})
            if spec["type"] in ("u:hook", "u:pair") and rng.random() < .5:
                name = rng.choice([f"user.{h}.{w}" for h in HOOKS for w in ("enter", "exit")]
                                  + ["user.child_params"] * 4)
                faults.append({"actor": actor, "op": i, "at": "seam", "name": name, "nth": 0, "when": "before",
                               "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "RuntimeError", "TypeError",
                                                  "KeyError", "ValueError"])})
            elif isinstance(spec["params"][:1], list) and spec["params"] and isinstance(spec["params"][0], dict) \
                    and "axis" in spec["params"][0] and rng.random() < .6:
                faults.append({"actor": actor, "op": i, "at": "seam",
                               "name": rng.choice(["axis.get_tightbbox", "axis.get_ticks_position", "*"]),
                               "nth": rng.choice([0, 0, 1]), "when": rng.choice(["before", "after"]),
                               "exc": rng.choice(["MemoryError", "RuntimeError", "KeyboardInterrupt", "OSError"])})
            live_keys.append(key)
            continue
        # ---- additions that must be rejected
        why = rng.choice(["dup_prim", "dup_key", "missing_prim", "prim_type", "prim_count", "param_count",
                          "param_struct", "param_struct", "bad_parent", "rewrap", "solve", "failbatch"])
        if why == "dup_prim" and have:
            ops.append({"op": "bad_prim", "prim": rng.choice(have)})
        elif why == "bad_parent" and have:
            p = dict(rng.choice(have))
            if p["kind"] == "line" and any(isinstance(v, dict) for v in p["pts"]):
                continue
            p["key"] = "nowhere/" + p["key"]
            ops.append({"op": "bad_prim", "prim": p})
        elif why == "failbatch" and have and todo:
            ops.append({"op": "bad_batch", "new": todo.pop(0), "dup": have[0]})
            have.append(ops[-1]["new"])
        elif why == "rewrap":
            ops.append({"op": "rewrap"})
        elif why == "solve":
            ops.append({"op": "check"})
        elif have and why in ("dup_key", "missing_prim", "prim_type", "prim_count", "param_count", "param_struct"):
            t = rng.choice(gen.CATALOG)
            spec = gen.random_spec(rng, t, have, inv, G, inf)
            if spec is None:
                continue
            spec = json.loads(json.dumps(spec))
            key = ""
            if why == "dup_key":
                ops.append({"op": "bad_con", "why": why, "spec": spec, "key": {"live": rng.randrange(99)}})
                continue
            if why == "missing_prim":
                j = rng.randrange(len(spec["prims"]))
                spec["prims"][j] = rng.choice(["Nope", spec["prims"][j] + "/Nope", "Nope/Frame"])
            elif why == "prim_type":
                j = rng.randrange(len(spec["prims"]))
                is_point = spec["prims"][j] in inv["point"]
                alt = (inv["quad"] + inv["axes"] + inv["line"]) if is_point else inv["point"]
                if not alt:
                    continue
                spec["prims"][j] = rng.choice(alt)
            elif why == "prim_count":
                if rng.random() < .5 or len(spec["prims"]) < 2:
                    spec["prims"].append(spec["prims"][-1])
                else:
                    spec["prims"].pop()
            elif why == "param_count":
                if spec["params"] and rng.random() < .5:
                    spec["params"].pop()
                else:
                    spec["params"].append(1.0)
            elif why == "param_struct":
                q = next((p["key"] + ("/Frame" if p["kind"] == "axes" else "") for p in have
                          if p["kind"] in ("quad", "axes")), None)
                if q is None:
                    continue
                kind = rng.choice(["grid", "width", "margin", "thick"])
                if kind == "grid":
                    spec = {"type": "Grid", "kw": {"shape": [1, 1]}, "prims": [q],
                            "params": [[], [], 1.0, []] if rng.random() < .5 else [2.0, [], [], []]}
                elif kind == "width":
                    spec = {"type": rng.choice(["Width", "Height"]), "kw": {}, "prims": [q],
                            "params": [{"bad": rng.choice(["obj", "none", "dict"])}]}
                elif kind == "margin":
                    spec = {"type": "InnerMargin", "kw": {"side": "left"}, "prims": [q, q],
                            "params": [{"bad": rng.choice(["obj", "none"])}]}
                else:
                    spec = {"type": "XAxisThickness", "kw": {}, "prims": [q], "params": [{"bad": "obj"}]}
                if rng.random() < .4:
                    key = f"s{i}"
            ops.append({"op": "bad_con", "why": why, "spec": spec, "key": key})
    return {"ops": ops, "measured": measured, "info": {"fig": info["fig"]}}


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    faults = []
    size = rng.choice([8, 12, 20, 30])
    actors = [gen_actor(rng, a, faults, size if n == 1 else max(6, size // 2)) for a in range(n)]
    scn = {"prop": PROP, "actors": actors, "faults": faults, "share_objs": rng.random() < .3}
    if n > 1:
        scn["sched"] = gen.sched_policy(rng, hot=["layout.py", "containers.py"], horizon=6000)
    return scn


# ------------------------------------------------------------------- executor

class Model:
    def __init__(self):
        self.prims = []     # (key, primitive object, coords)
        self.cons = []      # (key, constraint, prim keys, params)


def check_structure(lay, m, where):
    keys = [k for k, _, _ in m.prims]
    if lay.root_prim.keys() != keys:
        raise Violation("prim-keys", f"{where}: root_prim has {lay.root_prim.keys()}, expected {keys}")
    got = model.from_tree(lay.root_prim)
    for k, prim, coords in m.prims:
        for path, xy in coords.items():
            if path not in got.c or not common.close(got.c[path], xy, 1e-12):
                raise Violation("prim-lost", f"{where}: {path} is {got.c.get(path)}, added as {xy}")
    ck = [k for k, *_ in m.cons]
    trees = {"root_constraint": lay.root_constraint, "root_prim_keys": lay.root_prim_keys,
             "root_param": lay.root_param}
    for name, tree in trees.items():
        if tree.keys() != ck:
            raise Violation("misaligned", f"{where}: {name} has keys {tree.keys()}, expected {ck}")
    for k, c, prims, params in m.cons:
        if lay.root_prim_keys[k].value != prims:
            raise Violation("mispaired", f"{where}: constraint {k!r} is paired with primitives "
                                         f"{lay.root_prim_keys[k].value}, added with {prims}")
        if snap.value_dump(lay.root_param[k].value) != snap.value_dump(params):
            raise Violation("mispaired", f"{where}: constraint {k!r} is paired with parameters "
                                         f"{lay.root_param[k].value}, added with {params}")
        if snap.node_dump(lay.root_constraint[k])[0] != type(c).__name__:
            raise Violation("mispaired", f"{where}: constraint {k!r} is a {type(lay.root_constraint[k]).__name__}, "
                                         f"added as {type(c).__name__}")


def check_effect(lay, m, where):
    """All accepted constraints are in effect, each with its own primitives and parameters"""
    with world.paused():
        want = common.direct_residuals(lay, [(c, p, v) for _, c, p, v in m.cons])
        got = common.flat_residuals(lay)
    if not common.same_multiset(got, want, 1e-6):
        raise Violation("not-in-effect", f"{where}: residuals of the layout {np.sort(np.abs(got)).tolist()} differ "
                                         f"from those of the accepted constraints {np.sort(np.abs(want)).tolist()}")


def actor_body(scn, a, holder, out):
    spec = scn["actors"][a]
    ns = build.mods()
    stats = holder["stats"]

    def body(sim):
        env = {"axs": {}}
        if spec["measured"]:
            from matplotlib.figure import Figure
            from matplotlib.backends.backend_agg import FigureCanvasAgg
            fig = Figure(figsize=(4, 3))
            FigureCanvasAgg(fig)
            env["axs"]["A"] = fig.add_axes((.2, .2, .6, .6))
        pool = holder["pool"]
        lay = ns.ly.Layout()
        m = Model()
        check_structure(lay, m, f"actor {a} new layout")
        built = {}
        rejected = False
        for i, op in enumerate(spec["ops"]):
            kind = op["op"]
            where = f"actor {a} op {i} {kind}"
            before = snap.layout_dump(lay, identity=True)
            if kind == "nop":
                continue
            elif kind in ("prim", "prims", "bad_batch"):
                specs = [op["prim"]] if kind == "prim" else op["prims"] if kind == "prims" else [op["new"]]
                try:
                    objs = []
                    for p in specs:
                        obj = build.make_prim(p, built)
                        built[p["key"]] = obj
                        objs.append((p, obj))
                except KeyError:
                    continue        # minimised away
                if kind == "prim":
                    o = attempt(sim, i, "add_prim", lambda: lay.add_prim(objs[0][1], objs[0][0]["key"]))
                elif kind == "prims":
                    o = attempt(sim, i, "add_prims", lambda: lay.add_prims({p["key"]: x for p, x in objs}))
                else:
                    if op["dup"]["key"] not in [k for k, *_ in m.prims]:
                        continue
                    o = attempt(sim, i, "add_prims", lambda: lay.add_prims(
                        {objs[0][0]["key"]: objs[0][1], op["dup"]["key"]: built[op["dup"]["key"]]}))
                    if o.ok:
                        raise Violation("accepted-invalid", f"{where}: duplicate primitive key accepted")
                    stats["rejected"] += 1
                if kind != "bad_batch" and not o.ok:
                    raise Violation("valid-rejected", f"{where}: {[p['key'] for p in specs]}: {o}")
                added = lay.root_prim.keys()
                for p, x in objs:
                    if kind == "bad_batch" and p["key"] not in added:
                        continue
                    m.prims.append((p["key"], x, {
                        path: v for path, v in
                        build.expand_all([q for q in _all_specs(spec)], "pts").items()
                        if path == p["key"] or path.startswith(p["key"] + "/")}))
                stats["prims"] += 1
            elif kind == "bad_prim":
                p = op["prim"]
                if "/" not in p["key"] and p["key"] not in lay.root_prim.keys():
                    continue
                try:
                    obj = build.make_prim(p, built)
                except KeyError:
                    continue
                o = attempt(sim, i, "add_prim!", lambda: lay.add_prim(obj, p["key"]))
                if o.ok:
                    raise Violation("accepted-invalid", f"{where}: key {p['key']!r} accepted")
                rejected = True
                stats["rejected"] += 1
                d = snap.diff(before, snap.layout_dump(lay, identity=True))
                if d:
                    raise Violation("rejected-changed", f"{where}: {p['key']!r} rejected with {o} but changed {d}")
            elif kind == "rewrap":
                o = attempt(sim, i, "rewrap", lambda: ns.ly.Layout(
                    lay.root_prim, lay.root_constraint, lay.root_prim_keys, lay.root_param))
                lay = o.value
            elif kind == "check":
                check_effect(lay, m, where)
            elif kind in ("con", "bad_con"):
                s = op["spec"]
                try:
                    c = pool.get(s)
                    prims, params = build.cons_args(s, env)
                except (AttributeError, ValueError, AssertionError) as e:
                    raise world.HarnessError(f"cannot build {s}: {e!r}")
                key = op["key"]
                live = [k for k, *_ in m.cons]
                if isinstance(key, dict):
                    if not live:
                        continue
                    key = live[key["live"] % len(live)]
                dup = key in live
                o = attempt(sim, i, f"add_constraint {s['type']}",
                            lambda: lay.add_constraint(c, prims, params, key=key))
                fired = common.raising(o.fired)
                must_reject = kind == "bad_con" and op["why"] != "param_struct"
                if kind == "con" and not fired and not o.ok and not dup and not s.get("maybe") \
                        and _resolvable(lay, prims):
                    raise Violation("valid-rejected", f"{where}: {s['type']} {prims} {params} key={key!r}: {o}")
                if o.ok:
                    if must_reject or dup:
                        raise Violation("accepted-invalid",
                                        f"{where}: {op.get('why', 'duplicate key')}: {s['type']} {prims} {params} "
                                        f"key={key!r} accepted")
                    if kind == "bad_con":
                        # a parameter the layout chooses to accept: then it must be complete
                        s = None
                    new = [k for k in lay.root_constraint.keys() if k not in live]
                    if len(new) != 1 or (key != "" and new[0] != key):
                        raise Violation("key", f"{where}: added with key {key!r}, new keys {new}, had {live}")
                    m.cons.append((new[0], c, prims, params))
                    stats["cons"] += 1
                    if rejected:
                        stats["cons_after_reject"] += 1
                else:
                    rejected = True
                    stats["aborted" if fired else "rejected"] += 1
                    stats["why:" + (op.get("why") or ("fault" if fired else "dup"))] += 1
                    d = snap.diff(before, snap.layout_dump(lay, identity=True))
                    if d:
                        raise Violation("rejected-changed",
                                        f"{where}: {c.__class__.__name__} {prims} {params} key={key!r} failed with "
                                        f"{o} but changed the layout: {d}")
                if s is None:
                    return
            check_structure(lay, m, where)
        check_structure(lay, m, f"actor {a} end")
        check_effect(lay, m, f"actor {a} end")
        out[a] = ([k for k, *_ in m.cons], rejected, lay)
    return body


def _resolvable(lay, prims):
    try:
        for p in prims:
            lay.root_prim[p]
        return True
    except KeyError:
        return False


def _all_specs(spec):
    for op in spec["ops"]:
        if op["op"] == "prim":
            yield op["prim"]
        elif op["op"] == "prims":
            yield from op["prims"]
        elif op["op"] == "bad_batch":
            yield op["new"]


@common.guarded
def execute(scn, holder):
    _user_hook_class()
    n = len(scn["actors"])
    holder["pool"] = build.ObjPool(scn.get("share_objs", False))
    solo = {}
    if n > 1:
        # each actor alone first: the keys and layouts must come out the same
        for a in range(n):
            one = {"faults": [dict(f, actor=0) for f in scn["faults"] if f["actor"] == a]}
            sim = world.Sim(one["faults"])
            holder["sims"].append(sim)
            with world.running(sim):
                actor_body(scn, a, holder, solo)(sim)
    out = {}
    try:
        sim = common.run_bodies(scn, [actor_body(scn, a, holder, out) for a in range(n)])
        holder["sims"].append(sim)
    finally:
        pass
    for a in solo:
        if a in out and out[a][0] != solo[a][0]:
            raise Violation("interference", f"actor {a} alone gets constraint keys {solo[a][0]}, "
                                            f"next to others {out[a][0]}")
        if a in out:
            d = _dump_no_ids(out[a][2], solo[a][2])
            if d:
                raise Violation("interference", f"actor {a}: layout differs from building it alone: {d}")
    h = sim.hash.hexdigest()
    nontrivial = n > 1 and sim.sched.n_switch > 0 or any(v[1] for v in out.values())
    return h, nontrivial


def _dump_no_ids(a, b):
    """Compare two layouts by what they contain (objects may differ)"""
    ga, gb = model.from_tree(a.root_prim), model.from_tree(b.root_prim)
    if list(ga.c) != list(gb.c):
        return f"points {list(ga.c)} vs {list(gb.c)}"
    for k in ga.c:
        if not common.close(ga.c[k], gb.c[k], 1e-12):
            return f"{k}: {ga.c[k]} vs {gb.c[k]}"
    fa = [(k, n.value) for k, n in build.mods().cn.iter_flat("", a.root_prim_keys)]
    fb = [(k, n.value) for k, n in build.mods().cn.iter_flat("", b.root_prim_keys)]
    if fa != fb:
        return f"{fa} vs {fb}"
    return None
