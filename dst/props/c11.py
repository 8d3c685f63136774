"""
C11: constraint objects are stateless and reusable

A pool of constraint and construction objects is shared by actors, layouts and
derivations through a history of evaluations, failures, solves and further
derivations. Every value is compared with the arithmetic of freshly built
operands, with independent formulas and with the object's own earlier values.
"""

import json

import numpy as np

from .. import build, common, gen, model, snap, world
from ..common import Violation, attempt

PROP = "C11"
RUNS = {"quick": 2000, "thorough": 14000}
RULE = ("One run = 1-3 actors sharing 4-8 objects, each 10-25 operations: evaluating (directly, as a tree, through "
        "layouts), failing part-way, solving, deriving new objects. Non-trivial: some object was used again after a failure, "
        "a solve, a derivation or by another actor. Distinct: event-log hash.")

# constructions: primitive kinds, parameters, value structure
RAW = {
    "Coordinate": ("p", "", "2"), "DirectedDistance": ("pp", "d", "1"), "XDistance": ("pp", "", "1"),
    "YDistance": ("pp", "", "1"), "LineVector": ("l", "", "2"), "UnitLineVector": ("l", "", "2"), "Length": ("l", "", "1"),
    "DirectedLength": ("l", "d", "1"), "XLength": ("l", "", "1"), "YLength": ("l", "", "1"), "Midpoint": ("l", "", "2"),
    "MidpointDirectedDistance": ("ll", "d", "1"), "MidpointXDistance": ("ll", "", "1"),
    "MidpointYDistance": ("ll", "", "1"), "Angle": ("ll", "", "1"), "PointOnLineDistance": ("pl", "b", "1"),
    "PointToLineDistance": ("pl", "b", "1"), "RelativePointOnLineDistance": ("pl", "b", "1"),
    "Width": ("q", "", "W"), "Height": ("q", "", "H"), "AspectRatio": ("q", "", "1"),
    "OuterMargin": ("qq", "", "M"), "InnerMargin": ("qq", "", "M"), "Scalar": ("", "s", "1"),
}
COMPOUND = ["Width", "Height", "OuterMargin", "InnerMargin"]
KIND = {"p": "point", "l": "line", "q": "quad"}
SIDES = ["left", "right", "top", "bottom"]


def num(rng):
    return round(rng.choice([1, 1, -1]) * rng.uniform(.2, 3), 3)


class Maker:
    """Generates expressions over constraint objects and arguments for them"""

    def __init__(self, rng, prims, G, info):
        self.rng, self.prims, self.G, self.info = rng, prims, G, info
        self.inv = gen.inventory(prims)
        self.exprs = []

    def leaf_raw(self, name=None):
        name = name or self.rng.choice(list(RAW) + 3 * COMPOUND)
        e = {"k": "raw", "t": name}
        sid = RAW[name][2]
        if sid == "M":
            e["side"] = self.rng.choice(SIDES)
            sid += e["side"]
        return self.put(e, sid, int(sid) if sid in "12" else 1)

    def leaf_spec(self):
        rng = self.rng
        for _ in range(30):
            t = rng.choice(gen.CATALOG)
            loose = rng.random() < .6
            s = gen.random_spec(rng, t, self.prims, self.inv, self.G, self.info, loose=loose)
            if s is None:
                continue
            variants = [[s["prims"], s["params"]]]
            for _ in range(12 if t in gen.CATALOG[:30] else 3):
                v = gen.random_spec(rng, t, self.prims, self.inv, self.G, self.info, loose=loose)
                if v is not None and v["kw"] == s["kw"]:
                    variants.append([v["prims"], v["params"]])
            return self.put({"k": "spec", "t": t, "kw": s["kw"], "variants": variants},
                            json.dumps([t, s["kw"]], sort_keys=True), None)
        return self.leaf_raw()

    def put(self, e, sid, size):
        e["sid"], e["size"] = sid, size
        self.exprs.append(e)
        return len(self.exprs) - 1

    def derive(self, visible):
        """A new expression over `visible` ones; None if nothing fits"""
        rng = self.rng
        a = rng.choice(visible)
        A = self.exprs[a]
        depth = A.get("depth", 0)
        if depth >= 4:
            return None
        k = rng.choice(["sum", "sum", "sum", "sum", "mul", "mul", "neg", "div", "pow", "scal", "cons", "cons", "part",
                        "part", "map"])
        e = {"k": k, "a": a, "depth": depth + 1}
        sid, size = A["sid"], A["size"]
        if k == "sum":
            same = [b for b in visible if self.exprs[b]["sid"] == sid and self.exprs[b].get("depth", 0) < 4]
            b = rng.choice(same)
            if sid[0] in "WHM" and rng.random() < .5:
                # operands with different numbers of parameters
                b = rng.choice([x for x in same if self.exprs[x]["k"] != A["k"]] or same)
            e["b"] = b
            e["depth"] = max(depth, self.exprs[b].get("depth", 0)) + 1
        elif k in ("mul", "div"):
            e["by"] = rng.choice([num(rng), rng.choice([2, -1, 3])])
            e["left"] = rng.random() < .5
        elif k == "pow":
            e["by"] = rng.choice([2, 3, 2.0, 1])
        elif k == "scal":
            e["how"] = rng.choice(["mul", "rmul", "div", "pow"])
            if A["k"] == "raw" and A["t"] == "Scalar" and e["how"] in ("mul", "rmul"):
                return None
        elif k == "part":
            P, V = self.args(a)
            n = rng.randint(0, min(2, len(V)))
            if n == 0 and rng.random() < .7:
                return None
            e["frozen"] = V[len(V) - n:]
            e["n"] = n
        elif k == "map":
            P, V = self.args(a)
            if not P or A["sid"].startswith("map") and depth > 2:
                return None
            m = len(P) - 1
            if m > 3:
                return None
            e["m"], e["n"] = m, rng.randint(1, 2)
            sid = f"map{a}x{e['n']}"
            size = None if size is None else size * e["n"]
        return self.put(e, sid, size)

    def args(self, i):
        """Primitive keys and parameters to evaluate an expression with"""
        rng = self.rng
        e = self.exprs[i]
        k = e["k"]
        if k == "raw":
            kinds, pars, _ = RAW[e["t"]]
            P = [rng.choice(self.inv[KIND[c]]) for c in kinds]
            V = [{"d": gen._dirvec, "b": lambda r: r.random() < .5, "s": num}[c](rng) for c in pars]
            return P, V
        if k == "spec":
            P, V = rng.choice(e["variants"])
            if rng.random() < .5 and V:
                V = [round(v + rng.uniform(-1, 1), 3) if isinstance(v, float) else
                     [round(x + rng.uniform(-1, 1), 3) for x in v] if isinstance(v, list) and e["t"] == "Fix" else v
                     for v in V]
            return list(P), list(V)
        if k == "sum":
            (pa, va), (pb, vb) = self.args(e["a"]), self.args(e["b"])
            return pa + pb, va + vb
        P, V = self.args(e["a"])
        if k == "scal":
            return P, V + [rng.choice([2.0, 3.0]) if e["how"] == "pow" else num(rng)]
        if k == "cons":
            size = e["size"]
            if size and size > 1 and rng.random() < .6:
                return P, V + [[num(rng) for _ in range(size)]]
            return P, V + [num(rng)]
        if k == "part":
            return P, V[:len(V) - e["n"]]
        if k == "map":
            first, PV = [P[0]], list(V)
            for _ in range(e["n"] - 1):
                p, v = self.args(e["a"])
                first.append(p[0])
                PV += v
            return first + P[1:], PV
        return P, V


def gen_recipe(rng):
    prims, info = gen.gen_geometry(rng, n_axes=rng.choice([0, 1, 1, 2]), axis_p=.7, extras=2)
    rng2 = rng
    for k in range(2):
        prims.append({"key": f"Q{k}", "kind": "quad", "truth": gen.box_pts(
            rng2.uniform(0, 3), rng2.uniform(0, 3), rng2.uniform(3.5, 6), rng2.uniform(3.5, 6))})
        prims.append({"key": f"L{k}", "kind": "line", "truth": [[gen.r(rng.uniform(0, 4)), gen.r(rng.uniform(0, 4))],
                                                              [gen.r(rng.uniform(5, 8)), gen.r(rng.uniform(0, 4))]]})
    prims = [p for p in prims if "ref" not in json.dumps(p["truth"])]
    keys = {p["key"] for p in prims}
    return {"prims": prims, "info": {"axes": [a for a in info["axes"] if a["key"] in keys]}}


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    pick = gen.pooled(PROP, seed, index, gen_recipe, block=320, size=40)
    rec = pick(rng)
    prims = rec["prims"]
    G = gen.truth_geo(prims)
    geos = []
    for sc in (0.0, .1, .4):
        gen.perturb(rng, prims, sc)
        geos.append({p["key"]: p["pts"] for p in prims})
    mk = Maker(rng, prims, G, rec["info"])
    shared = []
    for _ in range(rng.randint(3, 6)):
        shared.append(mk.leaf_raw() if rng.random() < .55 else mk.leaf_spec())
    if rng.random() < .6:       # something to add to the first
        e = mk.exprs[shared[0]]
        if e["k"] == "raw":
            same = [n for n, v in RAW.items() if v[2][0] == e["sid"][0]]
            j = mk.leaf_raw(rng.choice(same))
            shared.append(j)
    for _ in range(rng.randint(0, 4)):
        j = mk.derive(shared)
        if j is not None:
            shared.append(j)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    faults, actors = [], []
    for a in range(n):
        mine = list(shared)
        ops = []
        last = []
        for i in range(rng.randint(10, 25) if n == 1 else rng.randint(6, 14)):
            c = rng.random()
            if c < .25:
                j = mk.derive(mine)
                if j is not None:
                    ops.append({"op": "derive", "e": j})
                    if rng.random() < .1:
                        faults.append(gen.line_fault(rng, len(ops) - 1, a, hi=1500))
                    mine.append(j)
                    continue
            if c < .8:
                if last and rng.random() < .35:
                    op = dict(rng.choice(last))
                    op["g"] = rng.choice([op["g"], rng.randrange(3)])
                else:
                    e = rng.choice(mine[-4:] if rng.random() < .5 else mine)
                    P, V = mk.args(e)
                    op = {"op": "eval", "e": e, "prims": P, "params": V, "g": rng.randrange(3)}
                    last.append(op)
                    op = dict(op)
                op["via"] = rng.choice(["call"] * 5 + ["layout"] * 3 + ["layout+"] * 2)
                d = rng.random()
                if d < .2 and op["via"] == "call":
                    faults.append(gen.line_fault(rng, len(ops), a, hi=3000))
                elif d < .3:
                    faults.append(gen.seam_fault(rng, len(ops), a, names=("user.child_params", "user.assem"), max_nth=3,
                                                 excs=["RuntimeError", "ValueError", "KeyboardInterrupt"]))
            elif c < .9:
                e = rng.choice(mine)
                P, V = mk.args(e)
                why = rng.choice(["prims", "params", "type", "sum", "mul", "str"])
                op = {"op": "bad", "e": e, "prims": P, "params": V, "g": 0, "why": why, "b": rng.choice(mine)}
            elif c < .94 and last:
                op = {"op": "solve", "of": [dict(x) for x in rng.sample(last, min(len(last), rng.randint(1, 2)))],
                      "g": rng.randrange(3)}
                if rng.random() < .5:
                    faults.append(gen.line_fault(rng, len(ops), a, hi=20000))
            else:
                op = {"op": "forget"}
            ops.append(op)
        actors.append({"ops": ops})
    for p in prims:
        p.pop("pts", None), p.pop("truth", None)
    scn = {"prop": PROP, "prims": prims, "geos": geos, "exprs": mk.exprs, "shared": shared, "actors": actors,
           "faults": faults}
    if n > 1:
        scn["sched"] = gen.sched_policy(rng, hot=["constructions.py", "containers.py", "constraints.py"], horizon=30000,
                                        fns=["assem_from_tree", "root_params", "root_prim_keys", "child_prim_keys",
                                             "transform_sum", "__call__"])
    return scn


def leaf(e):
    """A freshly built leaf object"""
    ns = build.mods()
    if e["k"] == "raw":
        return getattr(ns.con, e["t"])(**({"side": e["side"]} if "side" in e else {}))
    return build.make_cons(e["t"], e["kw"])


def make(e, obj):
    """The object of an expression; `obj(i)` gives operands"""
    con, pr = build.mods().con, build.mods().pr
    k = e["k"]
    if k in ("raw", "spec"):
        return leaf(e)
    a = obj(e["a"])
    if k == "sum":
        return a + obj(e["b"])
    if k == "mul":
        return e["by"] * a if e["left"] else a * e["by"]
    if k == "div":
        return a / e["by"]
    if k == "neg":
        return -a
    if k == "pow":
        return a ** e["by"]
    if k == "scal":
        s = con.Scalar()
        return {"mul": lambda: a * s, "rmul": lambda: s * a, "div": lambda: a / s, "pow": lambda: a ** s}[e["how"]]()
    if k == "cons":
        return con.transform_constraint(a)
    if k == "part":
        return con.transform_partial(a, *[build.dec_param(v) for v in e["frozen"]])
    if k == "map":
        return con.transform_map(a, (e["n"] + e["m"]) * [pr.Primitive])
    raise KeyError(k)


def nargs(exprs, i):
    """Number of primitives and parameters"""
    e = exprs[i]
    k = e["k"]
    if k == "raw":
        return len(RAW[e["t"]][0]), len(RAW[e["t"]][1])
    if k == "spec":
        P, V = e["variants"][0]
        return len(P), len(V)
    p, v = nargs(exprs, e["a"])
    if k == "sum":
        p2, v2 = nargs(exprs, e["b"])
        return p + p2, v + v2
    if k in ("scal", "cons"):
        return p, v + 1
    if k == "part":
        return p, v - e["n"]
    if k == "map":
        return e["n"] + e["m"], v * e["n"]
    return p, v


def value(exprs, i, P, V, root, G):
    """What an expression must evaluate to: arithmetic on freshly built leaves"""
    e = exprs[i]
    k = e["k"]
    if k in ("raw", "spec"):
        params = tuple(build.dec_param(v) for v in V)
        if e.get("t") == "Grid":
            params = tuple(tuple(map(float, p)) if isinstance(p, np.ndarray) else p for p in params)
        got = np.asarray(leaf(e)(tuple(root[p] for p in P), *params), float).ravel()
        # independent formula
        try:
            if k == "raw":
                ref = [V[0]] if e["t"] == "Scalar" else model.measure(e["t"], {"side": e.get("side")}, P, G, V)
            else:
                ref = model.residual({"type": e["t"], "kw": e["kw"], "prims": P, "params": V}, G)
        except ZeroDivisionError:
            return got
        ref = np.asarray(ref, float).ravel()
        # (zero-length lines have no direction)
        if np.all(np.isfinite(ref)) and np.all(np.isfinite(got)) and not common.same_multiset(got, ref, 1e-6):
            raise Violation("value", f"a fresh {e['t']} {e.get('kw') or e.get('side') or ''} on {P} with {V} gives "
                                     f"{got.tolist()}, the geometry {ref.tolist()}")
        return got
    if k == "sum":
        p, v = nargs(exprs, e["a"])
        x, y = value(exprs, e["a"], P[:p], V[:v], root, G), value(exprs, e["b"], P[p:], V[v:], root, G)
        return x + y
    if k == "map":
        p, v = nargs(exprs, e["a"])
        rest = list(P[e["n"]:])
        return np.concatenate([value(exprs, e["a"], [P[j]] + rest, V[j * v:(j + 1) * v], root, G)
                               for j in range(e["n"])])
    if k == "part":
        return value(exprs, e["a"], P, list(V) + list(e["frozen"]), root, G)
    if k in ("scal", "cons"):
        x = value(exprs, e["a"], P, V[:-1], root, G)
        with np.errstate(all="ignore"):
            if k == "cons":
                return x - np.asarray(V[-1], float)
            return {"mul": x * V[-1], "rmul": x * V[-1], "div": x / V[-1], "pow": x ** V[-1]}[e["how"]]
    x = value(exprs, e["a"], P, V, root, G)
    with np.errstate(all="ignore"):
        return {"mul": lambda: x * e["by"], "div": lambda: x / e["by"], "neg": lambda: -x, "pow": lambda: x ** e["by"]}[k]()


def text(exprs, i):
    e = exprs[i]
    k = e["k"]
    if k in ("raw", "spec"):
        return e["t"] + (str(e.get("kw") or e.get("side") or ""))
    a = text(exprs, e["a"])
    return {"sum": lambda: f"({a} + {text(exprs, e['b'])})", "mul": lambda: f"({a} * {e['by']})",
            "div": lambda: f"({a} / {e['by']})", "neg": lambda: f"-{a}", "pow": lambda: f"({a} ** {e['by']})",
            "scal": lambda: f"({a} {e['how']} Scalar)", "cons": lambda: f"constraint({a})",
            "part": lambda: f"partial({a}, {e['frozen']})", "map": lambda: f"map({a}, {e['n']})"}[k]()


def same(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    bad = ~(np.isfinite(a) & np.isfinite(b))
    ok = np.abs(a - b) <= tol * (1 + np.abs(b))
    return bool(np.all(ok | (bad & (np.isfinite(a) == np.isfinite(b)))))


def body_of(scn, a, shared, roots, geos, holder):
    ns = build.mods()
    stats = holder["stats"]
    exprs = scn["exprs"]

    def body(sim):
        objs = dict(shared)
        dumps = {i: snap.node_dump(o) for i, o in objs.items()}
        first, layouts = {}, {}
        upset = False
        prim_dumps = [snap.node_dump(r) for r in roots]

        def params_of(i, V):
            out = tuple(build.dec_param(v) for v in V)
            if exprs[i].get("t") == "Grid":
                out = tuple(tuple(map(float, p)) if isinstance(p, np.ndarray) else p for p in out)
            return out

        def check_value(i, op, got, where):
            with world.paused():
                ref = value(exprs, i, op["prims"], op["params"], roots[op["g"]], geos[op["g"]])
            got = np.asarray(got, float).ravel()
            if not same(got, ref):
                raise Violation("value", f"{where}: {text(exprs, i)} on {op['prims']} with {op['params']} gives "
                                         f"{got.tolist()}, its operands {ref.tolist()}")
            key = json.dumps([i, op["prims"], op["params"], op["g"]])
            if key in first and not same(got, first[key], 1e-12):
                raise Violation("not-same", f"{where}: {text(exprs, i)} on {op['prims']} with {op['params']} gave "
                                            f"{first[key].tolist()} before and gives {got.tolist()} now")
            first.setdefault(key, got)

        def check_objects(where):
            for i, o in objs.items():
                d = snap.diff(dumps[i], snap.node_dump(o))
                if d:
                    raise Violation("changed", f"{where}: {text(exprs, i)} itself changed: {d}")
            for n, (r, d0) in enumerate(zip(roots, prim_dumps)):
                d = snap.diff(d0, snap.node_dump(r))
                if d:
                    raise Violation("prims-changed", f"{where}: primitives changed: {d}")

        for n, op in enumerate(scn["actors"][a]["ops"]):
            where = f"actor {a} op {n} {op['op']}"
            if op["op"] == "nop":
                continue
            if op["op"] == "derive":
                e = exprs[op["e"]]
                if e["a"] not in objs or e.get("b", e["a"]) not in objs:
                    continue
                o = attempt(sim, n, "derive " + e["k"], lambda: make(e, objs.__getitem__))
                if not o.ok and o.fired:
                    upset = True
                    o = attempt(sim, 1000 + n, "derive again " + e["k"], lambda: make(e, objs.__getitem__))
                if not o.ok:
                    raise Violation("derive", f"{where}: {text(exprs, op['e'])} fails: {o}")
                objs[op["e"]] = o.value
                dumps[op["e"]] = snap.node_dump(o.value)
                stats["derived " + e["k"]] += 1
                check_objects(f"{where} {text(exprs, op['e'])}")
                continue
            if op["op"] == "forget":
                layouts.clear()
                first_keys = list(first)
                for k in first_keys[:len(first_keys) // 3]:
                    first.pop(k)
                continue
            if op["op"] == "eval":
                i = op["e"]
                if i not in objs:
                    continue
                obj = objs[i]
                for tr in range(2):
                    k = n if tr == 0 else 1000 + n
                    w = where + f" via {op['via']}" + (" (retry)" if tr else "")
                    # a new layout, or one more entry of an earlier one
                    g = op["g"]
                    if op["via"] == "call":
                        P = tuple(roots[g][p] for p in op["prims"])
                        o = attempt(sim, k, "call", lambda: obj(P, *params_of(i, op["params"])))
                        if o.ok:
                            check_value(i, op, o.value, f"{w} ({o})")
                    else:
                        if op["via"] == "layout" or g not in layouts:
                            lay = ns.ly.Layout(roots[g])
                            entries = []
                        else:
                            lay, entries = layouts[g]
                        before = list(lay.root_constraint.keys())
                        o = attempt(sim, k, "add", lambda: lay.add_constraint(
                            obj, tuple(op["prims"]), params_of(i, op["params"])))
                        if list(lay.root_constraint.keys()) != before:
                            entries = entries + [op]
                        if len(entries) <= 6:
                            layouts[g] = (lay, entries)
                        with world.paused():
                            got = common.flat_residuals(lay)
                            ref = [value(exprs, x["e"], x["prims"], x["params"], roots[g], geos[g]) for x in entries]
                            ref = np.concatenate(ref) if ref else np.zeros(0)
                            fin = np.isfinite(ref)
                            if fin.all() and not common.same_multiset(got, ref, 1e-7):
                                raise Violation("value", f"{w} ({o}): layout with {[text(exprs, x['e']) for x in entries]} "
                                                         f"has residuals {np.round(got, 9).tolist()}, expected "
                                                         f"{np.round(ref, 9).tolist()}")
                    stats["evaluated" if o.ok else "failed evaluations"] += 1
                    check_objects(w)
                    if o.ok:
                        break
                    upset = True
                    if not o.fired:
                        raise Violation("eval", f"{w}: {text(exprs, i)} on {op['prims']} with {op['params']} fails: {o}")
            elif op["op"] == "bad":
                i = op["e"]
                if i not in objs:
                    continue
                obj = objs[i]
                P = tuple(roots[0][p] for p in op["prims"])
                V = params_of(i, op["params"])
                wrong = roots[0][scn["prims"][0]["key"]]
                fn = {"prims": lambda: obj(P + P[-1:] if P else (wrong,), *V), "params": lambda: obj(P, *V, 1.0),
                      "type": lambda: obj((object(),) + P[1:], *V),
                      "str": lambda: obj(P, *(["x"] * len(V))) if V else obj * "x",
                      "sum": lambda: obj + objs[op["b"]] if op["b"] in objs else None,
                      "mul": lambda: obj * objs[op["b"]] if op["b"] in objs else None}[op["why"]]
                with np.errstate(all="ignore"):
                    o = attempt(sim, n, "bad " + op["why"], fn)
                if op["why"] in ("prims", "params") and o.ok:
                    raise Violation("accepted", f"{where}: {text(exprs, i)} accepts one {op['why'][:-1]} too many")
                stats["bad uses"] += 1
                upset = True
                check_objects(f"{where} {op['why']} ({o})")
            elif op["op"] == "solve":
                use = [x for x in op["of"] if x["e"] in objs]
                if not use:
                    continue
                lay = ns.ly.Layout(roots[op["g"]])
                for x in use:
                    lay.add_constraint(objs[x["e"]], tuple(x["prims"]), params_of(x["e"], x["params"]))
                with np.errstate(all="ignore"):
                    o = attempt(sim, n, "solve", lambda: ns.sv.solve(lay, max_iter=1))
                stats["solves"] += 1
                upset = True
                check_objects(f"{where} ({o})")
        # everything means what it meant
        with world.paused():
            keys = list(first)
            for key in keys[:12] + keys[-8:]:
                i, P, V, g = json.loads(key)
                got = np.asarray(objs[i](tuple(roots[g][p] for p in P), *params_of(i, V)), float).ravel()
                if not same(got, first[key], 1e-12):
                    raise Violation("not-same", f"actor {a}: {text(exprs, i)} on {P} with {V} gave {first[key].tolist()} at "
                                                f"first and gives {got.tolist()} at the end")
        holder["nontrivial"] = holder["nontrivial"] or (upset and len(first) > 0) or len(scn["actors"]) > 1
    return body


@common.guarded
def execute(scn, holder):
    world.set_eager(True)
    holder["nontrivial"] = False
    exprs = scn["exprs"]
    roots = [build.root_of([{**p, "pts": g[p["key"]]} for p in scn["prims"]]) for g in scn["geos"]]
    geos = [model.from_tree(r) for r in roots]
    shared = {}
    for i in scn["shared"]:
        shared[i] = make(exprs[i], shared.__getitem__)
    sim = common.run_bodies(scn, [body_of(scn, a, shared, roots, geos, holder) for a in range(len(scn["actors"]))])
    holder["sims"].append(sim)
    return sim.hash.hexdigest(), holder["nontrivial"]
