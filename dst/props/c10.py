"""
C10: the measure-solve-update loop settles on a consistent figure

A figure goes through rounds of update_layout_constraints, solve and
update_subplots with failures, interrupts, skipped steps and user edits in the
early rounds. After a few undisturbed rounds the drawn figure itself must
satisfy every constraint, and a further round must change nothing.
"""

import random

import numpy as np

from .. import axcfg, build, common, gen, model, snap, world
from ..common import Violation, attempt

PROP = "C10"
RUNS = {"quick": 260, "thorough": 5000}
RULE = ("One run = 1-2 actors, each 1-4 disturbed rounds of measuring, solving and updating (failures, interrupts, "
        "skipped steps, user edits of ticks, sides, sizes, positions) and then 2-4 undisturbed rounds and one more. Non-trivial: a step "
        "failed or an edit changed the figure before the undisturbed rounds. Distinct: event-log hash.")

CLEAN, MOST = 2, 4      # undisturbed rounds it takes, and may take
TOL = 1e-5


def split(rng, total, n):
    w = [rng.uniform(.7, 1.3) for _ in range(n)]
    return [total * x / sum(w) for x in w]


def gen_recipe(rng):
    """Axes in rows and columns, all gaps between decorations given"""
    nr, nc = rng.choice([(1, 1)] * 5 + [(1, 2), (2, 1)] * 2 + [(1, 3), (2, 2)])
    W, H = rng.uniform(2.4, 3.4) * nc + .6, rng.uniform(2.2, 3.2) * nr + .6
    ox, oy = (0.0, 0.0) if rng.random() < .4 else (rng.uniform(-4, 4), rng.uniform(-4, 4))
    fk = rng.choice(["Figure", "Figure", "Page"])
    pool = ["Axes0", "Axes1", "Axes2", "Axes10", "MyAxes", "left"]
    rng.shuffle(pool)
    axes = []
    for k in range(nr * nc):
        o = {"xaxis": rng.random() < .8, "yaxis": rng.random() < .8, "twinx": False, "twiny": False}
        if k == 0 and not (o["xaxis"] or o["yaxis"]):
            o["xaxis"] = True
        axes.append({"key": pool[k], "opts": o, "xside": rng.choice(["bottom", "top"]),
                     "yside": rng.choice(["left", "right"]), "row": k // nc, "col": k % nc})
    T = .25

    def spans(group, c, total):
        """Frame intervals along the direction `c`, in increasing order of coordinate"""
        lo, hi = ("left", "right") if c == "x" else ("bottom", "top")
        other = "y" if c == "x" else "x"
        gaps = [rng.uniform(.08, .3) for _ in range(len(group) + 1)]
        thick = [T if a["opts"][other + "axis"] else 0 for a in group]
        rest = total - sum(gaps) - sum(thick)
        ws = split(rng, rest, len(group))
        pos, out = 0.0, []
        for a, g, t, w in zip(group, gaps, thick, ws):
            pos += g
            if t and a[other + "side"] == lo:
                pos += t
            out.append((pos, pos + w))
            pos += w
            if t and a[other + "side"] == hi:
                pos += t
        return out

    rows = [[a for a in axes if a["row"] == i] for i in range(nr)]
    cols = [[a for a in axes if a["col"] == j][::-1] for j in range(nc)]      # bottom to top
    for g in rows:
        for a, s in zip(g, spans(g, "x", W)):
            a["x"] = s
    for g in cols:
        for a, s in zip(g, spans(g, "y", H)):
            a["y"] = s
    prims = [{"key": fk, "kind": "quad", "truth": gen.box_pts(ox, oy, ox + W, oy + H)}]
    for a in axes:
        frame = gen.box_pts(ox + a["x"][0], oy + a["y"][0], ox + a["x"][1], oy + a["y"][1])
        truth = {"Frame": frame}
        (xa, ya), (xb, yb) = frame[0], frame[2]
        for c in "xy":
            if a["opts"][c + "axis"]:
                s = a[c + "side"]
                truth[c.upper() + "Axis"] = gen.axis_box(frame, s, T)
                f, d = rng.choice([.5, rng.uniform(.1, .9)]), T + rng.uniform(.05, .2)
                lab = {"bottom": [xa + f * (xb - xa), ya - d], "top": [xa + f * (xb - xa), yb + d],
                       "left": [xa - d, ya + f * (yb - ya)], "right": [xb + d, ya + f * (yb - ya)]}[s]
                truth[c.upper() + "AxisLabel"] = [gen.r(lab[0]), gen.r(lab[1])]
        prims.append({"key": a["key"], "kind": "axes", "opts": a["opts"], "truth": truth})
    if rng.random() < .3:
        prims = prims[1:] + prims[:1]
    G = gen.truth_geo(prims)
    cons = []

    def add(t, P, params=(), **kw):
        s = gen.fill({"type": t, "kw": kw, "prims": list(P), "params": list(params)}, G)
        s["key"] = ""
        cons.append(s)

    add("Box", [fk])
    add("Fix", [fk + "/Line0/Point0"])
    for a in axes:
        add("Box", [a["key"] + "/Frame"])

    def outer(a, side):
        """The outermost decoration of the axes on a side"""
        c = "y" if side in ("left", "right") else "x"
        if a["opts"][c + "axis"] and a[c + "side"] == side:
            return f"{a['key']}/{c.upper()}Axis"
        return a["key"] + "/Frame"

    for c, groups in (("x", rows), ("y", cols)):
        lo, hi = ("left", "right") if c == "x" else ("bottom", "top")
        dim = "Width" if c == "x" else "Height"
        free_fig = rng.random() < .5
        if not free_fig:
            add(dim, [fk])
        for gi, g in enumerate(groups):
            q = outer(g[0], lo)
            if rng.random() < .7:
                add("InnerMargin", [q, fk], side=lo)
            else:
                add("XDistance" if c == "x" else "YDistance", [fk + "/Line0/Point0", q + "/Line0/Point0"])
            add("InnerMargin", [outer(g[-1], hi), fk], side=hi)
            for a, b in zip(g, g[1:]):
                qa, qb = outer(a, hi), outer(b, lo)
                if rng.random() < .5:
                    add("OuterMargin", [qa, qb], side=hi)
                else:
                    add("OuterMargin", [qb, qa], side=lo)
            # frame sizes: all given, or one follows from the figure
            fs = [a["key"] + "/Frame" for a in g]
            flex = None if (free_fig and gi == 0) else rng.randrange(len(fs))
            for k, f in enumerate(fs):
                if flex is None or k != flex:
                    if flex is not None and rng.random() < .4:
                        line = "/Line0" if c == "x" else "/Line1"
                        add("RelativeLength", [f + line, fs[flex] + line])
                    else:
                        add(dim, [f])
    ths = []
    for a in axes:
        for c in "xy":
            if not a["opts"][c + "axis"]:
                continue
            C = c.upper()
            q = f"{a['key']}/{C}Axis"
            add(f"Position{C}Axis", [a["key"]], side=a[c + "side"])
            if c == "x" and rng.random() < .25:
                ths.append({"type": "u:nested", "kw": {}, "prims": [q], "params": [None]})
            else:
                add("Box", [q])
                ths.append({"type": f"{C}AxisThickness", "kw": {}, "prims": [q], "params": [None]})
            if rng.random() < .7:
                lab = f"{a['key']}/{C}AxisLabel"
                add(f"Position{C}AxisLabel", [a["key"]], twin=False)
                # distance from the outer edge of the ticks
                edge = {"bottom": "/Line0/Point0", "top": "/Line1/Point1", "left": "/Line0/Point0",
                        "right": "/Line1/Point1"}[a[c + "side"]]
                add("YDistance" if c == "x" else "XDistance", [q + edge, lab])
    for c in "XY":
        g = [s for s in ths if s["type"] == c + "AxisThickness"]
        if len(g) > 1 and rng.random() < .35:
            ths = [s for s in ths if s not in g]
            ths.append({"type": "t:map", "kw": {"c": c.lower(), "n": len(g)},
                        "prims": [s["prims"][0] for s in g], "params": [None] * len(g)})
    for s in ths:
        s["key"] = rng.choice(["", "", f"thick {len(cons)}"])
        cons.append(s)
    if rng.random() < .6:
        rng.shuffle(cons)
    gen.perturb(rng, prims, rng.choice([.02, .05, .1]))
    for p in prims:
        p.pop("truth", None)
    return {"prims": prims, "cons": cons, "fig": fk, "axes": axes}


def tick_edit(rng):
    """Edits after which the thickness does not depend on the size of the axes"""
    c = rng.choice("xy")
    d = rng.random()
    if d < .45:
        return {"c": c, "what": "params", "kw": {k: v for k, v in {
            "labelsize": rng.choice([4, 8, 12, 15]), "length": rng.choice([0, 3.5, 10]), "pad": rng.choice([0, 3.5, 9]),
            "direction": rng.choice(["in", "out", "inout"]), "labelrotation": rng.choice([0, 30, 90]),
            "width": rng.choice([.5, 3])}.items() if rng.random() < .5}}
    if d < .7:
        return {"c": c, "what": "ticks", "ticks": rng.choice([[], [.5], [.25, .5, .75]]),
                "labels": rng.choice([None, "lab", "label", "$x^2$", "two\nlines"])}
    if d < .8:
        return {"c": c, "what": "label", "text": rng.choice(["", "time / s", "$\\sqrt{x}$"]),
                "size": rng.choice([6, 10, 20]), "visible": rng.random() < .7, "pad": 4}
    if d < .88:
        return {"c": c, "what": "labels_off", "on": False}
    if d < .94:
        return {"c": c, "what": rng.choice(["title", "plot0", "grid", "spine"])}
    return {"c": c, "what": rng.choice(["hide", "show", "show"])}


def geometry_edit(rng):
    """Edits that the next update takes back"""
    c = rng.choice("xy")
    d = rng.random()
    if d < .3:
        return {"c": c, "what": "size", "size": [round(rng.uniform(2, 8), 2), round(rng.uniform(2, 8), 2)]}
    if d < .6:
        return {"c": c, "what": "position", "pos": [round(rng.uniform(.1, .4), 3) for _ in range(4)]}
    return {"c": c, "what": "side", "side": rng.randrange(2)}


def gen_actor(rng, a, rec, faults):
    n = len(rec["axes"])
    setup = [[tick_edit(rng) for _ in range(rng.randint(0, 4))] for _ in range(n)]
    rounds = []
    op = 0
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        r = {"edits": [[rng.randrange(n), geometry_edit(rng) if rng.random() < .5 else tick_edit(rng)]
                       for _ in range(rng.choice([0, 1, 1, 2]))],
             "skip": [s for s in ("refresh", "solve", "update") if rng.random() < .12],
             "retry": rng.random() < .4, "from": rng.choice(["base", "chain", "chain", "resume"]),
             "max_iter": rng.choice([20, 20, 20, 1]), "subset": rng.random() if rng.random() < .1 else None,
             "drop_label": rng.random() < .1}
        d = rng.random()
        if d < .65:
            which = rng.choice(["refresh", "solve", "update", "update"])
            i = op + ("refresh", "solve", "update").index(which)
            if which == "refresh":
                f = gen.seam_fault(rng, i, a, names=("axis.get_tightbbox", "axis.get_ticks_position", "*"), max_nth=5,
                                   excs=["RuntimeError", "MemoryError", "KeyboardInterrupt", "ValueError"])
            elif which == "solve":
                f = gen.line_fault(rng, i, a, hi=20000) if rng.random() < .5 else gen.seam_fault(
                    rng, i, a, names=("lstsq", "jit.call", "*"), max_nth=6)
            else:
                f = gen.seam_fault(rng, i, a, names=("fig.set_size", "ax.set_position", "axis.set_label_coords",
                                                     "axis.set_ticks_position", "*"), max_nth=8,
                                   excs=["RuntimeError", "MemoryError", "KeyboardInterrupt", "OSError"])
            faults.append(f)
        rounds.append(r)
        op += 3
    final = rng.choice(["base", "chain", "chain", "resume"])
    return {"ops": rounds, "setup": setup, "final": final, "create": rng.random() < .5,
            "dpi": rng.choice([50, 72, 100, 100])}


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    lane = index % 8
    pick = gen.pooled(PROP + f".{lane}", seed, index, gen_recipe, block=480, size=7)
    j = index // 8
    n = 2 if rng.random() < .1 else 1
    faults = []
    recs = [pick(rng, j - a) for a in range(n)]
    actors = [gen_actor(rng, a, recs[a], faults) for a in range(n)]
    scn = {"prop": PROP, "designs": recs, "actors": actors, "faults": faults}
    if n > 1:
        scn["sched"] = gen.sched_policy(rng, hot=["matplotlibutils.py", "layout.py"], horizon=20000,
                                        fns=["update_subplots", "update_layout_constraints", "solve"])
    return scn


def edit(fig, ax, e):
    if e["what"] == "plot0":
        ax.plot([.1, .9], [.2, .8])
        ax.set_xlim(0, 1), ax.set_ylim(0, 1)
    else:
        axcfg.edit(fig, ax, e)


def thickness(axis):
    """Inches of ticks and tick labels beyond the frame, without the axis label"""
    vis = axis.label.get_visible()
    axis.label.set_visible(False)
    try:
        return axcfg.measure(axis)
    finally:
        axis.label.set_visible(vis)


def drawn_geometry(rec, fig, axs, root):
    """What the figure shows, as coordinates of the primitives it was made from"""
    G0 = model.from_tree(root)
    org = G0.pt(rec["fig"] + "/Line0/Point0")
    W, H = map(float, fig.get_size_inches())
    c = {}

    def quad(key, x0, y0, x1, y1):
        p = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        for i in range(4):
            c[f"{key}/Line{i}/Point0"] = org + p[i]
            c[f"{key}/Line{i}/Point1"] = org + p[(i + 1) % 4]
    quad(rec["fig"], 0, 0, W, H)
    thick = {}
    for a in rec["axes"]:
        ax = axs[a["key"]]
        p = ax.get_position()
        x0, y0, x1, y1 = p.x0 * W, p.y0 * H, p.x1 * W, p.y1 * H
        quad(a["key"] + "/Frame", x0, y0, x1, y1)
        for n in ("x", "y"):
            if not a["opts"][n + "axis"]:
                continue
            axis = ax.xaxis if n == "x" else ax.yaxis
            side = axcfg.side_of(axis)
            t = thickness(axis)
            if side is None or t is None:
                return None, None
            key = f"{a['key']}/{n.upper()}Axis"
            thick[key] = t
            quad(key, *{"bottom": (x0, y0 - t, x1, y0), "top": (x0, y1, x1, y1 + t),
                        "left": (x0 - t, y0, x0, y1), "right": (x1, y0, x1 + t, y1)}[side])
            lab = axis.label.get_transform().transform(axis.label.get_position())
            c[key + "Label"] = org + np.asarray(lab, float) / float(fig.dpi)
    return model.Geo(c), thick


def body_of(scn, a, holder):
    ns = build.mods()
    stats = holder["stats"]
    act = scn["actors"][a]
    rec = scn["designs"][a]
    keys = [x["key"] for x in rec["axes"]]

    def make_layout():
        lay = ns.ly.Layout()
        for k, p in build.build_prims(rec["prims"]).items():
            lay.add_prim(p, k)
        for s in rec["cons"]:
            prims, params = build.cons_args(s)
            if s["type"] == "t:map":
                T = ns.cr.XAxisThickness if s["kw"]["c"] == "x" else ns.cr.YAxisThickness
                c = ns.con.transform_map(T(), [ns.pr.Quadrilateral] * s["kw"]["n"])
            else:
                c = build.make_cons(s["type"], s.get("kw", {}))
            lay.add_constraint(c, prims, params, key=s["key"])
        return lay

    def body(sim):
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        base = make_layout()
        me = f"actor {a} "
        if act["create"]:
            with world.paused():
                fig, axs = ns.mu.subplots(base.root_prim, rec["fig"], keys)
            fig.set_dpi(act["dpi"])
        else:
            fig = Figure(figsize=(4, 3), dpi=act["dpi"])
            FigureCanvasAgg(fig)
            axs = {k: fig.add_axes([.2, .2, .3 + .01 * i, .4]) for i, k in enumerate(keys)}
        for k, es in zip(keys, act["setup"]):
            axs[k].set_xticks([.25, .5, .75]), axs[k].set_yticks([.25, .5, .75])
            for e in es:
                edit(fig, axs[k], e)
        cur, root = base, base.root_prim
        disturbed = 0

        def one_round(r, n, calm):
            nonlocal cur, root, disturbed
            where = f"{me}round {n}" + (" (undisturbed)" if calm else "")
            for k, e in r.get("edits", ()):
                edit(fig, axs[keys[k % len(keys)]], e)
                disturbed += 1
            src = {"base": base, "chain": cur}.get(r["from"])
            if src is None:
                src = ns.ly.Layout(root, cur.root_constraint, cur.root_prim_keys, cur.root_param)
            for j, step in enumerate(("refresh", "solve", "update")):
                if step in r.get("skip", ()):
                    continue
                i = 3 * n + j
                for tr in range(2):
                    op = i if tr == 0 else 1000 + i
                    if step == "refresh":
                        o = attempt(sim, op, step, lambda: ns.ly.update_layout_constraints(src, dict(axs)))
                        if o.ok:
                            cur = o.value
                    elif step == "solve":
                        with np.errstate(all="ignore"):
                            o = attempt(sim, op, step, lambda: ns.sv.solve(
                                cur if "refresh" not in r.get("skip", ()) else src, max_iter=r["max_iter"]))
                        if o.ok:
                            root, info = o.value
                            if calm and not common.converged(info, 1e-10, 1e-7):
                                stats["did not converge"] += 1
                                return False
                    else:
                        given = axs if r.get("subset") is None else \
                            dict(random.Random(r["subset"]).sample(sorted(axs.items()), len(axs) // 2))
                        o = attempt(sim, op, step, lambda: ns.mu.update_subplots(root, rec["fig"], fig, given))
                    if o.ok:
                        break
                    stats["failed " + step] += 1
                    disturbed += 1
                    if calm:
                        raise Violation("step-failed", f"{where}: {step} fails: {o}")
                    if not (o.fired and r["retry"]):
                        break
                if not o.ok:
                    break
            return True

        def settled(rounds, lab):
            """Whether everything holds in the figure itself (False: not comparable)"""
            Gd, thick = drawn_geometry(rec, fig, axs, root)
            if Gd is None:
                raise Violation("no-side", f"{me}: after {rounds} undisturbed rounds an axis has no single tick side")
            neg = min(min(Gd.vec(k + "/Frame/Line0")[0], Gd.vec(k + "/Frame/Line1")[1]) for k in keys)
            if neg < .1:
                stats["squeezed"] += 1
                return False
            Gp = model.from_tree(root)
            for a_ in rec["axes"]:
                for c in "xy":
                    if not a_["opts"][c + "axis"]:
                        continue
                    q = f"{a_['key']}/{c.upper()}Axis"
                    want = a_[c + "side"]
                    got = axcfg.side_of(getattr(axs[a_["key"]], c + "axis"))
                    if got != want:
                        raise Violation("side", f"{me}: the ticks of {q} are on the {got}, the constraints put it on the "
                                                f"{want}")
                    v = float(Gp.vec(q + "/Line1")[1] if c == "x" else -Gp.vec(q + "/Line2")[0])
                    if not axcfg.same(v, thick[q], TOL):
                        raise Violation("thickness", f"{me}: after {rounds} undisturbed rounds {q} is {v} thick, matplotlib "
                                                     f"draws {thick[q]} inches")
            for s in rec["cons"]:
                if s["type"] in ("XAxisThickness", "YAxisThickness", "t:map", "u:nested"):
                    continue
                res = np.asarray(model.residual(s, Gd), float)
                if np.max(np.abs(res), initial=0) > TOL * 10:
                    raise Violation("drawn", f"{me}: after {rounds} undisturbed rounds the drawn figure is off by "
                                             f"{np.round(res, 6).tolist()} for {s['type']} {s['kw']} on {s['prims']} with "
                                             f"{s['params']}")
            now = [(x.label.get_visible(), x.label.get_text()) for k in keys for x in (axs[k].xaxis, axs[k].yaxis)]
            if now != lab:
                raise Violation("labels", f"{me}: axis labels changed from {lab} to {now}")
            return True

        for n, r in enumerate(act["ops"]):
            if r != "nop" and r.get("op") != "nop":
                one_round(r, n, False)
        # undisturbed from now on
        with world.paused():
            lab = [(x.label.get_visible(), x.label.get_text()) for k in keys for x in (axs[k].xaxis, axs[k].yaxis)]
        calm = {"from": act["final"], "max_iter": 40}
        for n in range(MOST):
            if not one_round(calm, 100 + n, True):
                return
            if n + 1 < CLEAN:
                continue
            with world.paused():
                try:
                    if not settled(n + 1, lab):
                        return
                    break
                except Violation:
                    if n + 1 == MOST:
                        raise
        with world.paused():
            px = axcfg.pixels(fig)
            before = drawn_geometry(rec, fig, axs, root)[0].c
        if not one_round(calm, 200, True):
            return
        with world.paused():
            after = drawn_geometry(rec, fig, axs, root)[0].c
            d = common.coords_close({k: v.tolist() for k, v in before.items()},
                                    {k: v.tolist() for k, v in after.items()}, TOL)
            if d:
                raise Violation("unsettled", f"{me}: one more round moves the figure: {d}")
            p2 = axcfg.pixels(fig)
            if p2.shape != px.shape:
                raise Violation("unsettled", f"{me}: one more round changes the figure's size in pixels")
            n = int((np.abs(p2.astype(int) - px.astype(int)) > 40).any(axis=2).sum())
            if n:
                stats["pixels changed"] += 1
        stats["settled"] += 1
        stats["rounds"] += len(act["ops"]) + CLEAN + 1
        holder["nontrivial"] = holder["nontrivial"] or disturbed > 0
    return body


@common.guarded
def execute(scn, holder):
    world.set_eager(True)
    holder["nontrivial"] = False
    sim = common.run_bodies(scn, [body_of(scn, a, holder) for a in range(len(scn["actors"]))])
    holder["sims"].append(sim)
    return sim.hash.hexdigest(), holder["nontrivial"]
