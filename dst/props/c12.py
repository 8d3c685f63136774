"""
C12: diagnostic plots only touch the axes they are given

Seeded histories of plots (into given axes, and as new figures) mixed with
user figure work, edits and solves of the same layouts, failures inside
matplotlib and user colour maps, and several actors plotting at once. What is
drawn is compared with the coordinates read from the primitives.
"""

import math

import numpy as np

from .. import axcfg, build, common, gen, snap, world
from ..common import Violation, attempt

PROP = "C12"
RUNS = {"quick": 600, "thorough": 14000}
RULE = ("One run = 1-3 actors, each 3-8 operations (plot into axes, new diagnostic figure, edit, solve, user figure "
        "work) over a shared pool of layouts with failing matplotlib calls and colour maps, interrupts at lines of "
        "plot_prims and a seeded schedule. Non-trivial: a plot failed and was repeated, or at least two plots "
        "succeeded. Distinct: event-log hash.")

PLOT_SEAMS = ("ax.plot", "ax.annotate", "ax.add_patch", "ax.plot", "user.cmap", "*")
FIG_SEAMS = ("ax.plot", "ax.annotate", "ax.add_patch", "axis.set_major_locator", "axis.set_minor_locator", "ax.grid",
             "ax.set_aspect", "ax.set_xlabel", "ax.set_ylabel", "plt.subplots", "*")
EXCS = ["RuntimeError", "MemoryError", "KeyboardInterrupt", "ValueError", "OSError"]
CMAPS = [None, None, "plasma", "tab10", "user", "grey", "reversed"]


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    recipes = []
    for _ in range(rng.choice([1, 1, 2])):
        rec = gen.gen_layout(rng, size=rng.choice(["xs", "xs", "s", "s", "m"]), n_random=rng.randint(0, 2),
                             perturb_scale=rng.choice([None, 0, .2]))
        gen.plain_starts(rng, rec["prims"])
        if rng.random() < .35:
            collapse(rng, rec)
        if rng.random() < .3:
            extra_polygon(rng, rec)
        if rng.random() < .3:
            gen.nest(rng, rec, rng.choice([1, 2, 3]))
        recipes.append(rec)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    actors, faults = [], []
    for a in range(n):
        spec = axcfg.gen_figure(rng, n=rng.choice([1, 2, 2, 3]), n_edits=(0, 2))
        ops = []
        for i in range(rng.randint(3, 8) if n == 1 else rng.randint(2, 4)):
            c = rng.random()
            if c < .42:
                ops.append({"op": "plot", "ax": rng.randrange(3), "r": rng.randrange(len(recipes)),
                            "tree": rng.choice(["start", "start", "solved", "sub"]), "j": rng.randrange(6),
                            "cmap": rng.choice(CMAPS)})
                d = rng.random()
                if d < .35:
                    faults.append(gen.seam_fault(rng, i, a, names=PLOT_SEAMS, max_nth=40, excs=EXCS))
                elif d < .45:
                    faults.append(gen.line_fault(rng, i, a, hi=2500))
            elif c < .78:
                op = {"op": "figure", "r": rng.randrange(len(recipes)),
                      "tree": rng.choice(["start", "start", "solved", "sub", "empty"]), "j": rng.randrange(6)}
                if rng.random() < .5:
                    op["size"] = [round(rng.uniform(1, 9), 2), round(rng.uniform(1, 9), 2)]
                if rng.random() < .5:
                    op["major"] = rng.choice([.5, 1.0, 2.0, .25])
                if rng.random() < .4:
                    op["minor"] = rng.choice([.1, .25, .5])
                d = rng.random()
                if d < .45:
                    f = gen.seam_fault(rng, i, a, names=FIG_SEAMS, max_nth=25, excs=EXCS)
                    if f["name"] in ("plt.subplots", "*"):
                        f["when"] = "before"
                    elif f["name"] not in ("ax.plot", "ax.annotate", "ax.add_patch"):
                        f["nth"] %= 2
                    faults.append(f)
                elif d < .53:
                    op.update(rng.choice([{"major": 0}, {"minor": 0}, {"size": [-1, 2]}, {"major": "x"},
                                          {"minor": -1.0}, {"size": [3]}]))
                ops.append(op)
            elif c < .86:
                ops.append({"op": "edit", "r": rng.randrange(len(recipes)), "seed": rng.randrange(1 << 20)})
            elif c < .92:
                ops.append({"op": "solve", "r": rng.randrange(len(recipes))})
            else:
                ops.append({"op": "user", "what": rng.choice(["new", "close", "focus", "draw"])})
        actors.append({"ops": ops, "fig": spec, "pyplot": rng.random() < .6})
    if n > 1:
        # in-place edits by one actor while another plots have no defined answer
        for act in actors:
            for op in act["ops"]:
                if op["op"] == "edit":
                    op.update({"op": "solve"})
    scn = {"prop": PROP, "recipes": recipes, "actors": actors, "faults": faults,
           "rc": rng.choice([{}, {}, {"lines.linewidth": 3.0}, {"axes.grid": True}])}
    if n > 1:
        scn["sched"] = gen.sched_policy(rng, hot=["ui.py", "seam", "containers.py"], horizon=6000,
                                        fns=["plot_prims", "plot_prim", "figure_prims", "plot_line", "plot_point",
                                             "plot_polygon", "make_plot", "solve_newton"])
    return scn


def collapse(rng, rec):
    """Give some lines zero length (both points at one place)"""
    for p in rec["prims"]:
        pts = p.get("pts")
        if isinstance(pts, list) and p.get("kind") == "line" and not isinstance(pts[0], dict) and rng.random() < .7:
            pts[1] = list(pts[0])


def extra_polygon(rng, rec):
    used = {p["key"] for p in rec["prims"]}
    for key in ("Tri", "Many"):
        if key in used or rng.random() < .4:
            continue
        n = 3 if key == "Tri" else rng.choice([5, 6, 8, 9, 12])
        pts = [[round(rng.uniform(-3, 6), 3), round(rng.uniform(-3, 6), 3)] for _ in range(n)]
        rec["prims"].append({"key": key, "kind": "polygon", "pts": pts, "truth": pts})


# ----------------------------------------------------------------- the oracle

class Shapes:
    """Coordinates of the points, lines and polygons below the root"""

    def __init__(self, root):
        ns = build.mods()
        self.points, self.lines, self.polys = [], [], []
        self.labels = []    # (kind, key, where, direction)
        self.flat = []      # zero-length lines: drawing them is optional
        self.ends = []
        stack = list(root.children.items())
        while stack:
            key, p = stack.pop()
            if isinstance(p, ns.pr.Point):
                self.points.append(tup(p.value))
                self.labels.append(("point", key, tup(p.value), None))
            elif isinstance(p, ns.pr.Line):
                seg = tuple(tup(c.value) for c in p.children.values())
                d = math.dist(*seg)
                (self.lines if d > 1e-9 else self.flat).append(seg)
                self.ends += list(seg)
                if d > 1e-4:
                    (x0, y0), (x1, y1) = seg
                    self.labels.append(("line", key, ((x0 + x1) / 2, (y0 + y1) / 2),
                                        math.degrees(math.atan2(y1 - y0, x1 - x0))))
            else:
                if isinstance(p, ns.pr.Polygon):
                    self.polys.append(tuple(tup(line.children["Point0"].value) for line in p.children.values()))
                    self.labels.append(("polygon", key, self.polys[-1][0], None))
                stack += list(p.children.items())


def tup(v):
    return tuple(float(x) for x in np.asarray(v, float).ravel())


def near(a, b, tol=1e-6):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def near_path(a, b):
    return len(a) == len(b) and all(near(p, q) for p, q in zip(a, b))


def near_seg(a, b):
    return near_path(a, b) or near_path(a, b[::-1])


def near_ring(a, b):
    """Same closed outline, from any vertex and in any direction"""
    n = len(b)
    for path in (a, a[:-1]) if len(a) > 1 and near(a[0], a[-1]) else (a,):
        if len(path) == n and any(near_path(path, tuple(c[(k + i) % n] for i in range(n)))
                                  for c in (b, b[::-1]) for k in range(n)):
            return True
    return False


def drawn_in(ax, old=()):
    """Points, lines, polygons drawn in `ax` by artists not in `old`"""
    from matplotlib.patches import Polygon
    from matplotlib.lines import Line2D
    from matplotlib.collections import LineCollection, PathCollection
    pts, segs, polys = [], [], []
    for art in list(ax.get_children()):
        if id(art) in old:
            continue
        if isinstance(art, Line2D):
            where, xy = segs, tuple(tup(p) for p in np.asarray(art.get_xydata()))
            if len(xy) == 1:
                where, xy = pts, xy[0]
            elif art.get_linestyle() in ("None", "none", " ", ""):
                pts.extend((p, art) for p in xy)
                continue
        elif isinstance(art, PathCollection):
            pts.extend((tup(p), art) for p in np.asarray(art.get_offsets()))
            continue
        elif isinstance(art, LineCollection):
            segs.extend((tuple(tup(p) for p in seg), art) for seg in art.get_segments())
            continue
        elif isinstance(art, Polygon):
            where, xy = polys, tuple(tup(p) for p in np.asarray(art.get_xy()))
        else:
            continue
        where.append((xy, art))
    return pts, segs, polys


def check_labels(where, ax, want, old=()):
    """Every shape is labelled with its key where it is; line labels run along the line"""
    from matplotlib.text import Annotation, Text
    rest = []
    for art in ax.get_children():
        if not isinstance(art, Text) or id(art) in old or not art.get_text():
            continue
        if isinstance(art, Annotation):
            x, y = art.xy
        elif art.get_transform() == ax.transData:
            x, y = art.get_position()
        else:
            x, y = ax.transData.inverted().transform(art.get_transform().transform(art.get_position()))
        rest.append((art.get_text(), (float(x), float(y)), float(art.get_rotation()), art))
    # lines first: their labels are the most specific
    for kind, key, at, angle in sorted(want.labels, key=lambda e: ("line", "point", "polygon").index(e[0])):
        hit = next((k for k, (text, xy, rot, art) in enumerate(rest)
                    if text.split("/")[-1] == key.split("/")[-1] and near(xy, at)
                    and (angle is None or abs((rot - angle + 90) % 180 - 90) < 1e-2)), None)
        if hit is None:
            raise Violation("label", f"{where}: no label {key!r} for the {kind} at {at}"
                                     + (f" along {angle:.4f} degrees" if angle is not None else "")
                                     + f"; labels: {[r[:3] for r in rest if near(r[1], at)][:4]}")
        if not visible(rest.pop(hit)[3]):
            raise Violation("label", f"{where}: the label {key!r} is invisible")


def visible(art):
    a = art.get_alpha()
    return art.get_visible() and (a is None or a > 0)


def check_drawing(where, ax, want, old=(), complete=True):
    """Every shape is drawn at its place in `ax` and nothing is drawn elsewhere"""
    pts, segs, polys = drawn_in(ax, old)
    for kind, expected, got, same in (("point", want.points, pts, near), ("line", want.lines, segs, near_seg),
                                      ("polygon", want.polys, polys, near_ring)):
        rest = list(got)
        for e in expected if complete else ():
            hit = next((k for k, (g, _art) in enumerate(rest) if same(g, e)), None)
            if hit is None:
                raise Violation("not-drawn", f"{where}: a {kind} at {e} isn't drawn in the target axes; drawn: "
                                             f"{[g for g, _ in rest][:4]}")
            _g, art = rest.pop(hit)
            if not visible(art):
                raise Violation("not-drawn", f"{where}: the {kind} at {e} is drawn invisibly")
            if art.axes is not ax or not placed(art, ax):
                raise Violation("not-drawn", f"{where}: the {kind} at {e} isn't in the data coordinates of the axes")
        allowed = expected + {"point": want.ends, "line": want.flat, "polygon": []}[kind]
        for g, _art in rest:
            if not any(same(g, e) for e in allowed):
                raise Violation("drawn-elsewhere", f"{where}: a {kind} is drawn at {g}, where the tree has none")


def placed(art, ax):
    """Data coordinates: the artist moves with the axes' data transform"""
    from matplotlib.collections import PathCollection
    p = np.array([[.25, .75]])
    to_display = art.get_offset_transform() if isinstance(art, PathCollection) else art.get_transform()
    return bool(np.allclose(to_display.transform(p), ax.transData.transform(p), atol=1e-6))


def axes_rest(fig, but=None):
    """State of a figure's axes except one"""
    s = axcfg.state(fig)
    keep = [x for x in s if not x[0].startswith("axes")]
    for k, ax in enumerate(fig.axes):
        if ax is not but:
            keep.append((f"axes{k}", snap_axes(s, k)))
    return tuple(keep)


def snap_axes(state, k):
    return next(x for x in state if x[0] == f"axes{k}")[1]


# ------------------------------------------------------------------ execution

class Case:
    """A layout, its solution, and the trees that get plotted"""

    def __init__(self, rec):
        ns = build.mods()
        self.lay = build.build_layout(rec)
        with world.paused():
            try:
                self.solved, _ = ns.sv.solve(self.lay, max_iter=3)
            except Exception:
                self.solved = self.lay.root_prim
        self.roots = {"start": [self.lay.root_prim], "solved": [self.solved], "sub": [],
                      "empty": [ns.ly.Layout().root_prim]}
        for r in (self.lay.root_prim, self.solved):
            for k, p in r.children.items():
                if not isinstance(p, (ns.pr.Point, ns.pr.Line)):
                    self.roots["sub"].append(p)
        if not self.roots["sub"]:
            self.roots["sub"] = [self.solved]

    def tree(self, op):
        t = self.roots[op["tree"]]
        return t[op.get("j", 0) % len(t)]

    def finite(self, root):
        return all(np.all(np.isfinite(a)) for a in snap.arrays_of(root))

    def dump(self):
        return (snap.layout_dump(self.lay, identity=True), snap.node_dump(self.solved),
                tuple(snap.node_ids(self.solved)))


def cmap_of(name):
    import matplotlib as mpl
    if name is None:
        return {}
    if name == "user":
        def user_cmap(x):
            world.user_seam("cmap")
            return (min(1.0, .2 + .5 * x), .3, .4, 1.0)
        return {"cmap": user_cmap}
    if name == "grey":
        return {"cmap": lambda x: str(round(.8 * x, 3))}
    if name == "reversed":
        return {"cmap": mpl.colormaps["viridis"].reversed()}
    return {"cmap": mpl.colormaps[name]}


def actor_body(scn, a, holder, cases, homes):
    from matplotlib import pyplot as plt
    ns = build.mods()
    import mpllayout.ui as ui
    stats = holder["stats"]
    alone = len(scn["actors"]) == 1
    fig, axs = homes[a]
    axs = [axs[k["key"]] for k in scn["actors"][a]["fig"]["axes"]]

    def same_but(where, i, op, run, target=None, new_figure=False):
        """Run one plot; everything but the target is as before"""
        with world.paused():
            case = cases[op["r"]]
            p0 = snap.process_state()
            others = [(k, f, (axes_rest(f, target) if f is fig else axcfg.state(f)))
                      for k, (f, _) in enumerate(homes) if alone or f is fig]
            dump = case.dump() if "r" in op else None
        o = attempt(sim_of(), i, where.split(": ")[-1], run)
        with world.paused():
            if dump is not None:
                d = snap.diff(dump, case.dump())
                if d:
                    raise Violation("prims-changed", f"{where} ({o}): {d}")
            for k, f, s in others:
                d = snap.diff(s, axes_rest(f, target) if f is fig else axcfg.state(f))
                if d:
                    raise Violation("other-figure", f"{where} ({o}): figure of actor {k} outside the target: {d}")
            p1 = snap.process_state()
            for k in snap.state_diff(p0, p1):
                if k == "pyplot":
                    if not alone:
                        continue
                    was, now = p0[k], p1[k]
                    if new_figure and o.ok:
                        f = o.value[0] if isinstance(o.value, tuple) else None
                        num = getattr(f, "number", None)
                        if tuple(x for x in now[0] if x != num) == was[0]:
                            continue
                    raise Violation("pyplot", f"{where} ({o}): open figures {was} became {now}")
                raise Violation("process-state", f"{where} ({o}): {k} changed from {snap._short(p0[k])} to "
                                                 f"{snap._short(p1[k])}")
        return o

    sims = []

    def sim_of():
        return sims[0]

    def body(sim):
        sims.append(sim)
        extra = []
        made = holder["made"]
        for i, op in enumerate(scn["actors"][a]["ops"]):
            kind = op["op"]
            where = f"actor {a} op {i}: {kind}"
            if kind == "nop" or op.get("r", 0) >= len(cases):
                continue
            case = cases[op["r"]] if "r" in op else None
            if kind == "plot":
                ax = axs[op["ax"] % len(axs)]
                root = case.tree(op)
                where += f" {op['tree']} tree with cmap {op['cmap']}"
                for tr in range(2):
                    with world.paused():
                        want = Shapes(root)
                        old = {id(x): x for x in ax.get_children()}
                    o = same_but(where, i + 1000 * tr, op, lambda: ui.plot_prims(ax, root, **cmap_of(op["cmap"])),
                                 target=ax)
                    with world.paused():
                        gone = [x for k, x in old.items() if not any(x is y for y in ax.get_children())]
                        if gone:
                            raise Violation("target-axes", f"{where} ({o}): removed {gone[0]!r} from the axes")
                        if case.finite(root):
                            check_drawing(f"{where} ({o})", ax, want, old, complete=o.ok)
                            if o.ok:
                                check_labels(where, ax, want, old)
                    if o.ok:
                        stats["plots"] += 1
                        break
                    stats["plots failed"] += 1
                    if not common.raising(o.fired) and case.finite(root):
                        raise Violation("plot-failed", f"{where}{' (again)' if tr else ''}: {o}")
            elif kind == "figure":
                root = case.tree(op)
                kw = {}
                if "size" in op:
                    kw["fig_size"] = tuple(op["size"])
                if "major" in op:
                    kw["major_tick_interval"] = op["major"]
                if "minor" in op:
                    kw["minor_tick_interval"] = op["minor"]
                bad = bad_args(op)
                where += f" of {op['tree']} tree {kw}"
                for tr in range(2):
                    with world.paused():
                        want = Shapes(root)
                        before = open_figures()
                    o = same_but(where, i + 1000 * tr, op, lambda: ui.figure_prims(root, **kw), new_figure=True)
                    with world.paused():
                        if o.ok:
                            f, ax = o.value
                            made[id(f)] = f
                            if not bad:
                                check_figure(where, f, ax, op)
                                if case.finite(root):
                                    check_drawing(where, ax, want)
                                    check_labels(where, ax, want)
                                plotted(where, plt, f, before)
                    if o.ok:
                        stats["figures"] += 1
                        break
                    stats["figures failed"] += 1
                    if bad:
                        break
                    if not common.raising(o.fired) and case.finite(root):
                        raise Violation("plot-failed", f"{where}{' (again)' if tr else ''}: {o}")
            elif kind == "edit":
                rng = gen.rng_for("edit", op["seed"], 0)
                for arr in {id(x): x for x in snap.arrays_of(case.lay.root_prim)}.values():
                    if arr.size == 2 and arr.flags.writeable:
                        arr[...] = arr + np.array([rng.uniform(-.3, .3), rng.uniform(-.3, .3)])
            elif kind == "solve":
                o = attempt(sim, i, "solve", lambda: ns.sv.solve(case.lay, max_iter=2))
                stats["solves"] += 1
            elif kind == "user":
                with world.paused():
                    if op["what"] == "new":
                        f = plt.figure(figsize=(2, 2))
                        made[id(f)] = f
                        extra.append(f)
                    elif op["what"] == "close" and extra:
                        f = extra.pop()
                        plt.close(f)
                        made.pop(id(f), None)
                    elif op["what"] == "focus" and extra:
                        plt.figure(extra[-1].number)
                    elif op["what"] == "draw":
                        try:
                            fig.canvas.draw()
                        except Exception:
                            pass
    return body


def bad_args(op):
    size = op.get("size", [1, 1])
    return (len(size) != 2 or min(size) <= 0 or
            any(not isinstance(op.get(k, 1.0), (int, float)) or op.get(k, 1.0) <= 0 for k in ("major", "minor")))


def check_figure(where, fig, ax, op):
    size = op.get("size", [8, 8])
    if not near(tup(fig.get_size_inches()), tuple(map(float, size))):
        raise Violation("figure", f"{where}: the figure is {tup(fig.get_size_inches())} inches")
    if ax.figure is not fig or len(fig.axes) != 1:
        raise Violation("figure", f"{where}: the axes are not the figure's only axes")
    for axis in (ax.xaxis, ax.yaxis):
        for what, loc, want in (("major", axis.get_major_locator(), op.get("major", 1.0)),
                                ("minor", axis.get_minor_locator(), op.get("minor", 1 / 8))):
            steps = np.diff(np.asarray(loc.tick_values(0, 10 * want), float))
            if not steps.size or not np.allclose(steps, want, rtol=1e-6):
                raise Violation("figure", f"{where}: {what} ticks every {steps[:3].tolist()} instead of {want}")
        if not all(g.get_visible() for g in axis.get_gridlines()):
            raise Violation("figure", f"{where}: grid lines aren't shown at the major ticks")
    aspect = ax.get_aspect()
    if aspect not in (1, 1.0, "equal"):
        raise Violation("figure", f"{where}: aspect is {aspect}")


def open_figures():
    from matplotlib._pylab_helpers import Gcf
    return [m.canvas.figure for m in Gcf.get_all_fig_managers()]


def plotted(where, plt, fig, before):
    if not plt.fignum_exists(getattr(fig, "number", -1)):
        raise Violation("figure", f"{where}: the new figure isn't open in pyplot")
    # not by number: the number of another actor's figure is free once it failed
    if any(fig is f for f in before):
        raise Violation("figure", f"{where}: figure {fig.number} was open before")


@common.guarded
def execute(scn, holder):
    import matplotlib as mpl
    from matplotlib import pyplot as plt
    from matplotlib._pylab_helpers import Gcf
    world.set_eager(True)
    if scn.get("rc"):
        mpl.rcParams.update(scn["rc"])
    cases = [Case(r) for r in scn["recipes"]]
    homes = [axcfg.new_figure(act["fig"], True, act.get("pyplot")) for act in scn["actors"]]
    holder["made"] = {id(m.canvas.figure): m.canvas.figure for m in Gcf.figs.values()}
    for fig, _ in homes:
        try:
            axcfg.state(fig)
        except Exception:
            pass
    n = len(scn["actors"])
    sim = common.run_bodies(scn, [actor_body(scn, a, holder, cases, homes) for a in range(n)])
    holder["sims"].append(sim)
    left = [m.canvas.figure for m in Gcf.figs.values()]
    stray = [f for f in left if id(f) not in holder["made"]]
    if stray:
        raise Violation("stray-figure", f"{len(stray)} open figures that no successful call returned: "
                                        f"{[f.number for f in stray]}")
    missing = [f for f in holder["made"].values() if not any(f is g for g in left)]
    if missing:
        raise Violation("figure-closed", f"figures {[f.number for f in missing]} were closed by someone else")
    st = holder["stats"]
    good = st["plots"] + st["figures"]
    return sim.hash.hexdigest(), good >= 2 or (good and st["plots failed"] + st["figures failed"])
