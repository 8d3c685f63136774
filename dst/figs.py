"""
Engine for the matplotlib-facing properties (C06, C07): sequences of figure
operations with faults, judged on what matplotlib reports afterwards
"""

import random

import numpy as np

from . import build, common, gen, model, snap, world
from .common import Violation, attempt
from .model import OPP

SIDES = {"x": ("bottom", "top"), "y": ("left", "right")}


# ------------------------------------------------------------------ generator

def gen_structure(rng, default_keys):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    if default_keys:
        pool = ["Axes0", "Axes1", "Axes2", "Axes10", "AxesB", "Axes_left", "Axes 3"]
    else:
        pool = list(gen.AXKEYS) + ["left panel", "a", "Axes0b", "Plot/Inner", "Group/Axes0", "Group/B"]
    rng.shuffle(pool)
    axes = []
    for k in pool[:n]:
        axes.append({"key": k, "opts": {
            "xaxis": rng.random() < .7, "yaxis": rng.random() < .7}})
    for a in axes:
        a["opts"]["twinx"] = a["opts"]["xaxis"] and rng.random() < .2
        a["opts"]["twiny"] = a["opts"]["yaxis"] and rng.random() < .2
    rng.shuffle(axes)
    fig = rng.choice(["Figure"] * 3 + ["Fig", "Page", "Group/Figure", "fig box"])
    others = rng.sample(["Guide", "P0", "Box", "Legend", "Poly"], rng.randint(0, 3))
    return {"fig": fig, "axes": axes, "others": others, "fig_first": rng.random() < .6}


def gen_states(rng, st, n):
    """Geometries of a structure; often a small or local variation of another one"""
    out = []
    base = rng.randrange(1 << 30)
    for k in range(n):
        if k == 0 or rng.random() < .5:
            base = rng.randrange(1 << 30)
            out.append(gen_state(random.Random(base), st))
        else:
            out.append(gen_state(random.Random(base), st, gen_tweak(rng, st)))
    return out


def gen_tweak(rng, st):
    """A change of one or a few things, of any magnitude"""
    def d():
        return rng.choice([-1, 1]) * rng.choice([1e-4, 1e-3, 4e-3, .02, .3]) * rng.choice([1, 1, 0])
    tw = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        what = rng.choice(["size", "origin", "frame", "frame", "side", "label"])
        if what in ("size", "origin") or not st["axes"]:
            tw["size" if what == "size" else "origin"] = [d(), d()]
        else:
            k = rng.choice(st["axes"])["key"]
            if what == "side":
                tw[f"side {k} {rng.choice('xy')}"] = True
            else:
                tw[f"{what} {k}"] = [d(), d()]
    return tw


def gen_state(rng, st, tweak={}):
    """One geometry of the structure: prim specs and expectations"""
    def tw(what):
        return tweak.get(what, [0.0, 0.0])
    scale = rng.choice([1, 1, 1, .3, 2.5])
    W, H = rng.uniform(2, 9) * scale, rng.uniform(2, 9) * scale
    c = rng.random()
    ox, oy = (0.0, 0.0) if c < .35 else (rng.uniform(-6, 6), rng.uniform(-6, 6)) if c < .9 else \
        (rng.choice([0.0, 3.0]), rng.choice([0.0, -2.0]))
    r = gen.r
    out = {}
    sides = {}
    fx, fy = ox + tw("origin")[0], oy + tw("origin")[1]
    fw, fh = (max(.3, v + t * (1 if abs(t) < .01 else W)) for v, t in zip((W, H), tw("size")))
    out[st["fig"]] = {"kind": "quad", "pts": gen.box_pts(fx, fy, fx + fw, fy + fh)}
    for a in st["axes"]:
        xa, ya = ox + rng.uniform(-.1, .6) * W, oy + rng.uniform(-.1, .6) * H
        fb = (xa, ya, xa + rng.uniform(.1, .8) * W, ya + rng.uniform(.1, .8) * H)
        dx, dy = tw(f"frame {a['key']}")
        lx, ly = tw(f"label {a['key']}")
        frame = gen.box_pts(fb[0] + dx, fb[1] + dy, fb[2] + dx, fb[3])
        pts = {"Frame": frame}
        sd = {}
        noise = rng.random() < .15
        for c in "xy":
            if not a["opts"][c + "axis"]:
                continue
            side = rng.choice(SIDES[c])
            if tweak.get(f"side {a['key']} {c}"):
                side = OPP[side]
            sd[c] = side
            for tn in ([""] + (["Twin"] if a["opts"]["twin" + c] else [])):
                s = OPP[side] if tn else side
                t = 0.0 if rng.random() < .3 else rng.uniform(.05, .5)
                q = gen.axis_box(frame, s, t)
                if noise and not tn:
                    q = [[r(v[0] + rng.uniform(-.005, .005)), r(v[1] + rng.uniform(-.005, .005))] for v in q]
                pts[f"{tn}{c.upper()}Axis"] = q
                pts[f"{tn}{c.upper()}AxisLabel"] = [r(ox + rng.uniform(-.2, 1.2) * W + lx),
                                                    r(oy + rng.uniform(-.2, 1.2) * H + ly)]
        out[a["key"]] = {"kind": "axes", "opts": a["opts"], "pts": pts}
        sides[a["key"]] = sd
    for o in st["others"]:
        x, y = rng.uniform(-2, 5), rng.uniform(-2, 5)
        kind = {"Guide": "line", "P0": "point", "Poly": "polygon"}.get(o, "quad")
        p = {"line": [[r(x), r(y)], [r(x + 1), r(y + .5)]], "point": [r(x), r(y)],
             "polygon": [[r(x), r(y)], [r(x + 1), r(y)], [r(x), r(y + 1)]],
             "quad": gen.box_pts(x, y, x + 1, y + .5)}[kind]
        out[o] = {"kind": kind, "pts": p}
    keys = list(out)
    if not st["fig_first"]:
        keys = keys[1:] + keys[:1]
    specs, groups = [], set()
    for k in keys:
        if "/" in k and k.split("/")[0] not in groups:
            g = k.split("/")[0]
            groups.add(g)
            specs.append({"key": g, "kind": "group"})
        specs.append({"key": k, **out[k]})
    return {"specs": specs, "sides": sides, "size": [r(fx + fw) - r(fx), r(fy + fh) - r(fy)],
            "origin": [r(fx), r(fy)]}


CREATE_SEAMS = ("fig.add_axes", "fig.set_size", "ax.set_position", "axis.set_label_coords",
                "axis.set_ticks_position", "*", "*")
UPDATE_SEAMS = CREATE_SEAMS[1:]
EXCS = ["RuntimeError", "MemoryError", "KeyboardInterrupt", "ValueError", "OSError"]
EDITS = ["size", "position", "ticks", "label_coords", "size", "position", "ticks", "label_coords", "label_text", "dpi", "extra_axes", "plot", "twin",
         "label_hide", "tick_params", "limits", "title", "label_position", "remove_extra", "locator"]
BADS = ["no_fig", "no_axes", "not_axes", "bad_size", "point_fig"]


def gen_actor(rng, a, structs, faults, n_ops, fault_p, bad_p, line_p=0.0):
    ops = []
    figs = 0
    for i in range(n_ops):
        c = rng.random()
        s = rng.randrange(len(structs))
        st = structs[s]
        nstates = len(st["states"])
        op = None
        if figs == 0 or c < .25:
            op = {"op": "create", "s": s, "state": rng.randrange(nstates)}
            if not (st["default"] and rng.random() < .6):
                ks = [x["key"] for x in st["axes"]]
                if rng.random() < .4:
                    ks = rng.sample(ks, rng.randint(0, len(ks)))
                op["keys"] = ks
            figs += 1
        elif c < .62:
            op = {"op": "update", "fig": rng.randrange(figs), "state": "same" if rng.random() < .3 else rng.randrange(8),
                  "subset": rng.choice([None, None, None, rng.random()])}
        elif c < .84:
            op = {"op": "edit", "fig": rng.randrange(figs), "what": rng.choice(EDITS), "seed": rng.randrange(1 << 20)}
        elif c < .89:
            op = {"op": "draw", "fig": rng.randrange(figs)}
        elif c < .92:
            op = {"op": "close", "fig": rng.randrange(figs)}
        elif c < .95:
            op = {"op": "newfig"}
        elif c < .98:
            op = {"op": "switch", "fig": rng.randrange(8)}
        else:
            op = {"op": "raw", "s": s, "state": rng.randrange(nstates)}
            figs += 1
        if op["op"] in ("create", "update"):
            if rng.random() < bad_p:
                op["bad"] = rng.choice(BADS)
            if rng.random() < fault_p:
                seams = CREATE_SEAMS if op["op"] == "create" else UPDATE_SEAMS
                if op["op"] == "create" and rng.random() < .12:
                    f = {"actor": a, "op": i, "at": "seam", "name": "plt.figure", "nth": 0, "when": "before",
                         "exc": rng.choice(EXCS)}
                else:
                    f = gen.seam_fault(rng, i, a, names=seams, excs=EXCS, max_nth=8)
                    if f["name"] == "*" and op["op"] == "create":
                        # the figure exists from the second call on
                        f["nth"] = max(1, f["nth"])
                faults.append(f)
                op["retry"] = rng.random() < .8
            elif op["op"] == "update" and rng.random() < line_p:
                faults.append(gen.line_fault(rng, i, a, hi=600))
                op["retry"] = rng.random() < .8
        ops.append(op)
    return ops


def gen_rc(rng):
    return rng.choice([{}, {}, {}, {"figure.dpi": 72.0}, {"xtick.top": True}, {"ytick.right": True, "ytick.left": False},
                       {"figure.figsize": [3.0, 9.0]}, {"axes.titlesize": 20.0}, {"xtick.labeltop": True},
                       {"axes.xmargin": .2}, {"figure.max_open_warning": 1}])


# ------------------------------------------------------------------- reading

def _tup(x):
    return tuple(float(v) for v in np.asarray(x, float).ravel())


def label_inches(axis):
    fig = axis.axes.figure
    return np.asarray(axis.label.get_transform().transform(axis.label.get_position()), float) / fig.dpi


def axis_state(axis):
    return (axis.label.get_text(), bool(axis.label.get_visible()), _tup(axis.label.get_position()),
            _tup(label_inches(axis)), axis.get_ticks_position(), axis.get_label_position(),
            type(axis.get_major_locator()).__name__, bool(axis.get_visible()))


def axes_state(ax):
    # autoscaling is lazy: settle the limits before anything that depends on them
    limits = _tup(ax.get_xlim()) + _tup(ax.get_ylim())
    return (("pos", _tup(ax.get_position().bounds)), ("opos", _tup(ax.get_position(original=True).bounds)),
            ("x", axis_state(ax.xaxis)), ("y", axis_state(ax.yaxis)),
            ("lim", limits), ("n", len(ax.get_children())),
            ("vis", bool(ax.get_visible())), ("title", ax.get_title()))


def fig_state(fig):
    return (("size", _tup(fig.get_size_inches())), ("dpi", float(fig.dpi)),
            ("axes", tuple((id(ax),) + axes_state(ax) for ax in fig.axes)),
            ("n", len(fig.get_children())))


def fig_rest(fig, given):
    """State of a figure without its size and the given axes"""
    ids = {id(a) for a in given}
    return (("dpi", float(fig.dpi)),
            ("axes", tuple((id(ax),) + tuple(
                (k, tuple(z[:3] + z[4:]) if k in "xy" else z) for k, z in axes_state(ax))
                if id(ax) not in ids else (id(ax),) for ax in fig.axes)),
            ("n", len(fig.get_children())))


# ------------------------------------------------------------------- executor

class Fig:
    def __init__(self, fig, axs, s, raw=False):
        self.fig, self.axs, self.s, self.raw = fig, axs, s, raw
        self.extra = []
        self.twins = []
        self.closed = False
        self.state = 0


class Engine:
    def __init__(self, scn, a, holder, geo, left, shared):
        self.scn, self.a, self.holder, self.geo, self.left = scn, a, holder, geo, left
        self.stats = holder["stats"]
        self.single = len(scn["actors"]) == 1
        self.shared = shared
        self.figs = []
        self.roots = {}

    # -- primitives
    def root(self, s, k):
        st = self.scn["structs"][s]
        k = k % len(st["states"])
        if (s, k) not in self.roots:
            root = build.root_of(st["states"][k]["specs"])
            self.roots[(s, k)] = (root, self.dump(root))
        return self.roots[(s, k)][0], st, st["states"][k]

    def dump(self, root):
        return (snap.node_dump(root), tuple(snap.node_ids(root)))

    def bad_root(self, s, k, bad, op):
        """A primitive tree (or keys) the operation must refuse"""
        st = self.scn["structs"][s]
        state = st["states"][k % len(st["states"])]
        specs = [dict(x) for x in state["specs"]]
        keys = op.get("keys")
        fk = st["fig"]
        if bad == "no_fig":
            specs = [x for x in specs if x["key"] != fk]
        elif bad == "point_fig":
            specs = [x if x["key"] != fk else {"key": fk, "kind": "point", "pts": [0.0, 0.0]} for x in specs]
        elif bad == "bad_size":
            kind = random.Random(f"{s}{k}").choice([-1.0, float("nan"), float("inf")])
            specs = [x if x["key"] != fk else {"key": fk, "kind": "quad", "pts": gen.box_pts(
                0, 0, 1, 1)} for x in specs]
            for x in specs:
                if x["key"] == fk:
                    x["pts"] = [[0.0, 0.0], [kind, 0.0], [kind, kind], [0.0, kind]]
        elif bad in ("no_axes", "not_axes"):
            targets = [a["key"] for a in st["axes"] if keys is None or a["key"] in keys]
            if not targets:
                return None
            t = targets[-1]
            if bad == "no_axes":
                if keys is None:
                    return None
                specs = [x for x in specs if x["key"] != t]
            else:
                specs = [x if x["key"] != t else {"key": t, "kind": "line", "pts": [[0.0, 0.0], [1.0, 0.0]]}
                         for x in specs]
        return build.root_of(specs)

    # -- oracles
    def check_fig(self, f, st, state, keys, where, before=None):
        """The figure shows the state for the axes `keys`"""
        fig = f.fig
        coords = build.expand_all(state["specs"])
        W, H = state["size"]
        o = np.array(state["origin"])
        size = np.array([W, H])
        if not common.close(fig.get_size_inches(), size, 1e-6):
            raise Violation("figure-size", f"{where}: figure is {fig.get_size_inches().tolist()}, primitive {[W, H]}")
        for key in keys:
            ax = f.axs[key]
            if ax.figure is not fig or ax not in fig.axes:
                raise Violation("axes-missing", f"{where}: axes {key!r} isn't in the figure")
            p0 = coords[f"{key}/Frame/Line0/Point0"] - o
            p1 = coords[f"{key}/Frame/Line1/Point1"] - o
            want = np.array([p0, p1])
            for name, box in (("", ax.get_position()), ("original ", ax.get_position(original=True))):
                got = np.array(box.get_points()) * size
                if not common.close(got, want, 1e-6):
                    raise Violation("axes-position", f"{where}: axes {key!r} {name}position {got.tolist()} inches, "
                                    f"frame {want.tolist()} (figure origin {o.tolist()})")
            for c, axis in (("x", ax.xaxis), ("y", ax.yaxis)):
                lab = coords.get(f"{key}/{c.upper()}AxisLabel")
                was = before.get((key, c)) if before else None
                if lab is not None:
                    got = label_inches(axis)
                    if not common.close(got, lab - o, 1e-6):
                        raise Violation("label-position", f"{where}: {c} label of {key!r} anchored at {got.tolist()} "
                                        f"inches, label point at {(lab - o).tolist()}")
                    side = state["sides"][key][c]
                    if axis.get_ticks_position() != side:
                        raise Violation("tick-side", f"{where}: {c} ticks of {key!r} on {axis.get_ticks_position()!r}, "
                                        f"axis primitive on {side!r}")
                    self.check_ticks(ax, axis, c, side, key, where)
                elif was is not None:
                    now = axis_state(axis)
                    if now[:3] + now[4:] != was[:3] + was[4:]:
                        raise Violation("axis-touched", f"{where}: {c} axis of {key!r} has no primitive but changed "
                                        f"from {was} to {now}")
        self.stats["figures checked"] += 1

    def check_ticks(self, ax, axis, c, side, key, where):
        tk = axis.get_major_ticks()
        for t in tk[:3]:
            one, two = t.tick1line.get_visible(), t.tick2line.get_visible()
            if (one, two) != ((side in ("bottom", "left")), (side in ("top", "right"))):
                raise Violation("tick-side", f"{where}: {c} tick lines of {key!r} visible at (bottom/left, top/right) = "
                                f"{(one, two)}, axis primitive on {side!r}")

    def others_before(self, skip):
        out = []
        for f in self.figs + [x for x in self.shared["own"]]:
            if f is not skip and (self.single or f in self.figs) and not f.closed:
                out.append((f, fig_state(f.fig)))
        return out

    def check_others(self, before, where):
        for f, st in before:
            d = snap.diff(st, fig_state(f.fig))
            if d:
                raise Violation("other-figure", f"{where}: another figure changed: {d}")

    def check_prims(self, where):
        for (s, k), (root, dump) in self.roots.items():
            d = snap.diff(dump, self.dump(root))
            if d:
                raise Violation("primitives-changed", f"{where}: {d}")

    # -- operations
    def body(self, sim):
        ns = build.mods()
        from matplotlib import pyplot as plt
        spec = self.scn["actors"][self.a]
        for i, op in enumerate(spec["ops"]):
            where = f"actor {self.a} op {i} {op['op']}"
            kind = op["op"]
            if kind == "create":
                self.do_create(sim, ns, plt, i, op, where)
            elif kind == "update":
                self.do_update(sim, ns, plt, i, op, where)
            elif kind == "raw":
                from matplotlib.figure import Figure
                from matplotlib.backends.backend_agg import FigureCanvasAgg
                fig = Figure(figsize=(2, 2))
                FigureCanvasAgg(fig)
                st = self.scn["structs"][op["s"]]
                self.figs.append(Fig(fig, {a["key"]: fig.add_axes((.1, .1, .3, .3)) for a in st["axes"]},
                                     op["s"], raw=True))
            elif kind in ("edit", "draw", "close") and self.figs:
                f = self.figs[op["fig"] % len(self.figs)]
                if f.closed:
                    continue
                if kind == "edit":
                    self.edit(f, op)
                elif kind == "draw":
                    f.fig.canvas.draw()
                else:
                    plt.close(f.fig)
                    f.closed = True
            elif kind == "newfig":
                self.shared["user"].append(plt.figure(figsize=(2, 2)))
            elif kind == "switch" and self.single:
                nums = plt.get_fignums()
                if nums:
                    plt.figure(nums[op["fig"] % len(nums)])

    def do_create(self, sim, ns, plt, i, op, where):
        st = self.scn["structs"][op["s"]]
        keys = op.get("keys")
        want_keys = list(keys) if keys is not None else [a["key"] for a in st["axes"]]
        bad = op.get("bad")
        tries = [(i, bad)]
        if op.get("retry") or bad:
            tries.append((1000 + i, None))
        failed_before = False
        for idx, b in tries:
            if b:
                root = self.bad_root(op["s"], op["state"], b, op)
                if root is None:
                    continue
                state = None
            else:
                root, _, state = self.root(op["s"], op["state"])
            before = self.others_before(None)
            p0 = snap.process_state() if self.single else None
            reg0 = snap.pyplot_state()
            rootdump = self.dump(root)
            args = (root, st["fig"]) + ((list(keys),) if keys is not None else ())
            if keys is None and st["fig"] == "Figure" and op["state"] % 2:
                args = (root,)
            o = attempt(sim, idx, f"subplots {st['fig']} {keys} {b or ''}", lambda: ns.mu.subplots(*args))
            w = f"{where} ({o})"
            self.stats["create " + ("ok" if o.ok else "bad" if b else "faulted")] += 1
            if self.left:
                d = snap.diff(rootdump, self.dump(root))
                if d:
                    raise Violation("primitives-changed", f"{w}: {d}")
                self.check_prims(w)
                self.check_others(before, w)
            if not o.ok:
                failed_before = True
                if not b and not o.fired:
                    raise Violation("create-failed", f"{w}")
                if self.left and self.single:
                    self.same_process(p0, w)
                o = None
                continue
            if b and not o.fired:
                raise Violation("accepted-invalid", f"{w}: bad input {b} accepted")
            fig, axs = o.value
            f = Fig(fig, dict(axs), op["s"])
            f.state = op["state"]
            self.figs.append(f)
            self.shared["own"].append(f)
            if b:
                return
            if self.left:
                reg1 = snap.pyplot_state()
                if self.single:
                    if reg1[0][:-1] != reg0[0] or len(reg1[0]) != len(reg0[0]) + 1:
                        raise Violation("registry", f"{w}: pyplot figures {reg0[0]} became {reg1[0]}")
                    self.same_process(p0, w, skip=("pyplot",))
                if not plt.fignum_exists(fig.number):
                    raise Violation("registry", f"{w}: the new figure isn't registered with pyplot")
            if self.geo or failed_before:
                if list(axs) != want_keys and set(axs) != set(want_keys):
                    raise Violation("axes-keys", f"{w}: axes {list(axs)}, requested {want_keys}")
                if len(fig.axes) != len(want_keys) or len({id(x) for x in axs.values()}) != len(want_keys):
                    raise Violation("axes-count", f"{w}: figure has {len(fig.axes)} axes, requested {want_keys}")
                self.check_fig(f, st, state, want_keys, w)
            return

    def do_update(self, sim, ns, plt, i, op, where):
        if not self.figs:
            return
        f = self.figs[op["fig"] % len(self.figs)]
        if f.closed:
            return
        st = self.scn["structs"][f.s]
        keys = list(f.axs)
        if op.get("subset") is not None and keys:
            rr = random.Random(op["subset"])
            keys = rr.sample(keys, rr.randint(0, len(keys)))
        bad = op.get("bad")
        pick = f.state if op["state"] == "same" else op["state"]
        tries = [(i, bad)]
        if op.get("retry") or bad:
            tries.append((1000 + i, None))
        failed_before = False
        for idx, b in tries:
            if b:
                root = self.bad_root(f.s, pick, b, {"keys": keys})
                if root is None:
                    continue
                state = None
            else:
                root, _, state = self.root(f.s, pick)
            given = {k: f.axs[k] for k in keys}
            before = self.others_before(f)
            rest = fig_rest(f.fig, list(given.values()) + f.twins)
            was = {(k, c): axis_state(getattr(f.axs[k], c + "axis")) for k in keys for c in "xy"}
            p0 = snap.process_state() if self.single else None
            rootdump = self.dump(root)
            o = attempt(sim, idx, f"update {keys} {b or ''}", lambda: ns.mu.update_subplots(root, st["fig"], f.fig, given))
            w = f"{where} ({o})"
            self.stats["update " + ("ok" if o.ok else "bad" if b else "faulted")] += 1
            d = snap.diff(rest, fig_rest(f.fig, list(given.values()) + f.twins))
            if d:
                raise Violation("other-axes", f"{w}: something else in the figure changed: {d}")
            if list(given) != keys or any(given[k] is not f.axs[k] for k in keys):
                raise Violation("axes-dict", f"{w}: the axes dictionary was changed")
            if self.left:
                d = snap.diff(rootdump, self.dump(root))
                if d:
                    raise Violation("primitives-changed", f"{w}: {d}")
                self.check_prims(w)
                self.check_others(before, w)
                if self.single:
                    self.same_process(p0, w)
            if not o.ok:
                failed_before = True
                if not b and not o.fired:
                    raise Violation("update-failed", f"{w}")
                continue
            if b:
                if not o.fired:
                    raise Violation("accepted-invalid", f"{w}: bad input {b} accepted")
                return
            rf, ra = o.value
            if rf is not f.fig or list(ra) != keys or any(ra[k] is not f.axs[k] for k in keys):
                raise Violation("returned", f"{w}: update_subplots returned other objects")
            f.state = pick
            if self.geo or failed_before:
                self.check_fig(f, st, state, keys, w, before=None if failed_before else was)
            return

    def same_process(self, p0, w, skip=()):
        p1 = snap.process_state()
        for k in snap.state_diff(p0, p1):
            if k in skip:
                continue
            raise Violation("process-state", f"{w}: {k} changed from {snap._short(p0[k])} to {snap._short(p1[k])}")

    def edit(self, f, op):
        rr = random.Random(op["seed"])
        fig = f.fig
        axs = list(f.axs.values())
        ax = rr.choice(axs) if axs else None
        what = op["what"]
        if what == "size":
            fig.set_size_inches(rr.uniform(1, 8), rr.uniform(1, 8))
        elif what == "dpi":
            fig.set_dpi(rr.choice([50, 72, 100, 144]))
        elif what == "extra_axes":
            f.extra.append(fig.add_axes((rr.uniform(0, .5), rr.uniform(0, .5), .2, .3)))
        elif what == "remove_extra" and f.extra:
            f.extra.pop().remove()
        elif ax is None:
            return
        elif what == "position":
            ax.set_position((rr.uniform(0, .5), rr.uniform(0, .5), rr.uniform(.1, .5), rr.uniform(.1, .5)),
                            which=rr.choice(["both", "both", "active", "original"]))
        elif what == "ticks":
            rr.choice([ax.xaxis.tick_top, ax.xaxis.tick_bottom, ax.yaxis.tick_right, ax.yaxis.tick_left,
                       lambda: ax.xaxis.set_ticks_position("both"), lambda: ax.yaxis.set_ticks_position("none")])()
        elif what == "label_coords":
            ax.xaxis.set_label_coords(rr.uniform(-1, 2), rr.uniform(-1, 2))
            ax.yaxis.set_label_coords(rr.uniform(-1, 2), rr.uniform(-1, 2),
                                      transform=rr.choice([None, fig.transFigure, ax.transData]))
        elif what == "label_text":
            ax.set_xlabel(rr.choice(["", "time", "$x_0$"]))
            ax.set_ylabel("y", labelpad=rr.uniform(0, 20))
        elif what == "label_position":
            ax.xaxis.set_label_position(rr.choice(["top", "bottom"]))
        elif what == "label_hide":
            ax.xaxis.label.set_visible(False)
        elif what == "plot":
            ax.plot([0, rr.uniform(1, 1e4)], [0, rr.uniform(1, 1e-3)])
        elif what == "twin":
            f.twins.append(ax.twinx())     # moves with its axes
        elif what == "tick_params":
            ax.tick_params(axis=rr.choice("xy"), labelsize=rr.choice([4, 20]), length=rr.choice([0, 12]),
                           labelrotation=rr.choice([0, 45]))
        elif what == "limits":
            ax.set_xlim(0, 10 ** rr.randint(-5, 9))
            ax.invert_yaxis()
        elif what == "title":
            ax.set_title("title")
        elif what == "locator":
            from matplotlib.ticker import FixedLocator
            ax.xaxis.set_major_locator(FixedLocator([0, .5, 1]))


def execute(scn, holder, geo, left):
    import matplotlib as mpl
    from matplotlib import pyplot as plt
    if scn.get("rc"):
        mpl.rcParams.update(scn["rc"])
    shared = {"own": [], "user": []}
    for k in range(scn.get("figs", 0)):
        fig = plt.figure(num=None if k % 2 else 3 * k + 2, figsize=(2, 2))
        if k % 2:
            ax = fig.add_subplot()
            ax.plot([0, 1])
        shared["user"].append(fig)
    user0 = [(f, fig_state(f)) for f in shared["user"]]
    p0 = snap.process_state()
    n = len(scn["actors"])
    engines = [Engine(scn, a, holder, geo, left, shared) for a in range(n)]
    sim = common.run_bodies(scn, [e.body for e in engines])
    holder["sims"].append(sim)
    if left:
        alive = {f.fig.number for e in engines for f in e.figs if not f.closed and not f.raw}
        alive |= {f.number for f in shared["user"]}
        got = set(plt.get_fignums())
        if got != alive:
            raise Violation("registry", f"at the end pyplot has figures {sorted(got)}, successfully created and "
                                        f"not closed: {sorted(alive)}")
        for f, st in user0:
            d = snap.diff(st, fig_state(f))
            if d:
                raise Violation("other-figure", f"a figure of the user changed: {d}")
        p1 = snap.process_state()
        for k in snap.state_diff(p0, p1):
            if k != "pyplot":
                raise Violation("process-state", f"after all operations: {k} changed from {snap._short(p0[k])} to "
                                                 f"{snap._short(p1[k])}")
        for e in engines:
            e.check_prims("at the end")
    nontrivial = bool(sim.fired) or holder["stats"]["figures checked"] > 1 or (
        sim.sched is not None and sim.sched.n_switch > 0)
    return sim.hash.hexdigest(), nontrivial
