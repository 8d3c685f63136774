"""
C08: measuring axis thickness leaves the axis as it was

Three figures go through the same history: one is measured (with failures),
one is never measured (what the first must look like), and one has no axis
labels (what the measurement must give).
"""

import random

import numpy as np

from .. import axcfg, build, common, gen, snap, world
from ..common import Violation, attempt

PROP = "C08"
RUNS = {"quick": 1800, "thorough": 16000}
RULE = ("One run = 6-14 measurements of x/y axes through constraint creation, evaluation, refresh and solve, mixed with "
        "configuration changes, draws and failing matplotlib/user code. Non-trivial: a measurement failed (injected "
        "or because of the configuration) or two different configurations were measured. Distinct: event-log hash.")

VIAS = ["add", "add", "refresh", "refresh", "call", "call", "nested", "again", "solve", "partial", "map"]


def generate(seed, index, tier):
    rng = gen.rng_for(PROP, seed, index)
    nf = rng.choice([1, 1, 2])
    specs = [axcfg.gen_figure(rng, n=rng.choice([1, 1, 2])) for _ in range(nf)]
    ops, faults = [], []
    for i in range(rng.randint(6, 14)):
        f = rng.randrange(nf)
        ax = rng.randrange(len(specs[f]["axes"]))
        c = rng.random()
        if c < .6:
            op = {"op": "measure", "fig": f, "ax": ax, "c": rng.choice("xy"), "via": rng.choice(VIAS)}
            op["fresh"] = rng.random() < .4
            if op["via"] == "refresh" and rng.random() < .4:
                op["c"] = "xy"
            if rng.random() < .45:
                faults.append(gen.seam_fault(
                    rng, i, 0, names=("axis.get_tightbbox", "axis.get_tightbbox", "axis.get_ticks_position",
                                      "ax.get_position", "user.format", "*"),
                    max_nth=3, excs=["RuntimeError", "MemoryError", "KeyboardInterrupt", "ValueError", "OSError"]))
            ops.append(op)
        elif c < .9:
            e = axcfg.gen_edit(rng)
            d = rng.random()
            if d < .1:
                e = {"c": "x", "what": "size", "size": [round(rng.uniform(1.5, 6), 2), round(rng.uniform(1.5, 6), 2)]}
            elif d < .17:
                e = {"c": "x", "what": "dpi", "dpi": rng.choice([40, 72, 110])}
            elif d < .27:
                e = {"c": "x", "what": "position", "pos": [round(rng.uniform(.1, .5), 3) for _ in range(4)]}
            ops.append({"op": "edit", "fig": f, "ax": ax, "edit": e})
        else:
            ops.append({"op": "draw", "fig": f})
    return {"prop": PROP, "figs": specs, "actors": [{"ops": ops}], "faults": faults,
            "pyplot": rng.random() < .3, "rc": rng.choice([{}, {}, {"font.size": 7.0}, {"xtick.labelsize": 15.0},
                                                           {"xtick.bottom": True, "xtick.top": False}])}


class Trio:
    def __init__(self, spec, pyplot):
        self.keys = [a["key"] for a in spec["axes"]]
        self.real, self.axs = axcfg.new_figure(spec, True, pyplot)
        self.control, self.caxs = axcfg.new_figure(spec, True)
        self.bare, self.baxs = axcfg.new_figure(spec, False)

    def each(self):
        return ((self.real, self.axs, True), (self.control, self.caxs, True), (self.bare, self.baxs, False))

    def edit(self, k, e):
        errs = []
        for fig, axs, lab in self.each():
            try:
                axcfg.edit(fig, axs[self.keys[k]], e, lab)
                errs.append(None)
            except Exception as exc:     # an edit matplotlib refuses
                errs.append(type(exc).__name__)
        return errs


    def unsettle(self, all_figs):
        """Move the axes back to where they were put, before any aspect ratio is applied"""
        for fig, _axs, _lab in self.each() if all_figs else [(self.real, None, None)]:
            for ax in fig.axes:
                ax.set_position(ax.get_position(original=True))


def axes_layout(ns, key, sized=True):
    lay = ns.ly.Layout()
    lay.add_prim(ns.pr.Axes(xaxis=True, yaxis=True), key)
    return lay


def body_of(scn, holder):
    ns = build.mods()
    stats = holder["stats"]

    def do_measure(sim, i, trio, op, where, holder):
        """Returns (outcome, list of (c, measured)) ; measured from residuals"""
        key = trio.keys[op["ax"]]
        ax = trio.axs[key]
        c = op["c"]
        via = op["via"]
        size = {"x": 1.0, "y": 1.0}     # default axis primitives are unit squares
        T = {"x": ns.cr.XAxisThickness, "y": ns.cr.YAxisThickness}

        def axis_of(cc):
            return ax.xaxis if cc == "x" else ax.yaxis

        def read(lay, ccs):
            with world.paused():
                res = common.flat_residuals(lay)
            if res.size != len(ccs):
                raise Violation("thickness", f"{where}: {len(ccs)} thickness constraints give residuals {res.tolist()}")
            return [(cc, size[cc] - float(r)) for cc, r in zip(ccs, res)]

        if via in ("add", "solve"):
            lay = axes_layout(ns, key)
            o = attempt(sim, i, f"add {c}", lambda: lay.add_constraint(T[c](), (f"{key}/{c.upper()}Axis",), (axis_of(c),)))
            if not o.ok:
                return o, None
            got = read(lay, [c])
            if via == "solve":
                with world.paused():
                    root, info = ns.sv.solve(lay, max_iter=5)
                q = root[f"{key}/{c.upper()}Axis"]
                p = [q[f"Line{1 if c == 'x' else 0}/Point{k}"].value for k in (0, 1)]
                got.append((c, float((p[1] - p[0])[1 if c == "x" else 0])))
            return o, got
        if via in ("refresh", "again"):
            lay = axes_layout(ns, key)
            ccs = list(c)
            for cc in ccs:
                lay.add_constraint(T[cc](), (f"{key}/{cc.upper()}Axis",), (None,))
            before = snap.layout_dump(lay)
            o = attempt(sim, i, f"refresh {c}", lambda: ns.ly.update_layout_constraints(lay, dict(trio.axs)))
            d = snap.diff(before, snap.layout_dump(lay))
            if d:
                raise Violation("layout-changed", f"{where} ({o}): {d}")
            if not o.ok:
                return o, None
            new = o.value
            if via == "again":
                with world.paused():
                    try:
                        new = ns.ly.update_layout_constraints(new, dict(trio.axs))
                    except Exception:
                        pass
            return o, read(new, ccs)
        quad = ns.pr.Quadrilateral()
        if via == "static":
            o = attempt(sim, i, f"static {c}", lambda: T[c].get_axis_thickness(axis_of(c)))
            return o, [(c, float(o.value))] if o.ok else None
        if via == "nested":
            c = op["c"] = "x"
            lay = axes_layout(ns, key)
            o = attempt(sim, i, f"nested {c}", lambda: lay.add_constraint(
                ns.user["u:nested"](), (f"{key}/XAxis",), (axis_of("x"),)))
            if not o.ok:
                return o, None
            with world.paused():
                res = common.flat_residuals(lay)
            t = [float(r) for r in res if abs(r) > 0]
            return o, [(c, size[c] - (float(res[0])))] if res.size == 5 else [(c, float("nan"))]
        if via == "partial":
            con = ns.con.transform_partial(T[c](), axis_of(c))
            o = attempt(sim, i, f"partial {c}", lambda: con((quad,)))
        elif via == "map":
            con = ns.con.transform_map(T[c](), [ns.pr.Quadrilateral] * 2)
            o = attempt(sim, i, f"map {c}", lambda: con((quad, quad), axis_of(c), axis_of(c)))
        else:
            con = T[c]()
            o = attempt(sim, i, f"call {c}", lambda: con((quad,), axis_of(c)))
        if not o.ok:
            return o, None
        with world.paused():
            vals = np.asarray(o.value, float).ravel()
        return o, [(c, size[c] - float(v)) for v in vals]

    def body(sim):
        import matplotlib as mpl
        if scn.get("rc"):
            mpl.rcParams.update(scn["rc"])
        trios = [Trio(s, scn.get("pyplot")) for s in scn["figs"]]
        failed = checked = 0
        for i, op in enumerate(scn["actors"][0]["ops"]):
            where = f"op {i} {op['op']}"
            if op["op"] == "nop":
                continue
            trio = trios[op["fig"]]
            if op["op"] == "edit":
                trio.edit(op["ax"], op["edit"])
            elif op["op"] == "draw":
                for fig, _, _ in trio.each():
                    try:
                        fig.canvas.draw()
                    except Exception:
                        pass
            elif op["op"] == "measure":
                for tr in range(2):
                    key = trio.keys[op["ax"]]
                    where = f"op {i} measure {op['c']} axis of {key} via {op['via']}" + (" (retry)" if tr else "")
                    if op.get("fresh"):
                        trio.unsettle(True)
                    before = [axcfg.state(t.real) for t in trios]
                    for t in trios:
                        # reading a position applies a pending aspect ratio
                        axcfg.state(t.control), axcfg.state(t.bare)
                    p0 = snap.process_state()
                    if op.get("fresh"):
                        trio.unsettle(False)
                    o, got = do_measure(sim, i if tr == 0 else 1000 + i, trio, op, where, holder)
                    where += f" ({o})"
                    for t, b in zip(trios, before):
                        d = snap.diff(b, axcfg.state(t.real))
                        if d:
                            raise Violation("axis-changed", f"{where}: {d}")
                    p1 = snap.process_state()
                    for k in snap.state_diff(p0, p1):
                        raise Violation("process-state", f"{where}: {k} changed from {snap._short(p0[k])} to "
                                                         f"{snap._short(p1[k])}")
                    # what it should be
                    refs, bad = {}, None
                    with world.paused():
                        for cc in (op["c"] if op["via"] == "refresh" or op["via"] == "again" else op["c"][:1]):
                            bax = trio.baxs[key]
                            try:
                                refs[cc] = axcfg.measure(bax.xaxis if cc == "x" else bax.yaxis)
                            except Exception as exc:
                                bad = exc
                    nominal = bad is None and all(v is not None for v in refs.values())
                    if o.ok:
                        stats["measured via " + op["via"]] += 1
                        if not nominal:
                            stats["measured without a side"] += 1
                            break
                        for cc, v in got:
                            if not axcfg.same(v, refs[cc], 1e-6 * (1 + abs(refs[cc]))):
                                raise Violation("thickness", f"{where}: {cc} thickness is {v}, ticks and tick labels "
                                                f"without the axis label need {refs[cc]} inches on the "
                                                f"{axcfg.side_of(getattr(trio.baxs[key], cc + 'axis'))}")
                        checked += 1
                        break
                    failed += 1
                    stats["failed " + ("injected" if o.fired else "naturally")] += 1
                    if not o.fired and nominal:
                        raise Violation("measure-failed", f"{where}: fails although the axis has a side and renders")
                    if not o.fired:
                        break
        # nothing of the measuring shows when drawn
        for t in trios:
            with world.paused():
                try:
                    a = axcfg.pixels(t.control)
                except Exception:
                    continue
                try:
                    b = axcfg.pixels(t.real)
                except Exception as exc:
                    raise Violation("draw", f"the measured figure can't be drawn any more: {exc!r}")
                if a.shape != b.shape or not np.array_equal(a, b):
                    n = "all" if a.shape != b.shape else int((a != b).any(axis=2).sum())
                    raise Violation("draw", f"a figure that was measured draws differently from the same figure never "
                                            f"measured ({n} pixels)")
                stats["drawn"] += 1
        holder["nontrivial"] = failed > 0 or checked > 1
    return body


@common.guarded
def execute(scn, holder):
    world.set_eager(True)
    holder["nontrivial"] = False
    sim = common.run_bodies(scn, [body_of(scn, holder)])
    holder["sims"].append(sim)
    return sim.hash.hexdigest(), holder["nontrivial"]
