"""
Matplotlib axis configurations applied identically to several figures, and an
independent measurement of axis thickness
"""

import random

import numpy as np

from . import world

X_SIDES, Y_SIDES = ("bottom", "top"), ("left", "right")


def new_figure(spec, labels=True, pyplot=False):
    """A figure with its axes, from JSON; `labels=False`: no axis label at all"""
    if pyplot:
        from matplotlib import pyplot as plt
        fig = plt.figure(figsize=spec["size"], dpi=spec["dpi"])
    else:
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        fig = Figure(figsize=spec["size"], dpi=spec["dpi"])
        FigureCanvasAgg(fig)
    axs = {}
    for a in spec["axes"]:
        ax = fig.add_axes(a["pos"])
        axs[a["key"]] = ax
        for e in a["edits"]:
            edit(fig, ax, e, labels)
    return fig, axs


def gen_edit(rng, label_p=.35, failing=False):
    c = rng.choice("xy")
    if rng.random() < label_p:
        e = {"c": c, "what": "label", "text": rng.choice(["", "time / s", "two\nlines", "$\\sqrt{x}$", "long " * 6]),
                "size": rng.choice([6, 10, 24]), "visible": rng.random() < .7, "pad": rng.choice([0, 4, 30])}
        if rng.random() < .3:
            e["set"] = {k: v for k, v in {"in_layout": False, "alpha": .5, "rotation": 30, "color": "red",
                                          "clip_on": True, "zorder": 1, "gid": "label"}.items() if rng.random() < .4}
        return e
    what = rng.choice(["side", "side", "side", "side", "params", "params", "params", "limits", "ticks", "scale", "hide",
                       "labels_off", "locpos", "formatter", "minor", "sidebad", "plot", "title", "grid", "spine", "show",
                       "both", "aspect", "invert"])
    e = {"c": c, "what": what}
    if what == "side":
        e["side"] = rng.randrange(2)
    elif what == "aspect":
        e["aspect"], e["adjust"] = rng.choice(["equal", "equal", "auto", 2.0]), rng.choice(["box", "box", "datalim"])
    elif what == "params":
        e["kw"] = {k: v for k, v in {
            "labelsize": rng.choice([4, 8, 14, 22]), "length": rng.choice([0, 3.5, 14]), "pad": rng.choice([0, 3.5, 12]),
            "direction": rng.choice(["in", "out", "inout"]), "labelrotation": rng.choice([0, 30, 90]),
            "width": rng.choice([.5, 3])}.items() if rng.random() < .5}
    elif what == "limits":
        e["lim"] = rng.choice([[0, 1], [-5, 1e6], [1e-9, 3e-9], [10, 0], [1, 1000]])
    elif what == "ticks":
        e["ticks"] = rng.choice([[], [0], [0, .5, 1], [.25, .75]])
        e["labels"] = rng.choice([None, None, "long tick label", "$x^2$"])
    elif what == "scale":
        e["scale"] = rng.choice(["log", "linear"])
    elif what == "labels_off":
        e["on"] = rng.random() < .3
    elif what == "locpos":
        e["side"] = rng.randrange(2)
    elif what == "minor":
        e["on"] = rng.random() < .7
    elif what == "formatter":
        e["fmt"] = rng.choice(["plain", "user", "user", "bad"])
    return e


def gen_figure(rng, n=None, keys=("Axes0", "Axes1", "Axes2"), n_edits=(0, 5), scale=1.0):
    axes = []
    for k in range(n or rng.choice([1, 1, 2, 3])):
        x, y = rng.uniform(.15, .4), rng.uniform(.15, .4)
        axes.append({"key": keys[k], "pos": [round(x, 3), round(y, 3), round(rng.uniform(.2, .5), 3),
                                             round(rng.uniform(.2, .5), 3)],
                     "edits": [gen_edit(rng) for _ in range(rng.randint(*n_edits))]})
    return {"size": [round(rng.uniform(1.5, 6), 2), round(rng.uniform(1.5, 6), 2)],
            "dpi": rng.choice([40, 50, 72, 100]), "axes": axes}


def edit(fig, ax, e, labels=True):
    """Apply one configuration step (label steps only when `labels`)"""
    from matplotlib import ticker
    c = e["c"]
    axis = ax.xaxis if c == "x" else ax.yaxis
    sides = X_SIDES if c == "x" else Y_SIDES
    what = e["what"]
    if what == "label":
        if labels:
            axis.set_label_text(e["text"], fontsize=e["size"])
            axis.label.set_visible(e["visible"])
            axis.labelpad = e["pad"]
            axis.label.set(**e.get("set", {}))
    elif what == "side":
        axis.set_ticks_position(sides[e["side"]])
    elif what == "sidebad":
        axis.set_ticks_position("both")
    elif what == "both":
        ax.tick_params(axis=c, which="both", **{s: True for s in sides})
    elif what == "params":
        ax.tick_params(axis=c, **e["kw"])
    elif what == "limits":
        (ax.set_xlim if c == "x" else ax.set_ylim)(*e["lim"])
    elif what == "ticks":
        axis.set_ticks(e["ticks"], labels=None if e["labels"] is None else [e["labels"]] * len(e["ticks"]))
    elif what == "scale":
        lim = ax.get_xlim() if c == "x" else ax.get_ylim()
        if min(lim) > 0:
            (ax.set_xscale if c == "x" else ax.set_yscale)(e["scale"])
    elif what == "hide":
        axis.set_visible(False)
    elif what == "show":
        axis.set_visible(True)
    elif what == "labels_off":
        ax.tick_params(axis=c, **{"label" + s: e["on"] for s in sides})
    elif what == "locpos":
        if labels:
            axis.set_label_position(sides[e["side"]])
    elif what == "minor":
        (ax.minorticks_on if e["on"] else ax.minorticks_off)()
    elif what == "formatter":
        axis.set_major_formatter(make_formatter(e["fmt"]))
    elif what == "plot":
        ax.plot([0, 1], [0, 1])
    elif what == "aspect":
        ax.set_aspect(e["aspect"], adjustable=e["adjust"])
    elif what == "invert":
        (ax.invert_xaxis if c == "x" else ax.invert_yaxis)()
    elif what == "title":
        ax.set_title("title")
    elif what == "grid":
        ax.grid(True)
    elif what == "spine":
        ax.spines[sides[0]].set_visible(False)
    elif what == "size":
        fig.set_size_inches(*e["size"])
    elif what == "dpi":
        fig.set_dpi(e["dpi"])
    elif what == "position":
        ax.set_position(e["pos"])


def user_format(x, pos=None):
    world.user_seam("format")
    return f"{x:.2g}"


def make_formatter(kind):
    from matplotlib import ticker
    if kind == "plain":
        return ticker.ScalarFormatter()
    if kind == "user":
        return ticker.FuncFormatter(user_format)
    return ticker.FuncFormatter(lambda x, pos=None: "$\\notacommand{$")    # mathtext fails to parse


def side_of(axis):
    s = axis.get_ticks_position()
    return s if s in X_SIDES + Y_SIDES else None


def measure(axis):
    """
    Inches from the frame out to the outer edge of ticks and tick labels, of
    an axis whose figure has no axis labels; None if there is no single side
    """
    side = side_of(axis)
    if side is None:
        return None
    axis.axes.get_position()    # applies a pending aspect ratio
    box = axis.get_tightbbox()
    if box is None:
        return 0.0
    frame = axis.axes.bbox
    d = {"bottom": frame.y0 - box.y0, "top": box.y1 - frame.y1,
         "left": frame.x0 - box.x0, "right": box.x1 - frame.x1}[side]
    return float(d) / float(axis.axes.figure.dpi)


def same(got, ref, tol=1e-6):
    return abs(got - ref) <= tol or abs(got - max(ref, 0.0)) <= tol


def pixels(fig):
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba()).copy()


def state(fig):
    """Everything the user could notice without drawing"""
    out = [("size", tuple(map(float, fig.get_size_inches()))), ("dpi", float(fig.dpi)),
           ("n", len(fig.get_children()))]
    for i, ax in enumerate(fig.axes):
        s = [("pos", tuple(map(float, ax.get_position().bounds))),
             ("opos", tuple(map(float, ax.get_position(original=True).bounds))),
             ("lim", tuple(map(float, ax.get_xlim() + ax.get_ylim()))), ("vis", ax.get_visible()),
             ("n", len(ax.get_children())), ("title", ax.get_title()),
             ("spines", tuple(sp.get_visible() for sp in ax.spines.values()))]
        for c, axis in (("x", ax.xaxis), ("y", ax.yaxis)):
            lab = axis.label
            s.append((c, (("label visible", bool(lab.get_visible())), ("label text", lab.get_text()),
                          ("label size", float(lab.get_fontsize())), ("label alpha", repr(lab.get_alpha())),
                          ("label color", repr(lab.get_color())), ("label side", axis.get_label_position()),
                          ("in layout", (lab.get_in_layout(), axis.get_in_layout(), ax.get_in_layout())),
                          ("clip", (lab.get_clip_on(), repr(lab.get_bbox_patch()))),
                          ("label place", (lab.get_ha(), lab.get_va(), float(lab.get_rotation()))),
                          ("labelpad", float(axis.labelpad)), ("axis visible", bool(axis.get_visible())),
                          ("locator", id(axis.get_major_locator())), ("minor", id(axis.get_minor_locator())),
                          ("formatter", id(axis.get_major_formatter())), ("side", axis.get_ticks_position()),
                          ("scale", axis.get_scale()), ("params", repr(sorted(
                              (k, v) for k, v in axis.get_tick_params().items()))))))
        out.append((f"axes{i}", tuple(s)))
    return tuple(out)
