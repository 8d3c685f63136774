"""
Scenario generators shared by the properties

Everything is derived from the `random.Random` passed in; the result is JSON.
"""

import json
import math
import random

import numpy as np

from . import build, model
from .model import Geo, OPP, PRE, VALUE_TYPES


def rng_for(prop, seed, index, salt=""):
    return random.Random(f"{prop}/{seed}/{index}/{salt}")


def r(x):
    return round(float(x), 6)


def box_pts(x0, y0, x1, y1):
    return [[r(x0), r(y0)], [r(x1), r(y0)], [r(x1), r(y1)], [r(x0), r(y1)]]


def axis_box(frame, side, t):
    x0, y0 = frame[0]
    x1, y1 = frame[2]
    if side == "bottom":
        return box_pts(x0, y0 - t, x1, y0)
    if side == "top":
        return box_pts(x0, y1, x1, y1 + t)
    if side == "left":
        return box_pts(x0 - t, y0, x0, y1)
    return box_pts(x1, y0, x1 + t, y1)


# ------------------------------------------------------------------ geometry

AXKEYS = ["Axes0", "Axes1", "Axes10", "Axes2", "MyAxes", "AxesB", "InsetAxes",
          "Axes_left", "Axes 3", "Axes11", "0Axes", "AxesAxes"]
FIGKEYS = ["Figure", "Figure", "Figure", "Fig", "Page", "FigureBox"]


def gen_geometry(rng, n_axes=None, grid=None, axis_p=0.6, twin_p=0.2, label_p=1.0,
                 thick0_p=0.3, extras=2, fig=True, keys=None):
    """
    Primitive specs with a ground truth: `truth` (structured like `pts`) per
    primitive; axis-aligned boxes plus optional oblique extras.

    Returns (prims, info); `info` remembers what is where.
    """
    prims, info = [], {"axes": [], "fig": None, "grid": None}
    W, H = rng.uniform(3, 9), rng.uniform(3, 8)
    if rng.random() < 0.5:
        ox, oy = 0.0, 0.0
    else:
        ox, oy = rng.uniform(-5, 5), rng.uniform(-5, 5)
    if fig:
        fk = rng.choice(FIGKEYS)
        prims.append({"key": fk, "kind": "quad", "truth": box_pts(ox, oy, ox + W, oy + H)})
        info["fig"] = fk
        info["figbox"] = [ox, oy, W, H]

    frames = []
    if grid:
        nr, nc = grid
        ws = [rng.uniform(.6, 2) for _ in range(nc)]
        hs = [rng.uniform(.6, 2) for _ in range(nr)]
        cm = [rng.uniform(.1, .9) for _ in range(nc - 1)]
        rm = [rng.uniform(.1, .9) for _ in range(nr - 1)]
        x0, ytop = ox + rng.uniform(.2, 1), oy + H - rng.uniform(.2, 1)
        for i in range(nr):
            for j in range(nc):
                xa = x0 + sum(ws[:j]) + sum(cm[:j])
                yb = ytop - sum(hs[:i]) - sum(rm[:i])
                frames.append([xa, yb - hs[i], xa + ws[j], yb])
    else:
        n = n_axes if n_axes is not None else rng.choice([1, 1, 2, 2, 3])
        for k in range(n):
            if frames and rng.random() < 0.5:
                # same row or column as an earlier frame
                b = frames[rng.randrange(len(frames))]
                g = rng.uniform(.1, .8)
                if rng.random() < 0.5:
                    w = rng.uniform(.6, 2.5)
                    frames.append([b[2] + g, b[1], b[2] + g + w, b[3]])
                else:
                    h = rng.uniform(.6, 2.5)
                    frames.append([b[0], b[1] - g - h, b[2], b[1] - g])
            else:
                xa, ya = ox + rng.uniform(.2, W / 2), oy + rng.uniform(.2, H / 2)
                frames.append([xa, ya, xa + rng.uniform(.6, W / 2), ya + rng.uniform(.6, H / 2)])
    pool = list(keys or AXKEYS)
    rng.shuffle(pool)
    while len(pool) < len(frames):
        pool.append(f"Axes{len(pool) + 20}")
    for k, fb in enumerate(frames):
        key = pool[k]
        opts = {"xaxis": rng.random() < axis_p, "yaxis": rng.random() < axis_p}
        opts["twinx"] = opts["xaxis"] and rng.random() < twin_p
        opts["twiny"] = opts["yaxis"] and rng.random() < twin_p
        frame = box_pts(*fb)
        truth = {"Frame": frame}
        ax = {"key": key, "opts": opts, "xside": rng.choice(["bottom", "top"]),
              "yside": rng.choice(["left", "right"])}
        for c, dim in (("x", 1), ("y", 0)):
            if not opts[c + "axis"]:
                continue
            side = ax[c + "side"]
            for tw in ([""] + (["Twin"] if opts["twin" + c] else [])):
                s = OPP[side] if tw else side
                t = 0.0 if rng.random() < thick0_p else rng.uniform(.08, .6)
                truth[f"{tw}{c.upper()}Axis"] = axis_box(frame, s, t)
                f = rng.choice([0.5, rng.uniform(0, 1)])
                off = t + rng.uniform(.05, .4)
                (xa, ya), (xb, yb) = frame[0], frame[2]
                lab = {"bottom": [xa + f * (xb - xa), ya - off], "top": [xa + f * (xb - xa), yb + off],
                       "left": [xa - off, ya + f * (yb - ya)], "right": [xb + off, ya + f * (yb - ya)]}[s]
                truth[f"{tw}{c.upper()}AxisLabel"] = [r(lab[0]), r(lab[1])]
        prims.append({"key": key, "kind": "axes", "opts": opts, "truth": truth})
        info["axes"].append(ax)
    if grid:
        info["grid"] = {"shape": list(grid), "keys": [a["key"] for a in info["axes"]]}

    # oblique extras
    for k in range(rng.randint(0, extras) if extras else 0):
        kind = rng.choice(["point", "line", "line", "polygon", "linkline", "quad"])
        cx, cy = ox + rng.uniform(0, W), oy + rng.uniform(0, H)
        key = f"{rng.choice(['P', 'Extra', 'Guide', 'Lab'])}{k}"
        if kind == "point":
            prims.append({"key": key, "kind": "point", "truth": [r(cx), r(cy)]})
        elif kind == "line":
            a, L = rng.uniform(-2.2, 2.2), rng.uniform(.5, 2.5)
            prims.append({"key": key, "kind": "line", "truth": [
                [r(cx), r(cy)], [r(cx + L * math.cos(a)), r(cy + L * math.sin(a))]]})
        elif kind == "quad":
            prims.append({"key": key, "kind": "quad", "truth": box_pts(
                cx, cy, cx + rng.uniform(.3, 2), cy + rng.uniform(.3, 2))})
        elif kind == "polygon":
            n = rng.choice([3, 3, 4, 5, 6])
            a0, L = rng.uniform(0, 6), rng.uniform(.5, 1.5)
            prims.append({"key": key, "kind": "polygon", "truth": [
                [r(cx + L * math.cos(a0 + 2 * math.pi * i / n) + rng.uniform(-.1, .1)),
                 r(cy + L * math.sin(a0 + 2 * math.pi * i / n) + rng.uniform(-.1, .1))]
                for i in range(n)]})
        else:
            paths = [p for p in build.expand_all(prims, "truth") if not p.startswith(key)]
            if not paths:
                continue
            p0 = rng.choice(paths)
            prims.append({"key": key, "kind": "line", "truth": [
                {"ref": p0}, [r(cx), r(cy)]]})
            if rng.random() < .4:
                p1 = rng.choice(paths)
                prims[-1]["truth"][1] = {"ref": p1}
    return prims, info


def add_touching(rng, prims, n=2):
    """Extras that coincide with existing ones (own vertices, same places)"""
    inv = inventory(prims)
    G = truth_geo(prims)
    for k in range(n):
        key = f"Touch{k}"
        c = rng.random()
        if c < .2:
            v = G.pt(rng.choice(inv["point"]))
            prims.append({"key": key, "kind": "point", "truth": [float(v[0]), float(v[1])]})
        elif c < .65 and inv["line"]:
            a, b = G.line(rng.choice(inv["line"]))
            if rng.random() < .4:
                a, b = b, a
            if rng.random() < .3:       # on the same straight line only
                a, b = a + 1.3 * (b - a), a + 2.1 * (b - a)
            prims.append({"key": key, "kind": "line", "truth": [[float(x) for x in a], [float(x) for x in b]]})
        elif inv["quad"]:
            q = rng.choice(inv["quad"])
            x0, y0 = G.pt(q + "/Line0/Point0")
            x1, y1 = G.pt(q + "/Line1/Point1")
            w, h = rng.uniform(.3, 1), rng.uniform(.3, 1)
            g = rng.choice([0, 0, .3])
            side = rng.choice(["left", "right", "top", "bottom"])
            b = {"left": (x0 - g - w, y0, x0 - g, y1), "right": (x1 + g, y0, x1 + g + w, y1),
                 "bottom": (x0, y0 - g - h, x1, y0 - g), "top": (x0, y1 + g, x1, y1 + g + h)}[side]
            prims.append({"key": key, "kind": "quad", "truth": [
                [float(b[0]), float(b[1])], [float(b[2]), float(b[1])],
                [float(b[2]), float(b[3])], [float(b[0]), float(b[3])]]})


def perturb(rng, prims, scale):
    """Start coordinates: the truth, moved (shared vertices move together)"""
    def mv(v):
        if isinstance(v, dict):
            return dict(v)
        return [r(v[0] + rng.uniform(-scale, scale)), r(v[1] + rng.uniform(-scale, scale))]

    for p in prims:
        t = p["truth"]
        if p["kind"] == "point":
            p["pts"] = mv(t)
        elif p["kind"] == "axes":
            p["pts"] = {k: ([mv(v) for v in q] if k.endswith("Axis") or k == "Frame" else mv(q))
                        for k, q in t.items()}
        else:
            p["pts"] = [mv(v) for v in t]


def set_start(prims, how="truth"):
    for p in prims:
        if how == "truth":
            p["pts"] = p["truth"]


def integral(rng, prims, p):
    """Some of the primitives start from whole numbers, given as integers"""
    for q in prims:
        if rng.random() >= p or not q.get("pts") or q.get("cls") or (q["kind"] == "point" and isinstance(q["pts"], dict)):
            continue
        vals = q["pts"].values() if isinstance(q["pts"], dict) else [q["pts"]]

        def conv(v):
            return dict(v) if isinstance(v, dict) else [float(round(x)) for x in v]

        def many(v):
            return conv(v) if isinstance(v, dict) or not isinstance(v[0], (list, dict)) else [conv(w) for w in v]
        ok = True
        for v in vals:
            if isinstance(v, list) and isinstance(v[0], (list, dict)):
                w = [tuple(round(x) for x in u) for u in v if isinstance(u, list)]
                ok = ok and len(set(w)) == len(w) and len(w) == len(v)
        if ok:
            q["pts"] = {k: many(v) for k, v in q["pts"].items()} if isinstance(q["pts"], dict) else many(q["pts"])
            q["num"] = rng.choice(["int", "tuple"])


def plain_starts(rng, prims):
    """Give some primitives integer coordinates or none at all"""
    c = rng.random()
    if c < .15:
        integral(rng, prims, rng.choice([.3, 1]))
    elif c < .25:
        bare(rng, prims, rng.choice([.3, 1]))


def bare(rng, prims, p):
    """Some of the primitives are made without giving any coordinates"""
    sq = box_pts(0, 0, 1, 1)
    for q in prims:
        if rng.random() >= p or not q.get("pts") or q.get("cls") or "ref" in json.dumps(q["pts"]):
            continue
        kind = q["kind"]
        if kind == "quad":
            q["pts"] = [list(v) for v in sq]
        elif kind == "axes":
            q["pts"] = {k: ([list(v) for v in sq] if k.endswith("Axis") or k == "Frame" else [0.0, 0.0])
                        for k in q["pts"]}
        elif kind == "point":
            q["pts"] = [0.0, 0.0]
        elif kind == "line":
            q["pts"] = [[0.0, 0.0], [0.0, 1.0]]
        elif kind == "polygon":
            n = len(q["pts"])
            q["pts"] = [[math.cos(2 * math.pi / n * i), math.sin(2 * math.pi / n * i)] for i in range(n)]
        else:
            continue
        q["bare"] = True


def default_start(prims):
    """The package's default coordinates (unit squares, origin points)"""
    sq = box_pts(0, 0, 1, 1)
    for p in prims:
        if p["kind"] == "quad":
            p["pts"] = [list(v) for v in sq]
        elif p["kind"] == "axes":
            p["pts"] = {k: ([list(v) for v in sq] if k.endswith("Axis") or k == "Frame" else [0.0, 0.0])
                        for k in p["truth"]}
        else:
            p["pts"] = p["truth"]


def truth_geo(prims, field="truth"):
    return Geo(build.expand_all(prims, field))


# ---------------------------------------------------------------- inventory

def inventory(prims):
    inv = {"point": [], "line": [], "quad": [], "axes": [], "frame": []}
    for p in prims:
        k = p["key"]
        if p["kind"] == "group":
            continue
        if p["kind"] == "point":
            inv["point"].append(k)
        elif p["kind"] == "line":
            inv["line"].append(k)
            inv["point"] += [k + "/Point0", k + "/Point1"]
        elif p["kind"] in ("quad", "polygon"):
            n = len(p["truth"])
            if p["kind"] == "quad":
                inv["quad"].append(k)
            for i in range(n):
                inv["line"].append(f"{k}/Line{i}")
                inv["point"] += [f"{k}/Line{i}/Point0", f"{k}/Line{i}/Point1"]
        else:
            inv["axes"].append(k)
            for ck in build.axes_children(p["opts"]):
                if ck.endswith("Label"):
                    inv["point"].append(f"{k}/{ck}")
                else:
                    q = f"{k}/{ck}"
                    inv["quad"].append(q)
                    if ck == "Frame":
                        inv["frame"].append(q)
                    for i in range(4):
                        inv["line"].append(f"{q}/Line{i}")
                        inv["point"] += [f"{q}/Line{i}/Point0", f"{q}/Line{i}/Point1"]
    return inv


# ------------------------------------------------- parameters from a geometry

def pl(x):
    """JSON parameter from a measured list"""
    x = [float(v) for v in np.asarray(x, dtype=float).ravel()]
    return x


def fill(spec, G):
    """Recompute the value parameters of a spec so that it holds in G"""
    t, kw, P = spec["type"], spec.get("kw", {}), spec["prims"]
    V = list(spec.get("params", []))
    s = dict(spec)
    if t in VALUE_TYPES:
        npre = PRE.get(t, 0)
        m = pl(model.measure(VALUE_TYPES[t], kw, P, G, V[:npre]))
        s["params"] = V[:npre] + [m if t == "Fix" else m[0]]
    elif t == "RelativeLength":
        s["params"] = [G.length(P[0]) / G.length(P[1])]
    elif t == "OuterMarginArray":
        s["params"] = [model.m_margin(G, True, kw["side"], P[n], P[n + 1]) for n in range(len(P) - 1)]
    elif t == "Grid":
        nr, nc = kw["shape"]
        at = lambda i, j: P[i * nc + j]
        s["params"] = [
            [G.length(at(0, j) + "/Line0") / G.length(at(0, 0) + "/Line0") for j in range(1, nc)],
            [G.length(at(i, 0) + "/Line1") / G.length(at(0, 0) + "/Line1") for i in range(1, nr)],
            [model.m_margin(G, True, "right", at(0, j), at(0, j + 1)) for j in range(nc - 1)],
            [model.m_margin(G, True, "bottom", at(i, 0), at(i + 1, 0)) for i in range(nr - 1)],
        ]
    elif t in ("PositionAxisLabel", "PositionXAxisLabel", "PositionYAxisLabel"):
        s["params"] = [0.0]
        s["params"] = [float(model.residual(s, G)[0])]
    elif t == "d:constraint":
        npre = PRE.get(kw["of"], 0)
        m = pl(model.measure(kw["of"], kw, P, G, V[:npre]))
        s["params"] = V[:npre] + [m if len(m) > 1 else m[0]]
    elif t in ("d:lincomb", "d:pow", "d:div"):
        z = {"d:lincomb": [0.0], "d:pow": [0.0], "d:div": [0.0]}[t]
        s["params"] = z
        m = pl(model.residual(s, G))
        s["params"] = [m if len(m) > 1 else m[0]]
    elif t == "d:scalar":
        s["params"] = [V[0], 0.0]
        m = pl(model.residual(s, G))
        s["params"] = [V[0], m if len(m) > 1 else m[0]]
    elif t == "d:partial":
        inner = fill({"type": kw["of"], "kw": kw.get("kw", {}), "prims": P,
                      "params": list(kw.get("pre", []))}, G)
        s["kw"] = dict(kw)
        k = kw["nfree"]
        s["kw"]["frozen"] = inner["params"][k:]
        s["params"] = inner["params"][:k]
    elif t == "d:map":
        m = kw["nprims"] - 1
        n = len(P) - m
        out = []
        for i in range(n):
            out += fill({"type": kw["of"], "kw": kw.get("kw", {}),
                         "prims": [P[i]] + list(P[len(P) - m:]), "params": list(kw.get("pre", []))}, G)["params"]
        s["params"] = out
    elif t == "d:cmap":
        s["params"] = [pl(model.mapped(kw, P, G))]
    elif t == "u:fixx":
        s["params"] = [float(G.pt(P[0])[0])]
    elif t == "u:pair":
        s["params"] = [float(G.pt(P[0])[0]), float(G.pt(P[0])[1])]
    elif t in ("XAxisThickness", "YAxisThickness", "AxisThickness"):
        s["params"] = [None]
    return s


def has_value(spec):
    return spec["type"] in VALUE_TYPES or spec["type"] in (
        "RelativeLength", "OuterMarginArray", "Grid", "PositionAxisLabel", "PositionXAxisLabel",
        "PositionYAxisLabel", "u:fixx", "u:pair") or spec["type"].startswith("d:")


# ----------------------------------------------------------- random constraints

def _dirvec(rng):
    c = rng.random()
    if c < .3:
        return [1.0, 0.0]
    if c < .6:
        return [0.0, 1.0]
    a = rng.uniform(0, 2 * math.pi)
    return [r(math.cos(a)), r(math.sin(a))]


CATALOG = [
    "Fix", "DirectedDistance", "XDistance", "YDistance", "Coincident", "Length",
    "DirectedLength", "XLength", "YLength", "Vertical", "Horizontal", "RelativeLength",
    "MidpointXDistance", "MidpointYDistance", "Orthogonal", "Parallel", "Angle",
    "Collinear", "CoincidentLines", "PointOnLineDistance", "PointToLineDistance",
    "RelativePointOnLineDistance", "Box", "Width", "Height", "AspectRatio",
    "XAxisThickness", "YAxisThickness", "AxisThickness", "OuterMargin", "InnerMargin",
    "OuterMarginArray", "Align", "AlignRow", "AlignColumn", "CoincidentOutwardFaces",
    "RectilinearGrid", "Grid", "PositionAxis", "PositionXAxis", "PositionYAxis",
    "PositionAxisLabel", "PositionXAxisLabel", "PositionYAxisLabel",
    "d:constraint", "d:lincomb", "d:pow", "d:div", "d:scalar", "d:partial", "d:map",
    "d:cmap",
    "u:fixx", "u:pair",
]


def random_spec(rng, t, prims, inv, G, info=None, loose=False):
    """
    A constraint of type `t` that the geometry G satisfies (or any, if `loose`), or None

    Degenerate operands (zero-length lines where a direction is needed, angles
    near the branch cut) are avoided.
    """
    good = lambda l: G.length(l) > 0.15
    pick = lambda kind: rng.choice(inv[kind]) if inv[kind] else None
    goodline = lambda: next((l for l in (pick("line") for _ in range(12)) if l and good(l)), None)

    def sp(P, params=(), kw=None):
        if any(p is None for p in P):
            return None
        s = {"type": t, "kw": kw or {}, "prims": list(P), "params": list(params)}
        s = fill(s, G)
        res = np.asarray(model.residual(s, G), dtype=float)
        if not np.all(np.isfinite(res)) or not loose and np.max(np.abs(res), initial=0) > 1e-9:
            return None
        return s

    def tries(make, n=25):
        for _ in range(n):
            s = make()
            if s is not None:
                return s
        return None

    def points2():
        if len(inv["point"]) < 2:
            return None, None
        for _ in range(10):
            a, b = rng.sample(inv["point"], 2)
            return a, b

    def lines2(needgood=True):
        a, b = (goodline(), goodline()) if needgood else (pick("line"), pick("line"))
        return (a, b) if a != b else (None, None)

    def quads2():
        if len(inv["quad"]) < 2:
            return None, None
        return rng.sample(inv["quad"], 2)

    if t == "Fix":
        return sp([pick("point")])
    if t in ("XDistance", "YDistance"):
        return sp(points2())
    if t == "DirectedDistance":
        return sp(points2(), [_dirvec(rng)])
    if t == "Coincident":
        return tries(lambda: sp(points2()), 60)
    if t in ("XLength", "YLength"):
        return sp([pick("line")])
    if t == "Length":
        return sp([goodline()])
    if t == "DirectedLength":
        return sp([pick("line")], [_dirvec(rng)])
    if t in ("Vertical", "Horizontal"):
        return tries(lambda: sp([goodline()]))
    if t == "RelativeLength":
        return sp(lines2())
    if t in ("MidpointXDistance", "MidpointYDistance"):
        return sp(lines2(False))
    if t in ("Orthogonal", "Parallel", "Collinear"):
        return tries(lambda: sp(lines2()))
    if t == "Angle":
        def mk():
            a, b = lines2()
            if a is None:
                return None
            va, vb = G.vec(a), G.vec(b)
            aa, ab = math.atan2(va[1], va[0]), math.atan2(vb[1], vb[0])
            if abs((ab - aa + math.pi) % (2 * math.pi) - math.pi) > 2.5:
                return None
            return sp([a, b])
        return tries(mk)
    if t == "CoincidentLines":
        return tries(lambda: sp(lines2(), [rng.random() < .5]), 60)
    if t in ("PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance"):
        return sp([pick("point"), goodline()], [rng.random() < .5])
    if t in ("Box", "Width", "Height"):
        return tries(lambda: sp([pick("quad")]))
    if t == "AspectRatio":
        q = pick("quad")
        if q is None or not (good(q + "/Line0") and good(q + "/Line1")):
            return None
        return sp([q])
    if t in ("XAxisThickness", "YAxisThickness"):
        return tries(lambda: sp([pick("quad")]), 15)
    if t == "AxisThickness":
        return tries(lambda: sp([pick("quad")], kw={"axis": rng.choice("xy")}), 15)
    if t in ("OuterMargin", "InnerMargin"):
        return sp(quads2(), kw={"side": rng.choice(["left", "right", "top", "bottom"])})
    if t == "OuterMarginArray":
        if len(inv["quad"]) < 2:
            return None
        n = rng.randint(2, min(4, len(inv["quad"])))
        return sp(rng.sample(inv["quad"], n), kw={"shape": [n], "side": rng.choice(["left", "right", "top", "bottom"])})
    if t in ("AlignRow", "AlignColumn"):
        return tries(lambda: sp(quads2()))
    if t == "Align":
        return tries(lambda: sp(quads2(), kw={"row": rng.random() < .5}))
    if t == "CoincidentOutwardFaces":
        return tries(lambda: sp(quads2(), kw={"side": rng.choice(["left", "right", "top", "bottom"])}), 60)
    if t in ("RectilinearGrid", "Grid"):
        if info and info.get("grid") and rng.random() < .8:
            g = info["grid"]
            return sp([k + "/Frame" for k in g["keys"]], kw={"shape": g["shape"]})
        if len(inv["frame"]) < 1:
            return None
        def mk():
            n = rng.randint(1, min(3, len(inv["frame"])))
            qs = rng.sample(inv["frame"], n)
            return sp(qs, kw={"shape": [1, n] if rng.random() < .5 else [n, 1]})
        return tries(mk)
    if t in ("PositionAxis", "PositionXAxis", "PositionYAxis"):
        if not info:
            return None
        def mk():
            if not info["axes"]:
                return None
            ax = rng.choice(info["axes"])
            c = {"PositionXAxis": "x", "PositionYAxis": "y"}.get(t) or rng.choice("xy")
            if not ax["opts"][c + "axis"]:
                return None
            kw = {"side": ax[c + "side"], "twin": bool(ax["opts"]["twin" + c])}
            if t == "PositionAxis":
                kw["axis"] = c
            if not kw["twin"] or rng.random() < .3:
                kw.pop("twin")
            return sp([ax["key"]], kw=kw)
        return tries(mk, 10)
    if t in ("PositionAxisLabel", "PositionXAxisLabel", "PositionYAxisLabel"):
        if not info:
            return None
        def mk():
            if not info["axes"]:
                return None
            ax = rng.choice(info["axes"])
            c = {"PositionXAxisLabel": "x", "PositionYAxisLabel": "y"}.get(t) or rng.choice("xy")
            if not ax["opts"][c + "axis"]:
                return None
            kw = {"twin": bool(ax["opts"]["twin" + c]) and rng.random() < .6}
            if t == "PositionAxisLabel":
                kw["axis"] = c
            return sp([ax["key"]], kw=kw)
        return tries(mk, 10)
    # ------------------------------------------------------------- derived
    if t == "d:constraint":
        of = rng.choice(["LineVector", "UnitLineVector", "Midpoint", "MidpointDirectedDistance",
                         "Coordinate", "Length", "OuterMargin", "InnerMargin", "DirectedDistance",
                         "PointToLineDistance", "Width"])
        if of == "Width":
            return sp([pick("quad")], kw={"of": of})
        if of in ("LineVector", "UnitLineVector", "Midpoint", "Length"):
            return sp([goodline()], kw={"of": of})
        if of == "MidpointDirectedDistance":
            return sp(lines2(False), [_dirvec(rng)], kw={"of": of})
        if of == "DirectedDistance":
            return sp(points2(), [_dirvec(rng)], kw={"of": of})
        if of == "PointToLineDistance":
            return sp([pick("point"), goodline()], [rng.random() < .5], kw={"of": of})
        if of == "Coordinate":
            return sp([pick("point")], kw={"of": of})
        return sp(quads2(), kw={"of": of, "side": rng.choice(["left", "right", "top", "bottom"])})
    if t == "d:lincomb":
        fam = rng.choice(["leaf", "vec", "quad", "margin"])
        ca = rng.choice([1, -1, 2.0, 0.5, 3])
        cb = rng.choice([1, -1, -2.0, 0.25, 2])
        kw = {"ca": ca, "cb": cb, "r": rng.random() < .5}
        if fam == "leaf":
            A = ["Length", "XLength", "YLength"]
            kw.update(a=rng.choice(A), b=rng.choice(A), na=1)
            return sp([goodline(), goodline()], kw=kw)
        if fam == "vec":
            A = ["Midpoint", "LineVector", "UnitLineVector"]
            kw.update(a=rng.choice(A), b=rng.choice(A), na=1)
            return sp([goodline(), goodline()], kw=kw)
        if fam == "quad":
            a = rng.choice(["Width", "Height"])
            kw.update(a=a, b=a, na=1)
            return sp(quads2(), kw=kw)
        a = rng.choice(["OuterMargin", "InnerMargin"])
        kw.update(a=a, b=a, na=2, side=rng.choice(["left", "right", "top", "bottom"]))
        q = list(quads2()) + list(quads2())
        return sp(q, kw=kw)
    if t == "d:pow":
        return sp([goodline()], kw={"of": "Length", "p": rng.choice([2, 2.0, 0.5, -1])})
    if t == "d:div":
        of = rng.choice(["Length", "Midpoint", "XLength"])
        return sp([goodline()], kw={"of": of, "by": rng.choice([2, 4.0, 0.5])})
    if t == "d:scalar":
        of = rng.choice(["Length", "Midpoint", "XLength"])
        return sp([goodline()], [rng.choice([2.0, 0.5, -1.0])], kw={"of": of, "r": rng.random() < .5})
    if t == "d:partial":
        of = rng.choice(["Length", "Fix", "Width", "XDistance", "PointOnLineDistance", "OuterMargin"])
        if of == "PointOnLineDistance":
            P = [pick("point"), goodline()]
            pre, nfree = [rng.random() < .5], rng.choice([0, 1])
        else:
            pre, nfree = [], 0
            P = {"Length": lambda: [goodline()], "Fix": lambda: [pick("point")],
                 "Width": lambda: [pick("quad")], "XDistance": points2,
                 "OuterMargin": quads2}[of]()
        kw = {"of": of, "pre": pre, "nfree": nfree}
        if of == "OuterMargin":
            kw["kw"] = {"side": rng.choice(["left", "right", "top", "bottom"])}
        return sp(P, kw=kw)
    if t == "d:map":
        of, kind, nprims, nparams, pre = rng.choice([
            ("Length", "line", 1, 1, []), ("XLength", "line", 1, 1, []),
            ("RelativeLength", "line", 2, 1, []), ("Box", "quad", 1, 0, []),
            ("Width", "quad", 1, 1, []), ("Fix", "point", 1, 1, []),
            ("XDistance", "point", 2, 1, []), ("OuterMargin", "quad", 2, 1, []),
            ("DirectedLength", "line", 1, 2, [[1.0, 0.0]]),
        ])
        n = rng.randint(nprims, nprims + 2)
        kw = {"of": of, "kind": kind, "nprims": nprims, "nparams": nparams, "pre": pre, "n": n}
        if of == "OuterMargin":
            kw["kw"] = {"side": rng.choice(["left", "right", "top", "bottom"])}

        def mk():
            if kind == "line":
                P = [goodline() for _ in range(n)]
            else:
                if len(inv[kind]) < n:
                    return None
                P = rng.sample(inv[kind], n)
            if any(p is None for p in P):
                return None
            return sp(P, kw=kw)
        return tries(mk, 8)
    if t == "d:cmap":
        of, kind, nprims = rng.choice([
            ("Width", "quad", 1), ("Height", "quad", 1), ("OuterMargin", "quad", 2), ("InnerMargin", "quad", 2),
            ("Length", "line", 1), ("Midpoint", "line", 1), ("XDistance", "point", 2), ("MidpointYDistance", "line", 2),
        ])
        n = rng.randint(nprims, nprims + 2)
        kw = {"of": of, "kind": kind, "nprims": nprims, "n": n, "deep": of not in ("Length", "XDistance") and
              rng.random() < .3}
        if of.endswith("Margin"):
            kw["side"] = rng.choice(["left", "right", "top", "bottom"])

        def mk():
            if len(inv[kind]) < n:
                return None
            P = [goodline() for _ in range(n)] if of == "Length" else rng.sample(inv[kind], n)
            if any(p is None for p in P):
                return None
            return sp(P, kw=kw)
        return tries(mk, 8)
    if t == "u:fixx":
        return sp([pick("point")])
    if t == "u:pair":
        return sp([pick("point")])
    raise KeyError(t)


def core_constraints(rng, prims, info, G):
    """Constraints that (nearly) determine the arrangement, in varied forms"""
    out = []

    def add(t, P, params=(), **kw):
        s = fill({"type": t, "kw": kw, "prims": list(P), "params": list(params)}, G)
        res = np.asarray(model.residual(s, G), float)
        if np.max(np.abs(res), initial=0) > 1e-9:
            raise AssertionError(("core constraint not satisfied by the truth", s, res))
        out.append(s)

    fig = info.get("fig")
    if fig:
        add("Box", [fig])
        c = rng.random()
        if c < .4:
            add("Width", [fig]), add("Height", [fig])
        elif c < .55:
            add("Width", [fig]), add("AspectRatio", [fig])
        elif c < .7:
            add("XLength", [fig + "/Line0"]), add("YLength", [fig + "/Line1"])
        elif c < .85:
            add("Length", [fig + "/Line0"]), add("DirectedLength", [fig + "/Line3"], [[0.0, -1.0]])
        else:
            add("Height", [fig]), add("RelativeLength", [fig + "/Line0", fig + "/Line1"])
        if rng.random() < .85:
            add("Fix", [fig + rng.choice(["/Line0/Point0", "/Line3/Point1"])])
    frames = [a["key"] + "/Frame" for a in info["axes"]]
    grid = info.get("grid")
    placed = []
    if grid:
        for f in frames[:1]:
            add("Box", [f])
        add("Grid", frames, shape=grid["shape"])
        if rng.random() < .5:
            for f in frames[1:]:
                add("Box", [f])
        f = frames[0]
        add("Width", [f]), add("Height", [f])
        if fig and rng.random() < .6:
            add("InnerMargin", [f, fig], side="left"), add("InnerMargin", [f, fig], side="top")
        else:
            add("Fix", [f + "/Line0/Point0"])
        placed = list(frames)
    else:
        for f in frames:
            add("Box", [f])
            c = rng.random()
            if fig and c < .45:
                sides = ["left", "right", "bottom", "top"]
                rng.shuffle(sides)
                for s in sides:
                    add("InnerMargin", [f, fig], side=s)
            elif fig and c < .7:
                add("InnerMargin", [f, fig], side=rng.choice(["left", "right"]))
                add("InnerMargin", [f, fig], side=rng.choice(["bottom", "top"]))
                add("Width", [f])
                add(rng.choice(["Height", "AspectRatio"]), [f])
            elif fig and c < .85:
                add("XDistance", [fig + "/Line0/Point0", f + "/Line0/Point0"])
                add("YDistance", [fig + "/Line0/Point0", f + "/Line0/Point0"])
                add("XLength", [f + "/Line2"]), add("YLength", [f + "/Line3"])
            elif placed:
                o = rng.choice(placed)
                add("OuterMargin", [f, o], side=rng.choice(["left", "right"]))
                add("OuterMargin", [f, o], side=rng.choice(["bottom", "top"]))
                add("Width", [f]), add("RelativeLength", [f + "/Line1", o + "/Line1"])
            else:
                add("Fix", [f + "/Line1/Point1"]), add("Width", [f]), add("Height", [f])
            placed.append(f)
    for ax in info["axes"]:
        k = ax["key"]
        for c in "xy":
            if not ax["opts"][c + "axis"]:
                continue
            C = c.upper()
            twin = bool(ax["opts"]["twin" + c])
            kw = {"side": ax[c + "side"]}
            if twin or rng.random() < .3:
                kw["twin"] = twin
            if rng.random() < .7:
                add(f"Position{C}Axis", [k], **kw)
            else:
                add("PositionAxis", [k], axis=c, **kw)
            for tw in (["", "Twin"] if twin else [""]):
                q = f"{k}/{tw}{C}Axis"
                add("Box", [q])
                dim = "/Line1" if c == "x" else "/Line0"
                t = G.vec(q + dim)[1 if c == "x" else 0]
                if abs(t) < 1e-12 and rng.random() < .7:
                    if rng.random() < .7:
                        add(f"{C}AxisThickness", [q])
                    else:
                        add("AxisThickness", [q], axis=c)
                else:
                    add("Height" if c == "x" else "Width", [q])
                lab = f"{k}/{tw}{C}AxisLabel"
                if rng.random() < .8:
                    if rng.random() < .7:
                        add(f"Position{C}AxisLabel", [k], twin=bool(tw))
                    else:
                        add("PositionAxisLabel", [k], axis=c, twin=bool(tw))
                    if rng.random() < .6:
                        line = q + ("/Line0" if c == "x" else "/Line1")
                        if G.length(line) > .1:
                            add("PointToLineDistance", [lab, line], [rng.random() < .5])
                    else:
                        ref = k + "/Frame/Line0/Point0"
                        add("YDistance" if c == "x" else "XDistance", [ref, lab])
                else:
                    add("Fix", [lab])
    return out


def gen_layout(rng, size="m", perturb_scale=None, start=None, n_random=None, types=None,
               keys=None, keyed_p=0.25, touch=0, focus=(), axis_p=None, core_p=.85):
    """A full recipe: primitives (start + truth) and constraints satisfied by the truth"""
    if size == "xs":
        fig = rng.random() < .6
        kw = dict(n_axes=rng.choice([0, 0, 1]) if fig else 1, axis_p=.12, twin_p=.2, extras=2, fig=fig)
    elif size == "s":
        kw = dict(n_axes=rng.choice([0, 1, 1]), axis_p=.25, twin_p=.2, extras=1)
    elif size == "m":
        kw = dict(n_axes=rng.choice([1, 1, 2, 2, 3]), axis_p=.4, extras=2)
    else:
        kw = dict(n_axes=rng.choice([2, 3, 4]), axis_p=.6, extras=2)
    grid = None
    if size not in ("s", "xs") and rng.random() < .3:
        grid = rng.choice([(1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)] if size != "l"
                          else [(2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1)])
        kw["axis_p"] = .2
        if rng.random() < .3:
            grid = rng.choice([(1, 4), (4, 1), (1, 5), (5, 1), (2, 4), (2, 4), (2, 4), (4, 2), (4, 2), (3, 4)])
            kw["axis_p"] = 0
            core_p *= .15
        kw["extras"] = 1
    if axis_p is not None:
        kw["axis_p"] = axis_p
    prims, info = gen_geometry(rng, grid=grid, keys=keys, **kw)
    if touch:
        add_touching(rng, prims, touch)
    G = truth_geo(prims)
    cons = core_constraints(rng, prims, info, G) if rng.random() < core_p else []
    inv = inventory(prims)
    n = n_random if n_random is not None else rng.randint(0, 6)
    for t in list(focus) + [rng.choice(types or CATALOG) for _ in range(n)]:
        s = random_spec(rng, t, prims, inv, G, info)
        if s is not None:
            cons.append(s)
    while not cons:
        s = random_spec(rng, rng.choice(CATALOG), prims, inv, G, info)
        if s is not None:
            cons.append(s)
    if rng.random() < .5:
        rng.shuffle(cons)
    used = set()
    for i, s in enumerate(cons):
        s["key"] = ""
        if rng.random() < keyed_p:
            k = rng.choice([f"c{i}", f"my constraint {i}", f"{s['type'].replace(':', '')}{i + 50}", f"Margin.{i}"])
            if k not in used:
                used.add(k)
                s["key"] = k
        if s["type"] == "Grid":
            s["as"] = rng.choice(["array", "tuple"])
        if rng.random() < .2:
            s["num"] = rng.choice(["np", "int"])
    if start is None:
        start = rng.choice(["perturb"] * 5 + ["default"])
    if start == "default":
        default_start(prims)
    elif start == "truth":
        set_start(prims)
    else:
        perturb(rng, prims, perturb_scale if perturb_scale is not None else rng.choice([.02, .05, .1, .15]))
    return {"prims": prims, "cons": cons, "info": info, "start": start,
            "share_objs": rng.random() < .2}


def retruth(rng, recipe):
    """
    A new ground truth with the same structure (scaled/shifted), with the
    parameters recomputed; None if structural constraints cannot follow
    """
    prims = recipe["prims"]
    mode = rng.choice(["aniso", "iso"])
    for mode in (mode, "iso"):
        sx = rng.uniform(.7, 1.4)
        sy = rng.uniform(.7, 1.4) if mode == "aniso" else sx
        tx, ty = rng.uniform(-.5, .5), rng.uniform(-.5, .5)

        def mv(v):
            if isinstance(v, dict):
                return dict(v)
            return [v[0] * sx + tx, v[1] * sy + ty]
        new = []
        for p in prims:
            q = dict(p)
            t = p["truth"]
            if p["kind"] == "point":
                q["truth"] = mv(t)
            elif p["kind"] == "axes":
                q["truth"] = {k: ([mv(v) for v in z] if k.endswith("Axis") or k == "Frame" else mv(z))
                              for k, z in t.items()}
            else:
                q["truth"] = [mv(v) for v in t]
            new.append(q)
        G = truth_geo(new)
        cons = []
        ok = True
        for s in recipe["cons"]:
            if s["type"] == "Angle":
                va, vb = G.vec(s["prims"][0]), G.vec(s["prims"][1])
            z = fill(s, G) if has_value(s) else dict(s)
            if s["type"] == "d:partial" and z["kw"]["frozen"] != s["kw"]["frozen"]:
                ok = False      # frozen parameters are part of the object
                break
            res = np.asarray(model.residual(z, G), float)
            if not np.all(np.isfinite(res)) or np.max(np.abs(res), initial=0) > 1e-8:
                ok = False
                break
            cons.append(z)
        if ok:
            return {**recipe, "prims": new, "cons": cons}
    return None


# ------------------------------------------------------------------ faults

TYPICAL = {      # how the real calls fail
    "lstsq": ["LinAlgError", "LinAlgError", "MemoryError", "KeyboardInterrupt"],
    "minimize": ["ValueError", "FloatingPointError", "MemoryError", "KeyboardInterrupt"],
    "user.assem": ["ValueError", "TypeError", "KeyError", "FloatingPointError"],
    "user.child_params": ["ValueError", "TypeError", "KeyError"],
    "jit.call": ["RuntimeError", "MemoryError", "FloatingPointError", "KeyboardInterrupt"],
    "jacfwd.call": ["RuntimeError", "MemoryError", "FloatingPointError", "KeyboardInterrupt"],
    "axis.get_tightbbox": ["RuntimeError", "ValueError", "MemoryError", "KeyboardInterrupt"],
}


def seam_fault(rng, op, actor=0, names=("*",), excs=None, max_nth=12, when=("before", "after")):
    name = rng.choice(list(names))
    exc = rng.choice(excs or ["MemoryError", "KeyboardInterrupt", "RuntimeError", "LinAlgError"])
    typical = [e for e in TYPICAL.get(name, ()) if excs is None or e in excs]
    if typical and rng.random() < .6:
        exc = rng.choice(typical)
    nth = 0 if rng.random() < .2 else int(min(rng.expovariate(1 / (max_nth / 3)), max_nth))
    return {"actor": actor, "op": op, "at": "seam", "name": name, "nth": nth, "when": rng.choice(list(when)), "exc": exc}


def line_fault(rng, op, actor=0, hi=4000, excs=("KeyboardInterrupt",)):
    return {"actor": actor, "op": op, "at": "line",
            "nth": max(1, int(hi ** rng.random())), "exc": rng.choice(list(excs))}


def sched_policy(rng, hot=None, horizon=4000, fns=()):
    """`fns`: functions in which many switches are worth trying"""
    c = rng.random()
    seed = rng.randrange(1 << 30)
    if fns and rng.random() < .45:
        k = rng.choice([1, 1, 2])
        return {"kind": "random", "seed": seed, "p": 0.0,
                "hot": {f: rng.choice([.15, .3, .5]) for f in rng.sample(list(fns), min(k, len(fns)))}}
    if c < .35:
        return {"kind": "pct", "seed": seed, "d": rng.choice([1, 2, 3, 5, 8]), "n": horizon}
    if c < .6:
        return {"kind": "random", "seed": seed, "p": rng.choice([.3, .1, .02, .004])}
    if c < .9:
        files = ["solver.py", "layout.py", "containers.py", "matplotlibutils.py", "seam",
                 "constraints.py", "constructions.py", "primitives.py"]
        h = {f: rng.choice([0, 0, .05, .3, .6]) for f in files}
        if hot:
            for f in hot:
                if rng.random() < .7:
                    h[f] = rng.choice([.1, .3, .6])
        return {"kind": "random", "seed": seed, "p": 0.001, "hot": h}
    return {"kind": "rr", "every": rng.choice([1, 2, 3, 7, 50])}


# -------------------------------------------------------------------- pools

def pooled(prop, seed, index, make, block=320, size=8):
    """
    `size` recipes shared by a block of consecutive runs (their compiled
    kernels are then reused); returns `pick(rng)`
    """
    b = index // block
    cache = {}

    def pick(rng, j=None):
        j = rng.randrange(size) if j is None else j % size
        if j not in cache:
            cache[j] = make(rng_for(prop, seed, f"pool{b}.{j}"))
        return json.loads(json.dumps(cache[j]))
    return pick


def nest(rng, rec, depth):
    """Put some of the top-level primitives of a recipe below nested plain containers"""
    names = rng.sample(["Group", "Row", "Part", "Inner", "Extra"], depth)
    prefix = "/".join(names)
    ren = {p["key"]: f"{prefix}/{p['key']}" for p in rec["prims"] if "/" not in p["key"] and rng.random() < .6}

    def path(p):
        head, *rest = p.split("/")
        return "/".join([ren.get(head, head)] + rest)

    def conv(v):
        if isinstance(v, dict):
            return {"ref": path(v["ref"])} if "ref" in v else {k: conv(x) for k, x in v.items()}
        return [conv(x) for x in v] if isinstance(v, list) else v
    for p in rec["prims"]:
        p["key"] = path(p["key"])
        for what in ("pts", "truth"):
            if what in p:
                p[what] = conv(p[what])
    for s in rec["cons"]:
        s["prims"] = [path(q) for q in s["prims"]]
    rec["prims"][:0] = [{"key": "/".join(names[:k + 1]), "kind": "group", "pts": [], "truth": []} for k in range(depth)]
