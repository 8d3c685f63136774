"""
Independent reference model

Works on plain coordinates (`{path of a point: (x, y)}`), written from the
documented meaning of the constraints and not from their implementation.

A constraint spec is JSON:
    {"type": name, "kw": {...}, "prims": [path, ...], "params": [...], "key": ""}
`residual(spec, G)` returns the list of deviations from the constraint's
documented meaning; all are zero exactly when the constraint is satisfied.
"""

import math

import numpy as np

SIDES = ("bottom", "right", "top", "left")   # Line0..Line3


class Geo:
    """Coordinates by point path, e.g. `G.pt("Axes0/Frame/Line0/Point1")`"""

    def __init__(self, coords):
        self.c = coords

    def pt(self, path):
        return np.asarray(self.c[path], dtype=float)

    def line(self, path):
        return self.pt(path + "/Point0"), self.pt(path + "/Point1")

    def vec(self, path):
        a, b = self.line(path)
        return b - a

    def length(self, path):
        return float(np.hypot(*self.vec(path)))

    def mid(self, path):
        a, b = self.line(path)
        return (a + b) / 2

    def side(self, quad, side):
        return f"{quad}/Line{SIDES.index(side)}"


def from_tree(root):
    """Coordinates of every point of a primitive tree (by public tree access)"""
    out = {}

    def visit(node, path):
        for k, c in node.children.items():
            p = f"{path}/{k}" if path else k
            if len(c.children) == 0:
                v = np.asarray(c.value, dtype=float)
                if v.shape == (2,):
                    out[p] = v
            else:
                visit(c, p)
    visit(root, "")
    return Geo(out)


def cross(a, b):
    return float(a[0] * b[1] - a[1] * b[0])


OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def m_margin(G, outer, side, q0, q1):
    """
    Outer: gap from the `side` face of q0 outwards to the facing side of q1.
    Inner: distance from the `side` face of q0 (inside q1) out to q1's `side`.
    """
    f0 = G.mid(G.side(q0, side))
    f1 = G.mid(G.side(q1, OPP[side] if outer else side))
    ax = 0 if side in ("left", "right") else 1
    sign = 1 if side in ("right", "top") else -1
    return sign * float(f1[ax] - f0[ax])


def measure(name, kw, prims, G, pre=()):
    """The documented quantity of a construction (list of floats)"""
    if name == "Coordinate":
        return list(G.pt(prims[0]))
    if name == "DirectedDistance":
        d = G.pt(prims[1]) - G.pt(prims[0])
        return [float(np.dot(d, np.asarray(pre[0], float)))]
    if name == "XDistance":
        return [float(G.pt(prims[1])[0] - G.pt(prims[0])[0])]
    if name == "YDistance":
        return [float(G.pt(prims[1])[1] - G.pt(prims[0])[1])]
    if name == "LineVector":
        return list(G.vec(prims[0]))
    if name == "UnitLineVector":
        v = G.vec(prims[0])
        return list(v / math.hypot(*v))
    if name == "Length":
        return [G.length(prims[0])]
    if name == "DirectedLength":
        return [float(np.dot(G.vec(prims[0]), np.asarray(pre[0], float)))]
    if name == "XLength":
        return [float(G.vec(prims[0])[0])]
    if name == "YLength":
        return [float(G.vec(prims[0])[1])]
    if name == "Midpoint":
        return list(G.mid(prims[0]))
    if name == "MidpointDirectedDistance":
        d = G.mid(prims[1]) - G.mid(prims[0])
        return [float(np.dot(d, np.asarray(pre[0], float)))]
    if name == "MidpointXDistance":
        return [float(G.mid(prims[1])[0] - G.mid(prims[0])[0])]
    if name == "MidpointYDistance":
        return [float(G.mid(prims[1])[1] - G.mid(prims[0])[1])]
    if name == "Angle":
        v0, v1 = G.vec(prims[0]), G.vec(prims[1])
        return [math.atan2(v0[0] * v1[1] - v0[1] * v1[0], v0[0] * v1[0] + v0[1] * v1[1])]
    if name == "PointOnLineDistance":
        a, b = G.line(prims[1])
        if pre[0]:
            a, b = b, a
        u = (b - a) / math.hypot(*(b - a))
        return [float(np.dot(G.pt(prims[0]) - a, u))]
    if name == "PointToLineDistance":
        a, b = G.line(prims[1])
        u = (b - a) / math.hypot(*(b - a))
        n = np.array([-u[1], u[0]])     # counter-clockwise
        if pre[0]:
            n = -n
        return [float(np.dot(G.pt(prims[0]) - a, n))]
    if name == "RelativePointOnLineDistance":
        a, b = G.line(prims[1])
        if pre[0]:
            a, b = b, a
        return [float(np.dot(G.pt(prims[0]) - a, b - a) / np.dot(b - a, b - a))]
    if name == "Width":
        return [float(G.vec(prims[0] + "/Line0")[0])]
    if name == "Height":
        return [float(G.vec(prims[0] + "/Line1")[1])]
    if name == "AspectRatio":
        return [G.length(prims[0] + "/Line0") / G.length(prims[0] + "/Line1")]
    if name == "OuterMargin":
        return [m_margin(G, True, kw["side"], prims[0], prims[1])]
    if name == "InnerMargin":
        return [m_margin(G, False, kw["side"], prims[0], prims[1])]
    raise KeyError(name)


# number of leading parameters (before the value) of value constraints
PRE = {
    "DirectedDistance": 1, "DirectedLength": 1, "PointOnLineDistance": 1,
    "PointToLineDistance": 1, "RelativePointOnLineDistance": 1,
    "MidpointDirectedDistance": 1,
}

VALUE_TYPES = {
    # constraint class -> construction measured
    "Fix": "Coordinate", "DirectedDistance": "DirectedDistance",
    "XDistance": "XDistance", "YDistance": "YDistance", "Length": "Length",
    "DirectedLength": "DirectedLength", "XLength": "XLength", "YLength": "YLength",
    "MidpointXDistance": "MidpointXDistance", "MidpointYDistance": "MidpointYDistance",
    "Angle": "Angle", "PointOnLineDistance": "PointOnLineDistance",
    "PointToLineDistance": "PointToLineDistance",
    "RelativePointOnLineDistance": "RelativePointOnLineDistance",
    "Width": "Width", "Height": "Height", "AspectRatio": "AspectRatio",
    "OuterMargin": "OuterMargin", "InnerMargin": "InnerMargin",
}


def r_collinear(G, l0, l1):
    v0, v1 = G.vec(l0), G.vec(l1)
    a, _ = G.line(l0)
    c, _ = G.line(l1)
    return [cross(v0, v1), cross(v0, a - c)]


def r_coincident_lines(G, l0, l1, reverse):
    a, b = G.line(l0)
    c, d = G.line(l1)
    if reverse:
        c, d = d, c
    return list(c - a) + list(d - b)


def r_outward(G, side, q0, q1):
    return r_coincident_lines(G, G.side(q0, side), G.side(q1, OPP[side]), True)


def r_align(G, row, q0, q1):
    out = []
    for s in (("bottom", "top") if row else ("left", "right")):
        out += r_collinear(G, G.side(q0, s), G.side(q1, s))
    return out


def r_rectgrid(G, shape, prims):
    nr, nc = shape
    at = lambda i, j: prims[i * nc + j]
    out = []
    for i in range(nr):
        for j in range(nc - 1):
            out += r_align(G, True, at(i, j), at(i, nc - 1))
    for j in range(nc):
        for i in range(nr - 1):
            out += r_align(G, False, at(i, j), at(nr - 1, j))
    return out


def thickness_value(p):
    """Parameter of an axis thickness constraint: None or a measured number"""
    if p is None:
        return 0.0
    return float(p)


def mapped(kw, P, G):
    """Values of a mapped construction"""
    m = kw["nprims"] - 1
    out = []
    for i in range(len(P) - m):
        out += list(measure(kw["of"], kw, [P[i]] + list(P[len(P) - m:]), G))
    return [float(x) for x in out]


def residual(spec, G):
    t = spec["type"]
    kw = spec.get("kw", {})
    P = spec["prims"]
    V = spec["params"]

    if t in VALUE_TYPES:
        npre = PRE.get(t, 0)
        m = np.asarray(measure(VALUE_TYPES[t], kw, P, G, V[:npre]))
        return list(m - np.asarray(V[npre], dtype=float).ravel())
    if t == "Coincident":
        return list(G.pt(P[1]) - G.pt(P[0]))
    if t == "Vertical":
        return [float(G.vec(P[0])[0])]
    if t == "Horizontal":
        return [float(G.vec(P[0])[1])]
    if t == "RelativeLength":
        return [G.length(P[0]) - V[0] * G.length(P[1])]
    if t == "Orthogonal":
        return [float(np.dot(G.vec(P[0]), G.vec(P[1])))]
    if t == "Parallel":
        return [cross(G.vec(P[0]), G.vec(P[1]))]
    if t == "Collinear":
        return r_collinear(G, P[0], P[1])
    if t == "CoincidentLines":
        return r_coincident_lines(G, P[0], P[1], V[0])
    if t == "Box":
        q = P[0]
        return [
            float(G.vec(q + "/Line0")[1]), float(G.vec(q + "/Line2")[1]),
            float(G.vec(q + "/Line3")[0]), float(G.vec(q + "/Line1")[0]),
        ]
    if t == "XAxisThickness" or (t == "AxisThickness" and kw.get("axis", "x") == "x"):
        return [float(G.vec(P[0] + "/Line1")[1]) - thickness_value(V[0])]
    if t in ("YAxisThickness", "AxisThickness"):
        return [float(G.vec(P[0] + "/Line0")[0]) - thickness_value(V[0])]
    if t == "OuterMarginArray":
        return [
            m_margin(G, True, kw["side"], P[n], P[n + 1]) - V[n]
            for n in range(len(P) - 1)
        ]
    if t in ("AlignRow", "AlignColumn", "Align"):
        row = kw.get("row", True) if t == "Align" else t == "AlignRow"
        return r_align(G, row, P[0], P[1])
    if t == "CoincidentOutwardFaces":
        return r_outward(G, kw["side"], P[0], P[1])
    if t == "RectilinearGrid":
        return r_rectgrid(G, kw["shape"], P)
    if t == "Grid":
        nr, nc = kw["shape"]
        at = lambda i, j: P[i * nc + j]
        cw, rh, cm, rm = V
        out = r_rectgrid(G, kw["shape"], P)
        for j in range(1, nc):
            out.append(G.length(at(0, j) + "/Line0") - cw[j - 1] * G.length(at(0, 0) + "/Line0"))
        for i in range(1, nr):
            out.append(G.length(at(i, 0) + "/Line1") - rh[i - 1] * G.length(at(0, 0) + "/Line1"))
        for j in range(nc - 1):
            out.append(m_margin(G, True, "right", at(0, j), at(0, j + 1)) - cm[j])
        for i in range(nr - 1):
            out.append(m_margin(G, True, "bottom", at(i, 0), at(i + 1, 0)) - rm[i])
        return out
    if t in ("PositionAxis", "PositionXAxis", "PositionYAxis"):
        axis = {"PositionXAxis": "x", "PositionYAxis": "y"}.get(t) or kw.get("axis", "x")
        side = kw.get("side", "bottom" if axis == "x" else "left")
        if t == "PositionAxis":
            side = kw.get("side", "bottom")
        X = axis.upper() + "Axis"
        out = r_outward(G, side, P[0] + "/Frame", f"{P[0]}/{X}")
        if kw.get("twin", False):
            out += r_outward(G, OPP[side], P[0] + "/Frame", f"{P[0]}/Twin{X}")
        return out
    if t in ("PositionAxisLabel", "PositionXAxisLabel", "PositionYAxisLabel"):
        axis = {"PositionXAxisLabel": "x", "PositionYAxisLabel": "y"}.get(t) or kw.get("axis", "x")
        tw = "Twin" if kw.get("twin", False) else ""
        line = f"{P[0]}/Frame/Line0" if axis == "x" else f"{P[0]}/Frame/Line1"
        pt = f"{P[0]}/{tw}{axis.upper()}AxisLabel"
        return [measure("RelativePointOnLineDistance", {}, [pt, line], G, (False,))[0] - V[0]]
    # ---- derived constraints -------------------------------------------------
    if t == "d:constraint":          # transform_constraint(con.X)
        npre = PRE.get(kw["of"], 0)
        m = np.asarray(measure(kw["of"], kw, P, G, V[:npre]))
        return list(m - np.asarray(V[npre], dtype=float).ravel())
    if t == "d:lincomb":             # con.A()*a + con.B()*b  (constraint on value)
        na = kw["na"]
        m = kw["ca"] * np.asarray(measure(kw["a"], kw, P[:na], G)) \
            + kw["cb"] * np.asarray(measure(kw["b"], kw, P[na:], G))
        return list(m - np.asarray(V[0], dtype=float).ravel())
    if t == "d:pow":                 # (con.A() ** p) = value
        m = np.asarray(measure(kw["of"], kw, P, G)) ** kw["p"]
        return list(m - np.asarray(V[0], dtype=float).ravel())
    if t == "d:div":
        m = np.asarray(measure(kw["of"], kw, P, G)) / kw["by"]
        return list(m - np.asarray(V[0], dtype=float).ravel())
    if t == "d:scalar":              # con.A() * con.Scalar() = value
        m = np.asarray(measure(kw["of"], kw, P, G)) * V[0]
        return list(m - np.asarray(V[1], dtype=float).ravel())
    if t == "d:partial":             # value frozen with transform_partial
        inner = {"type": kw["of"], "kw": kw.get("kw", {}), "prims": P,
                 "params": list(V) + list(kw["frozen"])}
        return residual(inner, G)
    if t == "d:map":                 # transform_map
        of = kw["of"]
        m = kw["nprims"] - 1         # extra prims frozen from the end
        n = max(len(P) - m, 0)
        k = kw["nparams"]
        out = []
        for i in range(n):
            out += residual({"type": of, "kw": kw.get("kw", {}),
                             "prims": [P[i]] + list(P[len(P) - m:]),
                             "params": list(V[i * k:(i + 1) * k])}, G)
        return out
    if t == "d:cmap":                # transform_constraint of a map
        return list(np.asarray(mapped(kw, P, G)) - np.asarray(V[0], dtype=float).ravel())
    # ---- harness-defined constraints -----------------------------------------
    if t == "u:fixx":
        return [float(G.pt(P[0])[0]) - V[0]]
    if t == "u:pair":                # compound: fixx + fixy
        p = G.pt(P[0])
        return [float(p[0]) - V[0], float(p[1]) - V[1]]
    raise KeyError(t)


def residuals(specs, G):
    out = []
    for s in specs:
        out += residual(s, G)
    return np.asarray(out, dtype=float)


# ------------------------------------------------- independent reference solver

class Reference:
    """Gauss-Newton on the reference residuals with numerical derivatives"""

    def __init__(self, prims, specs):
        from . import build
        refs = {}
        for p in prims:
            for path, v in build.expand(p, p["pts"]).items():
                refs[path] = v
        self.base, self.var, x0 = {}, {}, []
        for path, v in refs.items():
            b = path
            while isinstance(refs[b], dict):
                b = refs[b]["ref"]
            # vertices shared inside a polygon have the same coordinate object
            self.base[path] = b
        # polygon corners: Line i Point1 is Line i+1 Point0
        ids = {}
        for path, b in self.base.items():
            k = id(refs[b])
            if k not in ids:
                ids[k] = len(x0)
                x0.append([float(refs[b][0]), float(refs[b][1])])
            self.var[path] = ids[k]
        self.x0 = np.array(x0).ravel()
        self.specs = specs

    def geo(self, x):
        y = x.reshape(-1, 2)
        return Geo({p: y[k] for p, k in self.var.items()})

    def res(self, x):
        with np.errstate(all="ignore"):
            return residuals(self.specs, self.geo(x))

    def solve(self, max_iter):
        """
        Number of steps after which all residuals vanish, or None

        None too if the problem is ill-posed somewhere on the way (singular
        values that are small but not zero).
        """
        x = self.x0.copy()
        for n in range(max_iter + 1):
            r = self.res(x)
            if not np.all(np.isfinite(r)):
                return None
            if np.linalg.norm(r) < 1e-8:
                return n
            if n == max_iter:
                return None
            J = np.empty((r.size, x.size))
            for j in range(x.size):
                h = 1e-6
                xp, xm = x.copy(), x.copy()
                xp[j] += h
                xm[j] -= h
                J[:, j] = (self.res(xp) - self.res(xm)) / (2 * h)
            if not np.all(np.isfinite(J)):
                return None
            dx, _, _, sv = np.linalg.lstsq(J, -r, rcond=1e-6)
            rel = sv / max(sv.max(initial=0), 1e-300)
            if np.any((rel > 1e-7) & (rel < 5e-3)):
                return None
            x = x + dx
