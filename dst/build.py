"""
From JSON recipes to objects of the package under test
"""

import json

import numpy as np

from . import world

_m = {}


def mods():
    """The package's modules (import order controlled by world.install)"""
    if not _m:
        world.install()
        import types
        from mpllayout import (containers, primitives, constructions, constraints,
                               layout, solver, matplotlibutils, ui)
        _m["ns"] = types.SimpleNamespace(
            cn=containers, pr=primitives, con=constructions, cr=constraints,
            ly=layout, sv=solver, mu=matplotlibutils, ui=ui)
        _define_user(_m["ns"])
    return _m["ns"]


# ------------------------------------------------------------------ primitives

AXES_KEYS = ("Frame", "XAxis", "XAxisLabel", "YAxis", "YAxisLabel",
             "TwinXAxis", "TwinXAxisLabel", "TwinYAxis", "TwinYAxisLabel")


def axes_children(opts):
    keys = ["Frame"]
    if opts.get("xaxis"):
        keys += ["XAxis", "XAxisLabel"]
    if opts.get("yaxis"):
        keys += ["YAxis", "YAxisLabel"]
    if opts.get("xaxis") and opts.get("twinx"):
        keys += ["TwinXAxis", "TwinXAxisLabel"]
    if opts.get("yaxis") and opts.get("twiny"):
        keys += ["TwinYAxis", "TwinYAxisLabel"]
    return keys


def expand_poly(key, pts):
    n = len(pts)
    out = {}
    for i in range(n):
        out[f"{key}/Line{i}/Point0"] = pts[i]
        out[f"{key}/Line{i}/Point1"] = pts[(i + 1) % n]
    return out


def expand(prim, pts=None):
    """`{point path: xy or ref}` of one primitive spec"""
    key, kind = prim["key"], prim["kind"]
    if kind == "group":
        return {}
    pts = prim["pts"] if pts is None else pts
    if kind == "point":
        return {key: pts}
    if kind == "line":
        return {key + "/Point0": pts[0], key + "/Point1": pts[1]}
    if kind in ("quad", "polygon"):
        return expand_poly(key, pts)
    if kind == "axes":
        out = {}
        for ck in axes_children(prim["opts"]):
            if ck.endswith("Label"):
                out[f"{key}/{ck}"] = pts[ck]
            else:
                out.update(expand_poly(f"{key}/{ck}", pts[ck]))
        return out
    raise KeyError(kind)


def expand_all(prims, field="pts"):
    """Coordinates of all points with references resolved"""
    out = {}
    for p in prims:
        for path, v in expand(p, p.get(field)).items():
            out[path] = v
    for path, v in list(out.items()):
        seen = 0
        while isinstance(v, dict):
            v = out[v["ref"]]
            seen += 1
            if seen > 50:
                raise world.HarnessError("reference cycle")
        out[path] = np.asarray(v, dtype=float)
    return out


def make_point(v, root, num=None):
    pr = mods().pr
    if isinstance(v, dict):
        parts = v["ref"].split("/")
        n = max(n for n in range(1, len(parts) + 1) if "/".join(parts[:n]) in root)
        node = root["/".join(parts[:n])]
        for k in parts[n:]:
            node = node.children[k]
        return node
    if num and all(float(x).is_integer() for x in v):
        v = [int(x) for x in v]
        return pr.Point(np.array(v)) if num == "int" else pr.Point(tuple(v))
    return pr.Point(np.array(v, dtype=float))


def make_prim(spec, built):
    """
    Build one primitive; `built` is the dictionary of primitives made earlier
    (for shared vertices)
    """
    pr = mods().pr
    kind, pts = spec["kind"], spec.get("pts")
    mk = lambda v: make_point(v, built, spec.get("num"))
    if kind == "group":
        return pr.PrimitiveNode.from_tree(np.array([]), {})
    if spec.get("bare"):
        return {"point": pr.Point, "line": pr.Line, "quad": pr.Quadrilateral,
                "polygon": lambda: pr.Polygon(size=len(pts)), "axes": lambda: pr.Axes(**spec["opts"])}[kind]()
    if kind == "point":
        if spec.get("cls"):
            return mods().user_prims[spec["cls"]](np.array(pts, dtype=float))
        return mk(pts)
    if kind == "line":
        cls = mods().user_prims[spec["cls"]] if spec.get("cls") else pr.Line
        return cls(prims=(mk(pts[0]), mk(pts[1])))
    if kind == "polygon":
        return pr.Polygon(None, [mk(v) for v in pts], size=len(pts))
    if kind == "quad":
        return pr.Quadrilateral(None, [mk(v) for v in pts])
    if kind == "axes":
        children = []
        for ck in axes_children(spec["opts"]):
            if ck.endswith("Label"):
                children.append(mk(pts[ck]))
            else:
                children.append(pr.Quadrilateral(None, [mk(v) for v in pts[ck]]))
        return pr.Axes(None, tuple(children), **spec["opts"])
    raise KeyError(kind)


def build_prims(specs):
    built = {}
    for s in specs:
        built[s["key"]] = make_prim(s, built)
    return built


def root_of(specs):
    """A root primitive node holding the built primitives"""
    ns = mods()
    root = ns.pr.PrimitiveNode.from_tree(np.array([]), {})
    for k, p in build_prims(specs).items():
        root.add_child(k, p)
    return root


# ----------------------------------------------------------------- constraints

def _define_user(ns):
    con, pr = ns.con, ns.pr

    class UFixX(con.LeafConstruction):
        """User constraint: the x coordinate of a point"""
        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Point,), (float,), 1)

        @classmethod
        def assem(cls, prims, value):
            world.user_seam("assem")
            return prims[0].value[0] - value

    class UFixY(con.LeafConstruction):
        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Point,), (float,), 1)

        @classmethod
        def assem(cls, prims, value):
            world.user_seam("assem")
            return prims[0].value[1] - value

    class UPair(con.StaticCompoundConstruction):
        """User compound constraint: both coordinates of a point"""
        @classmethod
        def init_children(cls):
            def child_params(params):
                world.user_seam("child_params")
                return ((params[0],), (params[1],))
            return (("X", "Y"), (UFixX(), UFixY()), (("arg0",), ("arg0",)), child_params)

        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Point,), (float, float), 0)

    class UNested(con.StaticCompoundConstruction):
        """User compound constraint nesting a thickness constraint"""
        @classmethod
        def init_children(cls):
            def child_params(params):
                world.user_seam("child_params")
                return ((params[0],), ())
            return (("Thick", "Rect"), (ns.cr.XAxisThickness(), ns.cr.Box()),
                    (("arg0",), ("arg0",)), child_params)

        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Quadrilateral,), (object,), 0)

    class UDeep(con.CompoundConstruction):
        """User compound constraint nesting a thickness constraint some levels down"""
        def __init__(self, depth=1, axis="x"):
            super().__init__(depth=depth, axis=axis)

        @classmethod
        def init_children(cls, depth, axis):
            T = ns.cr.XAxisThickness if axis == "x" else ns.cr.YAxisThickness
            child = T() if depth == 0 else cls(depth=depth - 1, axis=axis)
            return ("Inner",), (child,), (("arg0",),), lambda params: ((params[0],),)

        @classmethod
        def init_signature(cls, depth, axis):
            return con.ConstructionSignature((pr.Quadrilateral,), (object,), 0)

    class UMark(pr.Point):
        """User primitive"""

    class UArrow(pr.Line):
        """User primitive"""

    ns.user_prims = {"point": UMark, "line": UArrow}
    ns.user = {"u:fixx": UFixX, "u:pair": UPair, "u:nested": UNested, "u:deep": UDeep}


def make_cons(t, kw):
    """Build a constraint object from its type and keyword arguments"""
    ns = mods()
    cr, con, pr = ns.cr, ns.con, ns.pr
    if t in ns.user:
        return ns.user[t](**kw)
    if t == "d:constraint":
        args = {"side": kw["side"]} if kw["of"] in ("OuterMargin", "InnerMargin") else {}
        return con.transform_constraint(getattr(con, kw["of"])(**args))
    if t == "d:lincomb":
        args = {"side": kw["side"]} if "side" in kw else {}
        a = getattr(con, kw["a"])(**args)
        b = getattr(con, kw["b"])(**args)
        ca, cb = kw["ca"], kw["cb"]
        ta = -a if ca == -1 else a if ca == 1 else (a * ca if kw.get("r") else ca * a)
        tb = -b if cb == -1 else b if cb == 1 else b * cb
        return con.transform_constraint(ta + tb)
    if t == "d:pow":
        return con.transform_constraint(getattr(con, kw["of"])() ** kw["p"])
    if t == "d:div":
        return con.transform_constraint(getattr(con, kw["of"])() / kw["by"])
    if t == "d:scalar":
        c = getattr(con, kw["of"])()
        return con.transform_constraint(c * con.Scalar() if kw.get("r") else con.Scalar() * c)
    if t == "d:partial":
        return con.transform_partial(
            make_cons(kw["of"], kw.get("kw", {})), *[dec_param(v) for v in kw["frozen"]])
    if t == "d:map":
        n = kw["n"]
        kind = {"line": pr.Line, "quad": pr.Quadrilateral, "point": pr.Point, "axes": pr.Axes}[kw["kind"]]
        return con.transform_map(make_cons(kw["of"], kw.get("kw", {})), n * [kind])
    if t == "d:cmap":
        kind = {"line": pr.Line, "quad": pr.Quadrilateral, "point": pr.Point}[kw["kind"]]
        args = {"side": kw["side"]} if "side" in kw else {}
        c = con.transform_map(getattr(con, kw["of"])(**args), kw["n"] * [kind])
        if kw.get("deep"):      # through one more level of derivation
            c = 1.0 * c
        return con.transform_constraint(c)
    cls = getattr(cr, t)
    kk = dict(kw)
    if "shape" in kk:
        kk["shape"] = tuple(kk["shape"])
    return cls(**kk)


def dec_param(v, env=None):
    """Parameter from JSON"""
    if isinstance(v, dict):
        if "np" in v:
            return getattr(np, v["np"])(v["v"])
        if "tuple" in v:
            return tuple(v["tuple"])
        if "axis" in v:
            ax = env["axs"][v["axis"][0]]
            return ax.xaxis if v["axis"][1] == "x" else ax.yaxis
        if "bad" in v:
            return {"str": "not a number", "obj": object(), "none": None,
                    "dict": {}}[v["bad"]]
        raise KeyError(str(v))
    if isinstance(v, list):
        return np.array(v, dtype=float)
    return v


def vary_number(v, how):
    """The same number or flag with another type"""
    if isinstance(v, bool):
        return np.bool_(v) if how == "np" else int(v)
    if isinstance(v, float):
        if how == "int" and v == int(v):
            return int(v)
        return np.float64(v)
    return v


def cons_args(spec, env=None):
    """Primitive keys and parameters to pass to `Layout.add_constraint`"""
    params = tuple(dec_param(v, env) for v in spec["params"])
    if spec["type"] == "Grid" and spec.get("as") == "tuple":
        params = tuple(
            tuple(float(x) for x in p) if isinstance(p, np.ndarray) else p for p in params)
    if "num" in spec:
        params = tuple(vary_number(p, spec["num"]) for p in params)
    return tuple(spec["prims"]), params


class ObjPool:
    """Optionally share one constraint object between equal specs"""

    def __init__(self, share=False):
        self.share = share
        self.pool = {}

    def get(self, spec):
        k = json.dumps([spec["type"], spec.get("kw", {})], sort_keys=True)
        if not self.share:
            return make_cons(spec["type"], spec.get("kw", {}))
        if k not in self.pool:
            self.pool[k] = make_cons(spec["type"], spec.get("kw", {}))
        return self.pool[k]


def build_layout(recipe, env=None, pool=None):
    """A Layout built through the public API, one addition at a time"""
    ns = mods()
    pool = pool or ObjPool(recipe.get("share_objs", False))
    lay = ns.ly.Layout()
    for k, p in build_prims(recipe["prims"]).items():
        lay.add_prim(p, k)
    for s in recipe["cons"]:
        prims, params = cons_args(s, env)
        lay.add_constraint(pool.get(s), prims, params, key=s.get("key", ""))
    return lay
