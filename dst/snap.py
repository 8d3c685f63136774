"""
Snapshots: value-level dumps of layouts, trees and process state

Dumps are nested tuples that compare with `==`; `diff` names the first
difference.
"""

import hashlib
import os
import random
import sys
import warnings

import numpy as np


def _h(b):
    return hashlib.blake2b(b, digest_size=8).hexdigest()


def value_dump(v, depth=0):
    """A comparable description of a tree value"""
    import jax
    if isinstance(v, np.ndarray):
        return ("nd", str(v.dtype), v.shape, v.tobytes(), bool(v.flags.writeable))
    if isinstance(v, jax.core.Tracer):
        return ("tracer",)
    if isinstance(v, jax.Array):
        a = np.asarray(v)
        return ("jx", str(a.dtype), a.shape, a.tobytes())
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, repr(v))
    if isinstance(v, np.generic):
        return ("npg", type(v).__name__, repr(v.item()))
    if isinstance(v, (tuple, list)) and depth < 6:
        return (type(v).__name__,) + tuple(value_dump(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 6:
        return ("dict",) + tuple((k, value_dump(x, depth + 1)) for k, x in v.items())
    if isinstance(v, type):
        return ("type", v.__module__, v.__qualname__)
    return ("obj", type(v).__name__, id(v))


def node_dump(node):
    """Dump of any tree: (type, value, ((key, child dump), ...))"""
    return (
        type(node).__name__,
        value_dump(node.value),
        tuple((k, node_dump(c)) for k, c in node.children.items()),
    )


def node_ids(node, path=""):
    """Identity of every node and value, and the sharing of values"""
    out = [(path, id(node), id(node.value))]
    for k, c in node.children.items():
        out += node_ids(c, f"{path}/{k}")
    return out


def prim_dump(root):
    return node_dump(root)


def sharing(root):
    """Partition of the tree's paths by shared parameter vector"""
    groups = {}
    for path, _n, v in node_ids(root):
        groups.setdefault(v, []).append(path)
    return sorted(tuple(g) for g in groups.values())


def layout_dump(layout, identity=False):
    out = (
        ("prim", node_dump(layout.root_prim)),
        ("cons", node_dump(layout.root_constraint)),
        ("keys", node_dump(layout.root_prim_keys)),
        ("param", node_dump(layout.root_param)),
        ("share", tuple(sharing(layout.root_prim))),
    )
    if identity:
        out += (
            ("ids", tuple(
                tuple(node_ids(t)) for t in (
                    layout.root_prim, layout.root_constraint,
                    layout.root_prim_keys, layout.root_param)
            )),
        )
    return out


def arrays_of(root):
    out = [root.value] if isinstance(root.value, np.ndarray) else []
    for c in root.children.values():
        out += arrays_of(c)
    return out


# ------------------------------------------------------------- process state

def _filters():
    return tuple(
        (f[0], repr(f[1]), getattr(f[2], "__name__", repr(f[2])), repr(f[3]), f[4])
        for f in warnings.filters
    )


def _jax_config():
    import jax
    vals = getattr(jax.config, "values", None)
    if vals is None:
        return ()
    return tuple(sorted((k, repr(v)) for k, v in vals.items()))


def pyplot_state():
    from matplotlib._pylab_helpers import Gcf
    act = Gcf.get_active()
    return (tuple(Gcf.figs.keys()), act.num if act is not None else None)


def rc_state():
    import matplotlib as mpl
    return tuple(sorted((k, repr(v)) for k, v in dict.items(mpl.rcParams)))


def process_state(thread_only=False):
    out = {
        "numpy.errstate": tuple(sorted(np.geterr().items())),
    }
    if thread_only:
        return out
    out.update({
        "warnings.filters": _filters(),
        "warnings.showwarning": id(warnings.showwarning),
        "numpy.random": _h(repr(np.random.get_state()).encode() + np.random.get_state()[1].tobytes()),
        "numpy.printoptions": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "random": _h(repr(random.getstate()).encode()),
        "jax.config": _jax_config(),
        "rcParams": rc_state(),
        "pyplot": pyplot_state(),
        "environ": tuple(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "recursionlimit": sys.getrecursionlimit(),
        "excepthook": id(sys.excepthook),
        "trace": (id(sys.gettrace()), id(sys.getprofile())),
    })
    return out


def state_diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


def diff(a, b, path=""):
    """Name the first difference of two dumps"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: {len(a)} vs {len(b)} entries ({_short(a)} / {_short(b)})"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                label = i
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    label = x[0]
                return diff(x, y, f"{path}.{label}")
    return f"{path}: {_short(a)} != {_short(b)}"


def _short(x):
    if isinstance(x, tuple) and len(x) >= 4 and x[0] in ("nd", "jx"):
        return str(np.frombuffer(x[3], dtype=x[1]).tolist())
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."
