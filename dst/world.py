"""
The simulated world: seams, fault injection, simulated addresses.

`install()` puts wrappers in front of everything `mpllayout` calls that can
fail, be slow or observe nondeterminism, *before* `mpllayout` is imported.
A wrapper does nothing unless a simulation is running and the direct caller is
code of the package under test, so numpy/jax/matplotlib calling each other is
never perturbed.

All nondeterminism is decided by the scenario that is being executed:
 - which thread runs (see sched.py),
 - which external call or line fails, and how,
 - when the (otherwise disabled) garbage collector runs,
 - which address `id()` reports for an object (addresses of dead objects are
   handed out again as early as possible).
"""

import builtins
import functools
import gc
import hashlib
import os
import sys
import threading
import weakref
from collections import Counter

SRC = os.path.realpath(os.environ.get("DST_REPO", "/repo")) + "/src"   # DST_REPO: a scratch copy, for developing checks only
PKG = SRC + "/mpllayout/"
TOOL = 3


class HarnessError(Exception):
    """The machinery (not the code under test) went wrong"""


class Stall(BaseException):
    """Raised in parked actors when a run is abandoned"""


class NoProgress(BaseException):
    """One operation made absurdly many external calls"""


MAX_SEAMS_PER_OP = 20000


# ---------------------------------------------------------------- exceptions

class InjectedRuntimeError(RuntimeError):
    pass


def make_exc(name):
    import numpy as np
    table = {
        "MemoryError": lambda: MemoryError("injected: out of memory"),
        "KeyboardInterrupt": lambda: KeyboardInterrupt("injected interrupt"),
        "LinAlgError": lambda: np.linalg.LinAlgError("injected: SVD did not converge"),
        "RuntimeError": lambda: InjectedRuntimeError("injected failure"),
        "OSError": lambda: OSError(28, "injected: No space left on device"),
        "ValueError": lambda: ValueError("injected value error"),
        "FloatingPointError": lambda: FloatingPointError("injected fp error"),
        "TypeError": lambda: TypeError("injected type error"),
        "KeyError": lambda: KeyError("injected key error"),
    }
    exc = table[name]()
    exc.dst_injected = True
    return exc


def is_injected(exc):
    """Whether an injected fault is in the exception's chain"""
    seen = set()
    while exc is not None and builtins.id(exc) not in seen:
        if getattr(exc, "dst_injected", False):
            return True
        seen.add(builtins.id(exc))
        exc = exc.__cause__ or exc.__context__
    return False


# ------------------------------------------------------------------ the heap

class IdHeap:
    """
    `id()` with adversarial, deterministic address reuse

    Addresses are unique among live objects; the address of a dead object is
    given to the next object asked about (CPython may do exactly that, it just
    rarely does on demand).
    """

    def __init__(self):
        self.live = {}
        self.free = []
        self.next = 0x10000
        self.reused = 0
        self.keep = []

    def id(self, obj):
        rid = builtins.id(obj)
        ent = self.live.get(rid)
        if ent is not None and ent[0]() is obj:
            return ent[1]
        if self.free:
            addr = self.free.pop()
            self.reused += 1
        else:
            addr = self.next
            self.next += 16

        def died(_ref, rid=rid, addr=addr):
            cur = self.live.get(rid)
            if cur is not None and cur[1] == addr:
                del self.live[rid]
            self.free.append(addr)

        try:
            ref = weakref.ref(obj, died)
        except TypeError:
            self.keep.append(obj)
            ref = (lambda o=obj: o)
        self.live[rid] = (ref, addr)
        return addr


HEAP = IdHeap()
CUR = None              # the running Sim
TL = threading.local()  # .ctx: the running actor's context


def sim_id(obj):
    if CUR is None:
        return builtins.id(obj)
    return CUR.heap.id(obj)


# ---------------------------------------------------------------- simulation

class Ctx:
    """Per-actor execution context"""
    __slots__ = ("actor", "op", "counts", "lines", "seam_faults",
                 "line_faults", "in_op", "fired", "calls")

    def __init__(self, actor):
        self.actor = actor
        self.op = -1
        self.counts = {}
        self.lines = 0
        self.seam_faults = ()
        self.line_faults = {}
        self.in_op = False
        self.fired = []
        self.calls = 0


class Sim:
    def __init__(self, faults=(), sched=None):
        self.heap = IdHeap()
        self.sched = sched
        self.hash = hashlib.blake2b(digest_size=12)
        self.n_events = 0
        self.n_lines = 0
        self.seams = Counter()
        self.fired = Counter()
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f.get("actor", 0), f["op"]), []).append(dict(f))
        self.log = []
        self.keep_log = False
        self.planned = len(list(faults))
        self.trace_lines = bool(sched) or any(f.get("at") == "line" for f in faults)

    # -- event log (never draws randomness, never reads a clock)
    def event(self, *parts):
        self.n_events += 1
        s = repr(parts)
        self.hash.update(s.encode())
        if self.keep_log:
            self.log.append(s)

    def ctx(self):
        ctx = getattr(TL, "ctx", None)
        if ctx is None:
            ctx = TL.ctx = Ctx(0)
        return ctx

    def begin_op(self, i, label=""):
        ctx = self.ctx()
        ctx.op = i
        ctx.counts = {}
        ctx.lines = 0
        ctx.calls = 0
        ctx.fired = []
        fs = self.faults.get((ctx.actor, i), [])
        ctx.seam_faults = [f for f in fs if f.get("at", "seam") == "seam"]
        ctx.line_faults = {f["nth"]: f for f in fs if f.get("at") == "line"}
        ctx.in_op = True
        self.event("op", ctx.actor, i, label)

    def end_op(self, outcome):
        ctx = self.ctx()
        ctx.in_op = False
        self.event("end", ctx.actor, ctx.op, ctx.lines, outcome)
        return list(ctx.fired)

    def fire(self, ctx, f, where):
        self.fired[f"{f['exc']}@{where}"] += 1
        ctx.fired.append(f)
        self.event("fault", ctx.actor, ctx.op, where, f["exc"])
        if f["exc"] == "GC":
            gc.collect()
            return
        raise make_exc(f["exc"])

    def seam(self, name, when):
        ctx = getattr(TL, "ctx", None)
        if ctx is None or not ctx.in_op:
            return
        self.seams[name] += 1
        ctx.calls += 1
        if ctx.calls > MAX_SEAMS_PER_OP:
            ctx.in_op = False
            raise NoProgress(name)
        self.event("s", ctx.actor, name, when)
        if self.sched is not None:
            self.sched.point("seam", name)
        if ctx.seam_faults:
            k1 = (name, when)
            k2 = ("*", when)
            n1 = ctx.counts.get(k1, 0)
            n2 = ctx.counts.get(k2, 0)
            ctx.counts[k1] = n1 + 1
            ctx.counts[k2] = n2 + 1
            for f in ctx.seam_faults:
                if f.get("when", "before") != when or f.get("_done"):
                    continue
                if (f["name"] == name and f["nth"] == n1) or (
                        f["name"] == "*" and f["nth"] == n2):
                    f["_done"] = True
                    self.fire(ctx, f, f"{name}.{when}")

    def line(self, code):
        ctx = getattr(TL, "ctx", None)
        if ctx is None or not ctx.in_op:
            return
        ctx.lines += 1
        self.n_lines += 1
        if ctx.line_faults:
            f = ctx.line_faults.pop(ctx.lines, None)
            if f is not None:
                self.fire(ctx, f, "line")
        if self.sched is not None:
            self.sched.point("line", code)


class running:
    """Context manager installing a Sim as the current one"""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global CUR
        if CUR is not None:
            raise HarnessError("nested simulation")
        TL.ctx = Ctx(0)
        if self.sim.trace_lines:
            lines_on()
        CUR = self.sim
        return self.sim

    def __exit__(self, *exc):
        global CUR
        CUR = None
        TL.ctx = None
        lines_off()
        return False


class paused:
    """Oracle code runs with the calling actor outside of any operation"""

    def __enter__(self):
        self.ctx = getattr(TL, "ctx", None)
        self.was = self.ctx.in_op if self.ctx else None
        if self.ctx:
            self.ctx.in_op = False

    def __exit__(self, *exc):
        if self.ctx:
            self.ctx.in_op = self.was
        return False


# -------------------------------------------------------------- line tracing

_codes = None
_lines_active = False


def _on_line(code, _line):
    sim = CUR
    if sim is not None:
        sim.line(code)


def _collect_codes():
    import types
    import inspect
    found = {}

    def add(code):
        if code in found or not code.co_filename.startswith(PKG):
            return
        found[code] = True
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                add(const)

    def visit(obj, depth):
        obj = inspect.unwrap(obj) if callable(obj) and hasattr(obj, "__wrapped__") else obj
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
        elif isinstance(obj, (staticmethod, classmethod)):
            visit(obj.__func__, depth)
        elif isinstance(obj, property):
            for g in (obj.fget, obj.fset, obj.fdel):
                if g is not None:
                    visit(g, depth)
        elif isinstance(obj, functools.cached_property):
            visit(obj.func, depth)
        elif isinstance(obj, functools.partial):
            visit(obj.func, depth)
        elif isinstance(obj, type) and depth < 4:
            if getattr(obj, "__module__", "").startswith("mpllayout"):
                for v in list(vars(obj).values()):
                    visit(v, depth + 1)

    for name, mod in list(sys.modules.items()):
        if name.startswith("mpllayout") and mod is not None:
            for v in list(vars(mod).values()):
                try:
                    visit(v, 0)
                except Exception:  # exotic descriptors
                    continue
    return list(found)


def lines_on():
    global _codes, _lines_active
    mon = sys.monitoring
    if _codes is None:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        _codes = _collect_codes()
    if not _lines_active:
        for c in _codes:
            mon.set_local_events(TOOL, c, mon.events.LINE)
        _lines_active = True


def lines_off():
    global _lines_active
    if _lines_active:
        for c in _codes:
            sys.monitoring.set_local_events(TOOL, c, 0)
        _lines_active = False


# --------------------------------------------------------------------- seams

def _from_pkg(frame):
    return frame.f_code.co_filename.startswith(PKG)


def seam_wrap(orig, name):
    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        sim = CUR
        if sim is None or not _from_pkg(sys._getframe(1)):
            return orig(*args, **kwargs)
        sim.seam(name, "before")
        result = orig(*args, **kwargs)
        sim.seam(name, "after")
        return result
    return wrapper


class SeamCallable:
    """A transformed/compiled function whose calls from the package are seams"""

    def __init__(self, fun, name):
        functools.update_wrapper(self, fun)
        self._fun = fun
        self._name = name

    def __call__(self, *args, **kwargs):
        sim = CUR
        if sim is None or not _from_pkg(sys._getframe(1)):
            return self._fun(*args, **kwargs)
        sim.seam(self._name, "before")
        result = self._fun(*args, **kwargs)
        sim.seam(self._name, "after")
        return result

    def __getattr__(self, attr):
        return getattr(self._fun, attr)


def transform_wrap(orig, name):
    @functools.wraps(orig)
    def wrapper(*args, **kwargs):
        result = orig(*args, **kwargs)
        if _from_pkg(sys._getframe(1)) and callable(result):
            return SeamCallable(result, name)
        return result
    return wrapper


def user_seam(name):
    """A point in user-supplied code (harness-defined constraints etc.)"""
    sim = CUR
    if sim is not None:
        sim.seam("user." + name, "before")


class SimLock:
    """A lock created by the package: blocking on it is a scheduling decision"""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = threading._RLock() if self._reentrant else threading._allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        sim = CUR
        if sim is None or sim.sched is None or not blocking:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not sim.sched.blocked():
                return self._real.acquire(True, 20)
        return True

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked() if hasattr(self._real, "locked") else False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


def lock_wrap(orig, cls):
    def wrapper(*args, **kwargs):
        if _from_pkg(sys._getframe(1)):
            return cls()
        return orig(*args, **kwargs)
    return wrapper


_installed = False
SEAMS = []


def install():
    """Install every seam, then import the package under test"""
    global _installed
    if _installed:
        return
    _installed = True
    for name in list(sys.modules):
        if name.startswith("mpllayout"):
            raise HarnessError("mpllayout imported before the seams")
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)

    import numpy as np
    import scipy.optimize
    import jax
    jax.config.update("jax_enable_x64", True)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.axis
    import matplotlib.figure
    import matplotlib.axes
    from matplotlib import pyplot as plt

    def patch(owner, attr, name):
        orig = getattr(owner, attr, None)
        if orig is None:
            return
        setattr(owner, attr, seam_wrap(orig, name))
        SEAMS.append(name)

    for fn in ("lstsq", "solve", "pinv", "qr", "svd", "inv"):
        patch(np.linalg, fn, fn)
    patch(scipy.optimize, "minimize", "minimize")
    patch(scipy.optimize, "least_squares", "least_squares")
    patch(scipy.optimize, "root", "root")
    import jax.numpy.linalg as jla
    for fn in ("lstsq", "solve"):
        patch(jla, fn, "jnp." + fn)
    for fn in ("jit", "jacfwd", "jacrev", "jacobian", "value_and_grad", "grad", "vmap", "linearize"):
        orig = getattr(jax, fn, None)
        if orig is not None:
            setattr(jax, fn, transform_wrap(orig, fn + ".call"))
            SEAMS.append(fn + ".call")

    Figure = matplotlib.figure.Figure
    patch(Figure, "set_size_inches", "fig.set_size")
    patch(Figure, "add_axes", "fig.add_axes")
    patch(Figure, "add_subplot", "fig.add_subplot")
    Axes = matplotlib.axes.Axes
    patch(Axes, "set_position", "ax.set_position")
    for fn in ("plot", "annotate", "add_patch", "grid", "set_xlabel", "set_ylabel",
               "set_aspect", "get_position", "text", "scatter", "fill", "add_line", "add_artist",
               "add_collection"):
        patch(Axes, fn, "ax." + fn)
    Axis = matplotlib.axis.Axis
    patch(Axis, "set_label_coords", "axis.set_label_coords")
    patch(Axis, "get_tightbbox", "axis.get_tightbbox")
    patch(Axis, "set_major_locator", "axis.set_major_locator")
    patch(Axis, "set_minor_locator", "axis.set_minor_locator")
    for cls in (matplotlib.axis.XAxis, matplotlib.axis.YAxis):
        patch(cls, "set_ticks_position", "axis.set_ticks_position")
        patch(cls, "get_ticks_position", "axis.get_ticks_position")
    patch(plt, "figure", "plt.figure")
    patch(plt, "subplots", "plt.subplots")

    threading._allocate_lock_orig = threading.Lock
    threading.Lock = lock_wrap(threading.Lock, SimLock)
    threading.RLock = lock_wrap(threading.RLock, SimRLock)

    import importlib
    mods = []
    for name in ("containers", "primitives", "constructions", "constraints",
                 "geometry", "layout", "solver", "matplotlibutils", "ui"):
        mods.append(importlib.import_module("mpllayout." + name))
    for mod in mods:
        path = os.path.realpath(mod.__file__)
        if not path.startswith(PKG):
            raise HarnessError(f"{mod.__name__} imported from {path}")
    for name, mod in list(sys.modules.items()):
        if name.startswith("mpllayout") and mod is not None:
            if "id" not in vars(mod):
                mod.id = sim_id


def set_eager(flag):
    import jax
    if jax.config.jax_disable_jit != flag:
        jax.config.update("jax_disable_jit", flag)
