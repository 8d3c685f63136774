From 5c750279417c7803899d28fdc70169b4d4f06b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 01/18] fix: add_constraint leaves the layout unchanged when it
 fails

Building the parameter tree can raise (wrong parameter structure, failing
axis measurement) after the constraint was already added to the layout.
---
 src/mpllayout/layout.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 8df961c..2093cb2 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -205,9 +205,15 @@ class Layout:
         except TypeError as exc:
             raise RuntimeError(f"Wrong parameters {param} for constraint {type(constraint)}\n{exc}") from exc
 
-        self.root_constraint.add_child(key, constraint)
-        self.root_prim_keys.add_child(key, constraint.root_prim_keys(prim_keys))
-        self.root_param.add_child(key, constraint.root_params(param))
+        # Build all new nodes before adding any of them so that a failure leaves
+        # the layout unchanged
+        new_nodes = (
+            constraint,
+            constraint.root_prim_keys(prim_keys),
+            constraint.root_params(param),
+        )
+        for node, new_node in zip(nodes, new_nodes):
+            node.add_child(key, new_node)
 
 def update_layout_constraints(
     layout: Layout,
-- 
2.43.0


From c488edc37e3bc5e1ccb1cb58fc0e7b7931f1d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 02/18] fix: get_axis_thickness restores the label when
 measuring fails

An exception while measuring left the axis label invisible.
---
 src/mpllayout/constraints.py | 41 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 66c25ea..875f4e5 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -641,27 +641,28 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     label_visibility = axis.label.get_visible()
     axis.label.set_visible(False)
 
-    axis_bbox = axis.get_tightbbox()
-
-    if axis_bbox is None:
-        dim = 0
-    else:
-        axis_bbox = axis_bbox.transformed(axis.axes.figure.transFigure.inverted())
-        fig_width, fig_height = axis.axes.figure.get_size_inches()
-        axes_bbox = axis.axes.get_position()
-
-        if axis.get_ticks_position() == "bottom":
-            dim = fig_height * (axes_bbox.ymin - axis_bbox.ymin)
-        elif axis.get_ticks_position() == "top":
-            dim = fig_height * (axis_bbox.ymax - axes_bbox.ymax)
-        elif axis.get_ticks_position() == "left":
-            dim = fig_width * (axes_bbox.xmin - axis_bbox.xmin)
-        elif axis.get_ticks_position() == "right":
-            dim = fig_width * (axis_bbox.xmax - axes_bbox.xmax)
-        else:
-            raise ValueError()
+    try:
+        axis_bbox = axis.get_tightbbox()
 
-    axis.label.set_visible(label_visibility)
+        if axis_bbox is None:
+            dim = 0
+        else:
+            axis_bbox = axis_bbox.transformed(axis.axes.figure.transFigure.inverted())
+            fig_width, fig_height = axis.axes.figure.get_size_inches()
+            axes_bbox = axis.axes.get_position()
+
+            if axis.get_ticks_position() == "bottom":
+                dim = fig_height * (axes_bbox.ymin - axis_bbox.ymin)
+            elif axis.get_ticks_position() == "top":
+                dim = fig_height * (axis_bbox.ymax - axes_bbox.ymax)
+            elif axis.get_ticks_position() == "left":
+                dim = fig_width * (axes_bbox.xmin - axis_bbox.xmin)
+            elif axis.get_ticks_position() == "right":
+                dim = fig_width * (axis_bbox.xmax - axes_bbox.xmax)
+            else:
+                raise ValueError()
+    finally:
+        axis.label.set_visible(label_visibility)
 
     return dim
 
-- 
2.43.0


From 746dc43c85396ee7d0ebc9f2a1a196864132f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 03/18] fix: solve_newton does not touch the process-wide
 warning filters

`warnings.catch_warnings` replaces global state and is not thread safe:
concurrent solves could leave the process ignoring RuntimeWarning for good.
---
 src/mpllayout/solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mpllayout/solver.py b/src/mpllayout/solver.py
index 8a93d6f..17cfebd 100644
--- a/src/mpllayout/solver.py
+++ b/src/mpllayout/solver.py
@@ -5,8 +5,6 @@ Solvers for constrained geometric primitives
 from typing import Any
 from numpy.typing import NDArray
 
-import warnings
-
 import jax
 from jax import numpy as jnp
 import numpy as np
@@ -140,8 +138,7 @@ def solve_newton(
         n += 1
         abs_err = np.linalg.norm(global_res)
         abs_errs.append(abs_err)
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", RuntimeWarning)
+        with np.errstate(divide="ignore", invalid="ignore"):
             rel_err = abs_errs[-1] / abs_errs[0]
         rel_errs.append(rel_err)
 
-- 
2.43.0


From f1338b98469a64b6195345d8a03fc04ed21f0a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 04/18] fix: update_subplots places axis labels relative to the
 figure origin

Labels were misplaced when the figure's bottom left corner is not at (0, 0).
---
 src/mpllayout/matplotlibutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index fb2323b..8417d2b 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -116,7 +116,8 @@ def update_subplots(
                 axis_label_point: pr.Point = root_prim[f"{key}/{axis_label}"]
                 label_coords = axis_label_point.value
                 axis.set_label_coords(
-                    *(label_coords / fig_size), transform=fig.transFigure
+                    *((label_coords - fig_origin) / fig_size),
+                    transform=fig.transFigure
                 )
 
             # Set the axis tick position
-- 
2.43.0


From a1a5f326b377f9e99908f0f3e96ad27f757754c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 05/18] fix: subplots closes its figure when it fails

A half-built figure stayed registered with pyplot (and became the current
figure).
---
 src/mpllayout/matplotlibutils.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/mpllayout/matplotlibutils.py b/src/mpllayout/matplotlibutils.py
index 8417d2b..7577e54 100644
--- a/src/mpllayout/matplotlibutils.py
+++ b/src/mpllayout/matplotlibutils.py
@@ -52,16 +52,21 @@ def subplots(
     # Create the `Figure` instance
     fig = plt.figure(figsize=(1, 1))
 
-    # Assume all axes are prefixed by "Axes" if there are no keys provided
-    if axs_keys is None:
-        axs_keys = [key for key in root_prim.keys() if "Axes" in key]
-
-    # Create all `Axes` instances
-    unit_rect = (0, 0, 1, 1)
-    key_to_ax = {key: fig.add_axes(unit_rect) for key in axs_keys}
-
-    # Update positions figures and axes
-    fig, key_to_ax = update_subplots(root_prim, fig_key, fig, key_to_ax)
+    try:
+        # Assume all axes are prefixed by "Axes" if there are no keys provided
+        if axs_keys is None:
+            axs_keys = [key for key in root_prim.keys() if "Axes" in key]
+
+        # Create all `Axes` instances
+        unit_rect = (0, 0, 1, 1)
+        key_to_ax = {key: fig.add_axes(unit_rect) for key in axs_keys}
+
+        # Update positions figures and axes
+        fig, key_to_ax = update_subplots(root_prim, fig_key, fig, key_to_ax)
+    except BaseException:
+        # Don't leave a partial figure registered in `pyplot`
+        plt.close(fig)
+        raise
 
     return fig, key_to_ax
 
-- 
2.43.0


From 00281d0f6687ccdd62f1680d5041d4670b9b5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 06/18] fix: update_layout_constraints returns an independent
 layout

The returned layout shared its primitive, constraint and primitive key trees
with the original (but not the parameters): adding a constraint to one left
the trees of the other misaligned.
---
 src/mpllayout/layout.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 2093cb2..1cf1c59 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -13,7 +13,7 @@ import numpy as np
 
 from . import primitives as pr
 from . import constraints as cr
-from .containers import ItemCounter, iter_flat
+from .containers import ItemCounter, iter_flat, flatten, unflatten
 
 IntGraph = list[tuple[int, ...]]
 StrGraph = list[tuple[str, ...]]
@@ -266,10 +266,17 @@ def update_layout_constraints(
         constraintkey_to_param
     )
 
+    # Copy the trees so that changing one layout doesn't change the other
+    root_prim, root_constraint, root_prim_keys = (
+        unflatten(flatten('', root))[0] for root in (
+            layout.root_prim, layout.root_constraint, layout.root_prim_keys
+        )
+    )
+
     return Layout(
-        layout.root_prim,
-        layout.root_constraint,
-        layout.root_prim_keys,
+        root_prim,
+        root_constraint,
+        root_prim_keys,
         new_root_param
     )
 
-- 
2.43.0


From 1b59dcde5c8542a1303dab56dcaaad8a23f260e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 07/18] fix: sums of compound constructions use the second
 operand's primitives

The child primitive keys of the second operand were not renumbered, so both
operands were evaluated on the first operand's primitives.
---
 src/mpllayout/constructions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 839b7fd..e37894c 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1633,9 +1633,14 @@ def transform_sum(cons_a: TCons, cons_b: TCons) -> ConstructionNode:
         concat_params, split_params = cat_split_params
 
         # Build the sum construction `ConstructionValue` tuple
+
+        # The primitives of `cons_b` come after those of `cons_a`
+        num_prims_a = len(signature_a.prim_types)
+        num_prims_b = len(signature_b.prim_types)
+        shifted_arg_keys_b = tuple(f"arg{num_prims_a+n}" for n in range(num_prims_b))
         sum_child_prim_keys = tuple(
             concat_prims(prim_keys_a, prim_keys_b) for prim_keys_a, prim_keys_b
-            in zip(value_a.child_prim_keys, value_b.child_prim_keys)
+            in zip(value_a.child_prim_keys, cons_b.child_prim_keys(shifted_arg_keys_b))
         )
 
         def sum_child_params(sum_params: Params) -> tuple[Params, ...]:
-- 
2.43.0


From 9391cadc31a53b76d1cccee2987aa36171d3cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 08/18] fix: figure_prims closes its figure when it fails

---
 src/mpllayout/ui.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index dd212b1..039ca7f 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -263,16 +263,21 @@ def figure_prims(
 
     fig, ax = plt.subplots(1, 1, figsize=fig_size)
 
-    for axis in (ax.xaxis, ax.yaxis):
-        axis.set_minor_locator(mpl.ticker.MultipleLocator(minor_tick_interval))
-        axis.set_major_locator(mpl.ticker.MultipleLocator(major_tick_interval))
-
-    ax.set_aspect(1)
-    ax.grid()
-
-    ax.set_xlabel("x [in]")
-    ax.set_ylabel("y [in]")
-
-    plot_prims(ax, root_prim)
+    try:
+        for axis in (ax.xaxis, ax.yaxis):
+            axis.set_minor_locator(mpl.ticker.MultipleLocator(minor_tick_interval))
+            axis.set_major_locator(mpl.ticker.MultipleLocator(major_tick_interval))
+
+        ax.set_aspect(1)
+        ax.grid()
+
+        ax.set_xlabel("x [in]")
+        ax.set_ylabel("y [in]")
+
+        plot_prims(ax, root_prim)
+    except BaseException:
+        # Don't leave a partial figure registered in `pyplot`
+        plt.close(fig)
+        raise
 
     return (fig, ax)
-- 
2.43.0


From 5084ea8d977a4f8efaf81c1011d476cf452e0a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 09/18] fix: refresh thickness of axes nested below another
 primitive

The axes key of an axis primitive is everything before the axis' own key, not
only the first part of the path.
---
 src/mpllayout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 1cf1c59..2cdcfca 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -252,12 +252,12 @@ def update_layout_constraints(
 
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].xaxis,)
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
-                axes_key = axis_key.split("/", 1)[0]
+                axes_key = axis_key.rsplit("/", 1)[0]
                 constraintkey_to_param[key] = (axs[axes_key].yaxis,)
 
     new_root_param = update_root_param(
-- 
2.43.0


From fd5eb8a090c50bfc06785975bcf43983eef86eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 10/18] fix: constraints derived from nested constructions had
 no residual

---
 src/mpllayout/constructions.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index e37894c..b7698cd 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -631,12 +631,11 @@ class Vector(Construction, _NullSignature):
 
         keys = tuple(size_node.keys())
         constructions = tuple(
-            Vector(size_node=node) for node in child_size_nodes
+            cls(size_node=node) for node in child_size_nodes
         )
         prim_keys = num_child*((),)
 
         child_cumsizes = tuple(node.value for _, node in cumsize_node.items())
-        child_sizes = tuple(node.value for _, node in size_node.items())
 
         def child_params(params: Params) -> tuple[Params, ...]:
             value, = params
@@ -644,10 +643,10 @@ class Vector(Construction, _NullSignature):
             if isinstance(value, (float, int)):
                 value = value* np.ones(cumsize_node.value)
 
+            # Each node's own chunk is followed by the chunks of all its children
             return tuple(
-                (child_value[:size],)
-                for child_value, size
-                in zip(chunk(value, child_cumsizes), child_sizes)
+                (child_value,)
+                for child_value in chunk(value[size_node.value:], child_cumsizes)
             )
 
         return (keys, constructions, prim_keys, child_params)
@@ -663,6 +662,20 @@ class Vector(Construction, _NullSignature):
         return value
 
 
+class VectorChunk(Vector):
+    """
+    Return a vector where each node only returns its own chunk
+
+    See `Vector` for more details.
+    """
+
+    def assem(self, prims: tuple[()], value: float | NDArray):
+        if np.ndim(value) == 0:
+            return value
+        # The remaining values belong to the children
+        return value[:self.signature.value_size]
+
+
 class Scalar(LeafConstruction, _NullSignature):
     """
     Return a scalar
@@ -1512,7 +1525,7 @@ def transform_constraint(construction: TCons):
 
     size_node = node_map(value_size, construction)
 
-    vector = Vector(size_node)
+    vector = VectorChunk(size_node)
     return transform_sum(construction, transform_scalar_mul(vector, -1))
 
 # TODO: Refactor `transform_map` to accept `*PrimTypes`?
-- 
2.43.0


From 738c6a01e438ccf00999c9cf9535b12c98cd750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 11/18] fix: partial application of no parameters rejected
 every parameter

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index b7698cd..173b645 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1845,7 +1845,7 @@ def transform_partial(cons: TCons, *freeze_params: tuple[Param, ...]):
         return child_params(params)
 
     partial_sig = ConstructionSignature(
-        prim_types, param_types[:-len(freeze_params)], value_size
+        prim_types, param_types[:len(param_types)-len(freeze_params)], value_size
     )
 
     partial_value = ConstructionValue(
-- 
2.43.0


From 1d1293e1c573064776f6fdd4ffc12fafc5f0ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 12/18] fix: multiplying a Scalar construction by a number
 failed

---
 src/mpllayout/constructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index 173b645..c296df3 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -445,7 +445,7 @@ class ConstructionNode(Node[ConstructionValue]):
         return transform_sum(other, self)
 
     def __mul__(self, other: "float | Scalar"):
-        if isinstance(self, Scalar):
+        if isinstance(self, Scalar) and isinstance(other, ConstructionNode):
             return transform_scalar_mul(other, self)
         else:
             return transform_scalar_mul(self, other)
-- 
2.43.0


From bbe706471adbd5c9609de46afc86f6fefe539d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 13/18] fix: CoincidentLines declared half the size of its
 residual

---
 src/mpllayout/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index 875f4e5..a97e0ea 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -448,7 +448,7 @@ class CoincidentLines(con.LeafConstruction, con._LineLineSignature):
 
     @classmethod
     def init_signature(cls):
-        return cls.make_signature(2, (bool,))
+        return cls.make_signature(4, (bool,))
 
     @classmethod
     def assem(cls, prims: tuple[pr.Line, pr.Line], reverse: bool):
-- 
2.43.0


From 34db8f381929d8880564a543045f48eddbdc3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 14/18] fix: rotation of labels on lines pointing down

---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index 039ca7f..8c3745b 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -48,7 +48,7 @@ def rotation_from_line(line: pr.Line) -> float:
     # Since `unit_vec` has unit length, the x-component is the cosine
     theta = 180/np.pi * np.arccos(unit_vec[0])
     if unit_vec[1] < 0:
-        theta = theta + 180
+        theta = 360 - theta
 
     return theta
 
-- 
2.43.0


From c7694ce656593bbebdd0bc8fbcaf4d2eea09a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 15/18] fix: figure_prims shows its grid whatever the style

'ax.grid()' toggles, so with rcParams['axes.grid'] set the grid lines at the
asked tick intervals were hidden.
---
 src/mpllayout/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpllayout/ui.py b/src/mpllayout/ui.py
index 8c3745b..1f64ff3 100644
--- a/src/mpllayout/ui.py
+++ b/src/mpllayout/ui.py
@@ -269,7 +269,7 @@ def figure_prims(
             axis.set_major_locator(mpl.ticker.MultipleLocator(major_tick_interval))
 
         ax.set_aspect(1)
-        ax.grid()
+        ax.grid(True)
 
         ax.set_xlabel("x [in]")
         ax.set_ylabel("y [in]")
-- 
2.43.0


From 077ae6561859d6f59f2de69ded91db16a3f42232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 16/18] fix: Angle is measured in (-pi, pi) as documented

The difference of the lines' directions is off by a full turn when they lie on
either side of the negative x axis, so an angle constraint that was satisfied
had a residual of 2*pi and the solve did not converge.
---
 src/mpllayout/constructions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mpllayout/constructions.py b/src/mpllayout/constructions.py
index c296df3..c8e07f8 100644
--- a/src/mpllayout/constructions.py
+++ b/src/mpllayout/constructions.py
@@ -1031,9 +1031,10 @@ class Angle(LeafConstruction, _LineLineSignature):
         line0, line1 = prims
         dir0 = UnitLineVector.assem((line0,))
         dir1 = UnitLineVector.assem((line1,))
-        angle0 = jnp.arctan2(dir0[1], dir0[0])
-        angle1 = jnp.arctan2(dir1[1], dir1[0])
-        return angle1 - angle0
+        # The cross and dot products are the sine and cosine of the angle
+        return jnp.arctan2(
+            dir0[0]*dir1[1] - dir0[1]*dir1[0], jnp.dot(dir0, dir1)
+        )
 
 
 ## Point and Line constructions
-- 
2.43.0


From 62942a8b7b216a1eea379e8d99dbea475cd2a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:48 +0000
Subject: [PATCH 17/18] fix: axis thickness of axes with an aspect ratio that
 isn't applied yet

---
 src/mpllayout/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpllayout/constraints.py b/src/mpllayout/constraints.py
index a97e0ea..e076e78 100644
--- a/src/mpllayout/constraints.py
+++ b/src/mpllayout/constraints.py
@@ -642,6 +642,8 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
     axis.label.set_visible(False)
 
     try:
+        # This can move the axes (to apply an aspect ratio) so has to be first
+        axes_bbox = axis.axes.get_position()
         axis_bbox = axis.get_tightbbox()
 
         if axis_bbox is None:
@@ -649,7 +651,6 @@ def get_axis_thickness(axis: XAxis | YAxis, side: str):
         else:
             axis_bbox = axis_bbox.transformed(axis.axes.figure.transFigure.inverted())
             fig_width, fig_height = axis.axes.figure.get_size_inches()
-            axes_bbox = axis.axes.get_position()
 
             if axis.get_ticks_position() == "bottom":
                 dim = fig_height * (axes_bbox.ymin - axis_bbox.ymin)
-- 
2.43.0


From 0008ee299e9ba815fdf79ffdcd1965efa414d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:23 +0000
Subject: [PATCH 18/18] fix: updating a layout keeps the other parameters of
 scaled axis thickness constraints

---
 src/mpllayout/layout.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/mpllayout/layout.py b/src/mpllayout/layout.py
index 2cdcfca..8c91e85 100644
--- a/src/mpllayout/layout.py
+++ b/src/mpllayout/layout.py
@@ -9,6 +9,7 @@ from typing import Optional, Any
 from numpy.typing import NDArray
 
 from matplotlib.axes import Axes
+from matplotlib.axis import XAxis, YAxis
 import numpy as np
 
 from . import primitives as pr
@@ -253,12 +254,16 @@ def update_layout_constraints(
             if isinstance(constraint, cr.XAxisThickness):
                 axis_key, = prim_keys.value
                 axes_key = axis_key.rsplit("/", 1)[0]
-                constraintkey_to_param[key] = (axs[axes_key].xaxis,)
+                constraintkey_to_param[key] = replace_axis(
+                    constraint_param.value, axs[axes_key].xaxis
+                )
 
             if isinstance(constraint, cr.YAxisThickness):
                 axis_key, = prim_keys.value
                 axes_key = axis_key.rsplit("/", 1)[0]
-                constraintkey_to_param[key] = (axs[axes_key].yaxis,)
+                constraintkey_to_param[key] = replace_axis(
+                    constraint_param.value, axs[axes_key].yaxis
+                )
 
     new_root_param = update_root_param(
         layout.root_constraint,
@@ -280,6 +285,31 @@ def update_layout_constraints(
         new_root_param
     )
 
+def replace_axis(params: cr.Params, axis: XAxis | YAxis) -> cr.Params:
+    """
+    Return axis-thickness parameters with the axis replaced
+
+    The axis is the first parameter. Constraints derived from an axis-thickness
+    constraint can have more parameters (scaling by a `Scalar`) or none (partial
+    application), and these are kept.
+
+    Parameters
+    ----------
+    params: cr.Params
+        The axis-thickness constraint parameters
+    axis: XAxis | YAxis
+        The replacement axis
+
+    Returns
+    -------
+    cr.Params
+        The axis-thickness constraint parameters for `axis`
+    """
+    if len(params) == 0:
+        return params
+    else:
+        return (axis, *params[1:])
+
 def update_root_param(
     root_constraint: cr.ConstraintNode,
     root_param: cr.ParamsNode,
-- 
2.43.0

