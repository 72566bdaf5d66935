From f9d440bcbbe4dc039b4f0cc4fd734c39abbca09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:34 +0000
Subject: [PATCH 01/36] fix: try every expansion of '...' instead of a greedy
 match

Array[..., 3] rejected a (3, 3) array, mixing '...' with a symbolic or
wildcard dimension raised AssertionError, and the equations of a failed
partial match leaked into the final system.
---
 asta/utils.py | 140 +++++++++-----------------------------------------
 1 file changed, 23 insertions(+), 117 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..5a4e776 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -2,8 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Typechecking utilities. """
 import random
-import functools
-from typing import Any, Set, Dict, List, Tuple, Union, Optional
+from typing import Any, Set, Dict, List, Tuple, Union, Iterator, Optional
 
 from sympy import solvers, simplify
 from sympy.core.expr import Expr
@@ -35,21 +34,16 @@ def shapecheck(
 
     assert isinstance(inst_shape, tuple)
 
-    # The portions of ``inst_shape`` which correspond to each ``cls_shape`` elem.
-    shape_pieces: List[Tuple[int, ...]] = []
-
     # Case 1: No ellipses or wildcards.
     if Ellipsis not in cls_shape and -1 not in cls_shape:
         equal, equations = check_equal(cls_shape, inst_shape, equations)
 
         if not equal:
             match = False
-        shape_pieces = [(elem,) for elem in inst_shape]
 
     # Case 2: Only an ellipsis, and instance shape is empty.
     elif cls_shape == (Ellipsis,) and inst_shape == ():
         match = True
-        shape_pieces = [tuple()]
 
     # Case 3: Nonempty, not an ellipsis, and instance shape is empty.
     elif inst_shape == () != cls_shape:
@@ -64,93 +58,15 @@ def shapecheck(
         if is_subtuple((Ellipsis, Ellipsis), cls_shape, equations)[0]:
             raise TypeError("Invalid shape: repeated '...'")
 
-        # Determine if/where '...' bookends ``cls_shape``.
-        left_bookend = False
-        right_bookend = False
-        ellipsis_positions: List[int] = []
-        for i, elem in enumerate(cls_shape):
-            if elem == Ellipsis:
-                ellipsis_positions.append(i)
-
-                # e.g. ``Array[..., 1, 2, 3]``.
-                if i == 0:
-                    left_bookend = True
-
-                # e.g. ``Array[1, 2, 3, ...]``.
-                if i == len(cls_shape) - 1:
-                    right_bookend = True
-
-        # Analogous to ``str.split(<elem>)``, we split the shape on '...'.
-        frags: List[Tuple[int, ...]] = split(cls_shape, Ellipsis)
-
-        # Index in ``cls_shape`` as we construct ``shape_pieces``.
-        cls_idx = 0
-
-        # ``ishape`` is the remaining portion of the instance shape.
-        ishape = inst_shape
-        for i, frag in enumerate(frags):
-
-            # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
-
-            # Must have ``frag`` contained in ``ishape``.
-            if not is_sub:
-                match = False
-                break
-
-            # First fragment must start at 0 if '...' is not the first
-            # element of ``cls_shape``.
-            if i == 0 and not left_bookend and index != 0:
-                match = False
-                break
-
-            # Last fragement must end at (exclusive) ``len(ishape)`` if
-            # '...' is not the last element of ``cls_shape``.
-            if (
-                i == len(frags) - 1
-                and not right_bookend
-                and index + len(frag) != len(ishape)
-            ):
-                match = False
-                break
-
-            # The subseq of ``ishape`` being substituted for ``...``.
-            substituted = ishape[:index]
-
-            # Can't match zero-size dims with ``...``.
-            if 0 in substituted:
-                match = False
+        # Try every way to put a run of positive sizes in place of each '...'.
+        match = False
+        for candidate in expand_ellipses(cls_shape, len(inst_shape)):
+            equal, candidate_equations = check_equal(candidate, inst_shape, set())
+            if equal and astasolver(candidate_equations)[0]:
+                match = True
+                equations = candidate_equations
                 break
 
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
-            ifrag = ishape[index : index + len(frag)]
-            for elem in ifrag:
-                shape_pieces.append((elem,))
-                cls_idx += 1
-
-            new_start = index + len(frag)
-            ishape = ishape[new_start:]
-
-        # If ``cls_shape`` ends with ``...``, ensure substituted tuple has no 0s.
-        if right_bookend and 0 in ishape:
-            match = False
-
-        if right_bookend:
-            substituted = ishape
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
-        if match:
-            reconstructed = functools.reduce(lambda a, b: a + b, shape_pieces)
-            assert reconstructed == inst_shape
-            assert len(shape_pieces) == len(cls_shape) == cls_idx
-
     # Solve our system of equations if it is nonempty.
     if match:
         match, _, _ = astasolver(equations)
@@ -221,31 +137,21 @@ def is_subtuple(
     return False, -1, equations
 
 
-def split(
-    shape: Tuple[Union[int, EllipsisType], ...],  # type: ignore[valid-type]
-    elem: Union[int, EllipsisType],  # type: ignore[valid-type]
-) -> List[Tuple[int, ...]]:
-    """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
-        if num == elem:
-            tokens.append("@")
-        else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
-
-    result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
-
-    return result
+def expand_ellipses(
+    cls_shape: Tuple[Union[int, EllipsisType], ...],  # type: ignore[valid-type]
+    rank: int,
+) -> Iterator[Tuple[int, ...]]:
+    """ Yield each shape of length ``rank`` with wildcards in place of ellipses. """
+    if Ellipsis not in cls_shape:
+        if len(cls_shape) == rank:
+            yield cls_shape
+        return
+
+    index = cls_shape.index(Ellipsis)
+    left, right = cls_shape[:index], cls_shape[index + 1 :]
+    for size in range(rank - len(left) + 1):
+        for rest in expand_ellipses(right, rank - len(left) - size):
+            yield left + (-1,) * size + rest
 
 
 def check_equal(
-- 
2.43.0


From 49e9fadb627cea134756f4a12e7dcc70c1a2d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 02/36] fix: make annotation equality and hashing reliable

np.dtype('float64') == None holds, so Array[float, 3] == Array[3]; kind and
attributes were ignored; and a cached hash was copied into subscripted
classes. As a result typing's cache returned List[Array] for
List[Array[float]], dropping the dtype check.
---
 asta/_array.py    | 8 ++++++--
 asta/_tensor.py   | 5 +++--
 asta/_tftensor.py | 6 +++---
 asta/classes.py   | 6 ++----
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..7da1117 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -40,12 +40,16 @@ class _ArrayMeta(SubscriptableMeta):
         return SubscriptableMeta.__getitem__(cls, item)
 
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes and attributes match, they should be equal. """
         if not isinstance(other, _ArrayMeta):
             return False
+        # Note that ``np.dtype("float64") == None`` holds.
+        if (cls.dtype is None) != (other.dtype is None) or cls.kind != other.kind:
+            return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        return True
+        equal: bool = cls.kwattrs == other.kwattrs
+        return equal
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/_tensor.py b/asta/_tensor.py
index dffe415..6d3842b 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -33,12 +33,13 @@ class _TensorMeta(SubscriptableMeta):
         return SubscriptableMeta.__getitem__(cls, item)
 
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes and attributes match, they should be equal. """
         if not isinstance(other, _TensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        return True
+        equal: bool = cls.kwattrs == other.kwattrs
+        return equal
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 3eda61a..71d9ac2 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -32,14 +32,14 @@ class _TFTensorMeta(SubscriptableMeta):
         """ Defer to the metaclass which calls ``cls._after_subscription()``. """
         return SubscriptableMeta.__getitem__(cls, item)
 
-    # TODO: Include kwattrs for each of these classes.
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes and attributes match, they should be equal. """
         if not isinstance(other, _TFTensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        return True
+        equal: bool = cls.kwattrs == other.kwattrs
+        return equal
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..e73de45 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -54,7 +54,6 @@ class SubscriptableMeta(GenericMeta):
     __origin__: Any
 
     def __init_subclass__(cls) -> None:
-        cls._hash = 0
         cls.__args__ = None
         cls.__origin__ = None
 
@@ -108,9 +107,8 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "shape")
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
-        if not getattr(cls, "_hash", None):
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{cls.kwattrs}")
-        return cls._hash
+        shape = None if cls.shape is None else tuple(cls.shape)
+        return hash((shape, str(cls.dtype)))
 
     def __repr__(cls) -> str:
         """ String representation of class. """
-- 
2.43.0


From 162c2c0cc33407f6a7f4654b71544da9bbf7581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 03/36] fix: accept attribute dictionaries as subscripts

hash() of a dict, or of a tuple containing one, raised TypeError.
---
 asta/parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index f2b65d4..0b259d3 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -43,8 +43,7 @@ def parse_subscript(
     shape: Optional[Tuple] = cls.shape
     kwattrs: Optional[Dict[str, Any]] = cls.kwattrs
 
-    isscalar = hash(item) == hash(Scalar)
-    if isinstance(item, (type, dtype_metaclass)) and not isscalar:
+    if isinstance(item, (type, dtype_metaclass)) and item is not Scalar:
         dtype, kind = cls.get_dtype(item)
         shape = None
 
@@ -68,8 +67,7 @@ def parse_subscript(
     elif item:
 
         # Case where generic type is specified.
-        isscalar = hash(item[0]) == hash(Scalar)
-        if isinstance(item[0], (type, dtype_metaclass)) and not isscalar:
+        if isinstance(item[0], (type, dtype_metaclass)) and item[0] is not Scalar:
             dtype, kind = cls.get_dtype(item[0])
             item = item[1:]
 
-- 
2.43.0


From 3beb5ac72f3f98b8680800f95b55d85d634d2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 04/36] fix: flatten and validate nested shape tuples

Array[1, (2, 3)] never matched in isinstance checks although the decorator
flattens it, dimensions inside a nested tuple were not validated, and a
tf.TensorShape next to a dtype raised ValueError.
---
 asta/classes.py |  4 ----
 asta/parser.py  | 20 ++++++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/asta/classes.py b/asta/classes.py
index e73de45..2c1f409 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -149,8 +149,4 @@ class SubscriptableMeta(GenericMeta):
                 none_err += "Use 'Array[None]' for scalar arrays."
                 raise TypeError(none_err)
 
-        # ``((1,2,3),)`` -> ``(1,2,3)``.
-        if isinstance(shape, tuple) and len(shape) == 1 and isinstance(shape[0], tuple):
-            shape = shape[0]
-
         return shape
diff --git a/asta/parser.py b/asta/parser.py
index 0b259d3..db26fb6 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -9,16 +9,20 @@ from sympy.core.symbol import Symbol
 from asta.utils import is_subtuple
 from asta.scalar import Scalar
 from asta.classes import SubscriptableMeta
-from asta.constants import EllipsisType
+from asta.constants import EllipsisType, tf
 
 # pylint: disable=unidiomatic-typecheck
 
 
-def verify_dimensions(cls: SubscriptableMeta, item: Any) -> None:
-    """ Raises a TypeError if the type of a dimension is invalid. """
+def verify_dimensions(cls: SubscriptableMeta, item: Any) -> Tuple[Any, ...]:
+    """
+    Raises a TypeError if the type of a dimension is invalid, and returns the
+    dimensions with nested tuples flattened, e.g. ``((1, 2), 3)`` -> ``(1, 2, 3)``.
+    """
     if not isinstance(item, tuple):
         item = (item,)
 
+    dims: Tuple[Any, ...] = ()
     for dim in item:
 
         # Treat sympy expressions specially.
@@ -29,6 +33,14 @@ def verify_dimensions(cls: SubscriptableMeta, item: Any) -> None:
             err += f"Valid dimension types: {cls.DIM_TYPES}"
             raise TypeError(err)
 
+        # Note ``()`` is not a container of dimensions: it indicates a scalar.
+        if isinstance(dim, (tuple, tf.TensorShape)):
+            dims += verify_dimensions(cls, tuple(dim)) if len(dim) else ((),)
+        else:
+            dims += (dim,)
+
+    return dims
+
 
 def parse_subscript(
     cls: SubscriptableMeta,
@@ -77,7 +89,7 @@ def parse_subscript(
             item = item[:-1]
 
         if item:
-            verify_dimensions(cls, item)
+            item = verify_dimensions(cls, item)
             shape = SubscriptableMeta.get_shape(item)
 
     else:
-- 
2.43.0


From 75d9e4bc07ba418a4d628b33f728a661110d5918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 05/36] fix: keep the shape when an alias is subscripted with a
 dtype or attributes

Array[1, 2][float] and Array[1, 2][{...}] dropped the shape, while
Array[float][1, 2] kept the dtype.
---
 asta/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index db26fb6..83ab7a7 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -57,12 +57,10 @@ def parse_subscript(
 
     if isinstance(item, (type, dtype_metaclass)) and item is not Scalar:
         dtype, kind = cls.get_dtype(item)
-        shape = None
 
     # Adding support for kwargs.
     elif isinstance(item, dict):
         kwattrs = item
-        shape = None
 
     # Case where dtype is Any and shape is scalar.
     elif item in (Scalar, ()):
-- 
2.43.0


From 953c87a35f13ded387426500a92a1a1a1c134b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 06/36] fix: enforce kinds and attribute constraints in
 type-checked calls

refresh() rebuilt the annotation from dtype and shape only, so the decorator
rejected '<U3' arrays for Array[str] and ignored attribute constraints, and
attribute equations were neither solved together with the shape equations nor
collected when no shape was given.
---
 asta/_array.py    |  8 +++---
 asta/_tensor.py   |  8 +++---
 asta/_tftensor.py |  8 +++---
 asta/origins.py   | 65 +++++++++++++----------------------------------
 4 files changed, 32 insertions(+), 57 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 7da1117..172511b 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -76,9 +76,11 @@ class _ArrayMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match and attr_equations:
+                    match, _, _ = astasolver(equations.union(attr_equations))
 
         return match
 
diff --git a/asta/_tensor.py b/asta/_tensor.py
index 6d3842b..74384ab 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -60,9 +60,11 @@ class _TensorMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match and attr_equations:
+                    match, _, _ = astasolver(equations.union(attr_equations))
 
         return match
 
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 71d9ac2..b43136d 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -66,9 +66,11 @@ class _TFTensorMeta(SubscriptableMeta):
                 if isinstance(inst_shape, tf.TensorShape):
                     inst_shape = tuple(inst_shape)
 
-                shape_match, _ = shapecheck(inst_shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, equations = shapecheck(inst_shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
+                if match and attr_equations:
+                    match, _, _ = astasolver(equations.union(attr_equations))
 
         return match
 
diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..15ed479 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -23,9 +23,7 @@ from typing import (
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
-from asta.array import Array
 from asta.utils import attrcheck, shapecheck
-from asta._array import _ArrayMeta
 from asta.classes import SubscriptableMeta
 from asta.display import (
     fail_io,
@@ -57,23 +55,9 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
-from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
+from asta.constants import NoneType, tf, torch
 from asta.substitution import substitute
 
-METAMAP: Dict[type, SubscriptableMeta] = {_ArrayMeta: Array}
-
-if _TORCH_IMPORTED:
-    from asta.tensor import Tensor
-    from asta._tensor import _TensorMeta
-
-    METAMAP[_TensorMeta] = Tensor
-
-if _TENSORFLOW_IMPORTED:
-    from asta.tftensor import TFTensor
-    from asta._tftensor import _TFTensorMeta
-
-    METAMAP[_TFTensorMeta] = TFTensor
-
 try:
     from typing import Literal  # type: ignore[attr-defined]
 except ImportError:
@@ -86,38 +70,21 @@ def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
     """ Load an asta type annotation containing classical placeholders. """
-    dtype = annotation.dtype
-    shape = annotation.shape
-    dimvars: List[Any] = []
-    initialized = True
-
-    if annotation.shape is not None:
+    if annotation.shape is None:
+        return annotation, True
 
-        dimvars, _, initialized = substitute(shape, ox)
+    dimvars, _, initialized = substitute(annotation.shape, ox)
 
-        # Unpack tuple elements of ``dimvars``.
-        unpacked: List[Any] = []
-        for elem in dimvars:
-            if isinstance(elem, tuple):
-                unpacked = unpacked + list(elem)
-            else:
-                unpacked = unpacked + [elem]
-        dimvars = unpacked
-
-        shape = tuple(dimvars)
-    # Note we're guaranteed that ``annotation`` has type ``SubscriptableMeta``.
-    subscriptable_class = METAMAP[type(annotation)]
-
-    refreshed_annotation: SubscriptableMeta
-    if shape is not None:
-        if dtype is not None:
-            refreshed_annotation = subscriptable_class[dtype, shape]  # type: ignore
+    # Unpack tuple elements of ``dimvars``.
+    unpacked: List[Any] = []
+    for elem in dimvars:
+        if isinstance(elem, tuple):
+            unpacked = unpacked + list(elem)
         else:
-            refreshed_annotation = subscriptable_class[shape]  # type: ignore
-    elif dtype is not None:
-        refreshed_annotation = subscriptable_class[dtype]
-    else:
-        refreshed_annotation = annotation
+            unpacked = unpacked + [elem]
+
+    # Replace only the shape, keeping everything else in the annotation.
+    refreshed_annotation: SubscriptableMeta = annotation[tuple(unpacked)]
 
     return refreshed_annotation, initialized
 
@@ -159,8 +126,10 @@ def check_asta(
 
             # Grab equations from shapecheck call.
             shape_match, shape_equations = shapecheck(value_shape, annotation.shape)
-            attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
-            assert shape_match and attr_match
+            assert shape_match
+
+        attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
+        assert attr_match
 
         equations = equations.union(shape_equations, attr_equations)
 
-- 
2.43.0


From bb577eb8b76d34bc2d98dbcaede2068d6dbc459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 07/36] fix: read dims placeholders in attribute constraints at
 call time

An attribute required to equal an expression over asta.dims never saw the
assigned value, and comparing an expression with an attribute that is not a
number raised an unrelated error.
---
 asta/origins.py | 8 ++++++++
 asta/utils.py   | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 15ed479..ceeac97 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -70,6 +70,14 @@ def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
     """ Load an asta type annotation containing classical placeholders. """
+    if annotation.kwattrs:
+        kwattrs: Dict[str, Any] = {}
+        for key, attr in annotation.kwattrs.items():
+            if isinstance(attr, Expr):
+                attr = substitute((attr,), ox)[0][0]
+            kwattrs[key] = attr
+        annotation = annotation[kwattrs]
+
     if annotation.shape is None:
         return annotation, True
 
diff --git a/asta/utils.py b/asta/utils.py
index 5a4e776..3501a14 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Typechecking utilities. """
 import random
+from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Iterator, Optional
 
 from sympy import solvers, simplify
@@ -90,6 +91,10 @@ def attrcheck(
             match = False
             break
         if isinstance(value, Expr):
+            # Only numbers can take part in an equation.
+            if not isinstance(attr, (Number, Expr)):
+                match = False
+                break
             equations.add(value - attr)
         elif attr != value:
             match = False
-- 
2.43.0


From 1e48a88dda78912317d44ea6288f6a5e5e34a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 08/36] fix: do not raise unrelated errors for generic
 annotations that are no containers

Callable[...], Type[...], Literal[...] and Iterable[...] raised KeyError or a
TypeError about the checker's own arguments, and enabling
check-non-asta-types once changed the global checker table.
---
 asta/origins.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index ceeac97..6a008a0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -522,12 +522,13 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
-        if ox.check_non_asta_types:
-            checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
-        if checker_fn:
-            equations = checker_fn(name, value, annotation, equations, ox)
+        if origin in ORIGIN_TYPE_CHECKERS:
+            equations = ORIGIN_TYPE_CHECKERS[origin](
+                name, value, annotation, equations, ox
+            )
+        elif origin in NON_ASTA_CHECKERS:
+            if ox.check_non_asta_types:
+                NON_ASTA_CHECKERS[origin](name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
     elif inspect.isclass(annotation):
-- 
2.43.0


From 815eca853adeb48874191d5ddee2ae1711c6cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 09/36] fix: support bare generics and Any on current Python
 versions

List, Dict, Set, Sequence and Callable without arguments have no __args__ and
Any is a class, so these annotations raised AttributeError or TypeError for
every value.
---
 asta/origins.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6a008a0..108cdd3 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -66,6 +66,12 @@ except ImportError:
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
 
+def is_parametrized(annotation: Any) -> bool:
+    """ Bare generics (e.g. ``List``) do not have arguments on Python 3.9+. """
+    args = getattr(annotation, "__args__", None)
+    return args not in (None, getattr(annotation, "__parameters__", None))
+
+
 def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
@@ -182,7 +188,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
@@ -302,7 +308,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -326,7 +332,7 @@ def check_sequence(
         fail_sequence(name, annotation, qualified_name(value), ox)
 
     # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    if is_parametrized(annotation):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -351,7 +357,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -376,7 +382,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
@@ -514,6 +520,10 @@ def check_annotation(
     # solution, all the annotations' solutions must agree for a given function
     # signature.
 
+    # Note ``Any`` is a class on Python 3.11+.
+    if annotation is Any:
+        return equations
+
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
-- 
2.43.0


From d90da5c008bc594d40dc1c3afa33a0079d70fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 10/36] fix: count optional parameters when checking a Callable
 annotation

A callable whose last parameters have defaults was rejected although it can
take the annotated number of positional arguments.
---
 asta/origins.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 108cdd3..b5f1eba 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -215,17 +215,17 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
                 # NOTE: Should this output a warning?
                 return
 
+            positional = [
+                param
+                for param in signature.parameters.values()
+                if param.kind
+                in (
+                    inspect.Parameter.POSITIONAL_ONLY,
+                    inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                )
+            ]
             num_mandatory_args = len(
-                [
-                    param.name
-                    for param in signature.parameters.values()
-                    if param.kind
-                    in (
-                        inspect.Parameter.POSITIONAL_ONLY,
-                        inspect.Parameter.POSITIONAL_OR_KEYWORD,
-                    )
-                    and param.default is inspect.Parameter.empty
-                ]
+                [param for param in positional if param.default is param.empty]
             )
             has_varargs = any(
                 param
@@ -236,8 +236,8 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
             # NOTE: Consider adding true recursive checking.
             if num_mandatory_args > len(argument_types):
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
-            elif not has_varargs and num_mandatory_args < len(argument_types):
-                fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
+            elif not has_varargs and len(positional) < len(argument_types):
+                fail_too_few_args(name, len(argument_types), len(positional), ox)
     return
 
 
-- 
2.43.0


From a614682c67151a8d868a2238af5a04de1b78b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 11/36] fix: keep looking for a matching Union alternative with
 raise-errors=no

The first alternative always won because its mismatch was only printed, and
with print-passes=no an accepted call printed a header per failed alternative.
---
 asta/origins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index b5f1eba..91fe431 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -405,9 +405,14 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
+    # A mismatch with one alternative is not an error, so it must raise (to get to
+    # the next one) and must not print, whatever the configuration.
+    settings = {k: v for k, v in ox.settings.items() if k != "decorated"}
+    probe = Oxentiel({**settings, "raise_errors": True})
+
     for type_ in union_params:
         try:
-            equations = check_annotation(name, value, type_, equations, ox)
+            equations = check_annotation(name, value, type_, equations, probe)
             return equations
         except TypeError as _err:
             pass
-- 
2.43.0


From 96f0a30d45d13d40f7b9e8af0e17a537315609a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 12/36] fix: stop checking the contents of a value that is no
 container

With raise-errors=no a value that is not a list, set, sequence, class or
callable was reported and then iterated anyway, which raised.
---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 91fe431..11f2f56 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -187,6 +187,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     """ Check an argument with annotation ``callable`` or ``Callable[]``. """
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
+        return
 
     if getattr(annotation, "__args__", None):
         try:
@@ -305,6 +306,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -330,6 +332,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Consider removing this test or even just figuring out what it does?
     if is_parametrized(annotation):
@@ -379,6 +382,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
@@ -426,6 +430,7 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return
 
     # Needed on Python 3.7+
     if annotation is Type:
-- 
2.43.0


From 7f36c23a33e8ca944a92f22b4d95bfe64ab78610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 13/36] fix: compare literals and protocols with arrays and
 data members

A Literal annotation raised ValueError for an array value, also in a Union,
and a protocol with data members raised TypeError for every value.
---
 asta/origins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 11f2f56..9e58548 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -466,13 +466,15 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
-    if not issubclass(type(value), annotation):
+    if not isinstance(value, annotation):
         fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
 
 
 def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck a value annotated with ``Literal[*]``. """
-    if value not in annotation.__args__:
+    # Comparing with an array does not yield a truth value.
+    options = [arg for arg in annotation.__args__ if isinstance(value, type(arg))]
+    if value not in options:
         fail_literal(name, annotation.__args__, value, ox)
 
 
-- 
2.43.0


From 771698c2c99fbba230192d978728e27ea2b60a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 14/36] fix: decide each decoration by the current
 ASTA_TYPECHECK value

Switching checking off through the environment changed the shared
configuration, so it could never be switched on again.
---
 asta/decorators.py | 5 +++--
 asta/warning.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..5c4d2e1 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -83,9 +83,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         The decorated version of ``decorated``.
     """
     ox: Oxentiel = get_ox()
+    on = ox.on
     if "ASTA_TYPECHECK" in os.environ:
-        ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-    if not ox.on:
+        on = on and os.environ["ASTA_TYPECHECK"] == "1"
+    if not on:
         return decorated
 
     # Treat classes.
diff --git a/asta/warning.py b/asta/warning.py
index c04496e..768e5b6 100644
--- a/asta/warning.py
+++ b/asta/warning.py
@@ -11,9 +11,10 @@ from asta.constants import Color
 # pylint: disable=invalid-name
 
 ox: Oxentiel = get_ox()
+on: bool = ox.on
 if "ASTA_TYPECHECK" in os.environ:
-    ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-if ox.on and not ox.print_passes:
+    on = on and os.environ["ASTA_TYPECHECK"] == "1"
+if on and not ox.print_passes:
     BORDER = "#" * 100
     BORDER = f"{Color.BOLD}{BORDER}{Color.END}"
     INNER = "-" * 100
-- 
2.43.0


From b3c27b521d0f35b0de5add3345ced0feb8b8eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 15/36] fix: do not decorate class and static methods twice

Decorating a class whose class or static methods were already decorated
checked the arguments against the annotations of the wrapper itself, so every
call raised TypeError.
---
 asta/decorators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 5c4d2e1..747ff20 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -115,8 +115,11 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
             # Only for class and staticmethods; instance methods are caught above.
             elif isinstance(attr, (classmethod, staticmethod)):
 
-                # If the underlying function has annotations.
-                if getattr(attr.__func__, "__annotations__", None):
+                # If the name prefix matches and it has annotations.
+                qualname = getattr(attr.__func__, "__qualname__", "")
+                if qualname.startswith(prefix) and getattr(
+                    attr.__func__, "__annotations__", None
+                ):
                     wrapped = typechecked(attr.__func__)
 
                     # Re-wrap with ``classmethod`` or ``staticmethod`` and put back.
-- 
2.43.0


From 32f1483a7c241bfa14497cf832ccdfc65b553eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 16/36] fix: match positional arguments with parameters, not
 annotations

The annotations of positional-only parameters come after the others, so the
arguments were checked against each other's annotations.
---
 asta/decorators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 747ff20..8c84d57 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -46,9 +46,10 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
         pure_args = pure_args[1:]  # type: ignore[assignment]
+        paramlist = paramlist[1:]
     for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
-        checkable_args[name] = arg
+        # Annotations of positional-only parameters come last in ``annotations``.
+        checkable_args[paramlist[i]] = arg
 
     # Check for mismatch between lengths of arguments/annotations.
     if num_non_return_annots != len(checkable_args):
-- 
2.43.0


From 17c77ec24c3ba00f176a756deb9b6a3aa5766104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 17/36] fix: use pyproject.toml, setup.cfg and any ASTARC file
 as configuration

Only files named *astarc were ever read. Also accept upper case section titles
in setup.cfg, and values with % signs or of other types than strings.
---
 asta/config.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..db3a4b4 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -70,17 +70,16 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 
 def find_astarc() -> Optional[str]:
-    """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
-    for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
-    return None
+    """ Return the first config file if there is one, else return ``None``. """
+    return next(find_default_config_files(), None)
 
 
 # pylint: disable=protected-access
 def read_config(config_path: str) -> configparser.ConfigParser:
     """ Parse a config file from ``config_path``, given a file exists there. """
-    parser = configparser.ConfigParser()
+    # No interpolation, since the values of other tools may contain ``%`` and toml
+    # values need not be strings.
+    parser = configparser.ConfigParser(interpolation=None)
     if config_path.endswith(".toml"):
         with open(config_path, "r") as toml_file:
             content = toml.load(toml_file)
@@ -99,10 +98,11 @@ def read_config(config_path: str) -> configparser.ConfigParser:
 
         # Normalize sections' titles.
         for sect, values in list(parser._sections.items()):  # type: ignore
+            title = sect
             if sect.startswith("asta."):
-                sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
-                parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
+                title = sect[len("asta.") :]
+            if title.upper() != sect and values:
+                parser._sections[title.upper()] = values  # type: ignore[attr-defined]
     return parser
 
 
-- 
2.43.0


From 00b7ccabe476d7c7e47e22e96658837363cf3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 18/36] fix: tell TypedDict classes from other dict subclasses

Every class has __annotations__ on Python 3.10+, so any dict subclass (e.g.
collections.Counter) was taken for a TypedDict and raised AttributeError. Also
require the keys inherited from a total TypedDict.
---
 asta/origins.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9e58548..0b461d6 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -167,10 +167,12 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # Note ``__total__`` does not tell about inherited keys.
+    required_keys = expected_keys if annotation.__total__ else frozenset()
+    required_keys = getattr(annotation, "__required_keys__", required_keys)
+    missing_keys = required_keys - existing_keys
+    if missing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
@@ -560,7 +562,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From 2b5e6f7b0b6ff3408041606d0f4e4e2f399b417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 19/36] fix: check NamedTuple fields and Tuple[()] on current
 Python versions

_field_types was removed in Python 3.9 and Tuple[()] has no arguments since
Python 3.11, so the fields and the length were not checked at all.
---
 asta/origins.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 0b461d6..b8ff585 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -250,25 +250,37 @@ def check_tuple(
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if hasattr(annotation, "_fields"):
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
+        # Note ``_field_types`` does not exist on Python 3.9+.
+        field_types: Dict[str, Any] = {}
+        for base in reversed(annotation.__mro__):
+            field_types.update(base.__dict__.get("__annotations__", {}))
+
         # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
-            equations = check_annotation(
-                f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
-            )
+        for subname in annotation._fields:
+            if subname in field_types:
+                field = getattr(value, subname)
+                equations = check_annotation(
+                    f"{name}.{subname}", field, field_types[subname], equations, ox
+                )
 
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
-    elif not getattr(annotation, "__args__", None):
+    elif annotation is Tuple or getattr(annotation, "__args__", None) is None:
         # Unparametrized Tuple or plain tuple.
         pass
 
+    # Note ``Tuple[()].__args__`` is ``()`` on Python 3.11+.
+    elif annotation.__args__ in ((), ((),)):
+        if value != ():
+            fail_empty_tuple(name, qualified_name(value), ox)
+
     else:
         # Python 3.6+
         use_ellipsis = annotation.__args__[-1] is Ellipsis
@@ -285,9 +297,6 @@ def check_tuple(
                 equations = check_annotation(
                     f"{name}[{i}]", elem, elem_type, equations, ox
                 )
-        elif tuple_params == ((),):
-            if value != ():
-                fail_empty_tuple(name, qualified_name(value), ox)
         else:
             if len(value) != len(tuple_params):
                 ann_rep = qualified_name(annotation)
-- 
2.43.0


From 4512d94ef73e474df7270b8645e07c81a191943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 20/36] fix: support tuples to the left of a shapes placeholder

(1,) + shapes.S, which the README uses, raised TypeError.
---
 asta/placeholder.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..b285ddd 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -56,3 +56,19 @@ class Placeholder:
         result.contents = sum_contents
         result.composite = True
         return result
+
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation for ``<tuple> + <placeholder>``. """
+        if not isinstance(summand, tuple):
+            return NotImplemented
+        for elem in summand:
+            if not isinstance(elem, (int, Expr, Symbol)):
+                raise TypeError(
+                    "Shape elements must be integers, symbols, or expressions."
+                )
+
+        # Construct the sum placeholder.
+        result = Placeholder()
+        result.contents = [summand] + (self.contents if self.contents else [self])
+        result.composite = True
+        return result
-- 
2.43.0


From d20785145ba0274e4f1d4b2bf913b7ed2fa6a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 21/36] fix: match datetime and timedelta arrays of every unit

Array[datetime.datetime] and Array[datetime.timedelta] only matched arrays
without a unit, unlike Array[str] and Array[bytes] which match every width.
---
 asta/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index 172511b..4878db0 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -117,8 +117,10 @@ class _Array(metaclass=_ArrayMeta):
                 kind = NP_UNSIZED_TYPE_KINDS[item]
             elif item == datetime.datetime:
                 generic_type = np.datetime64
+                kind = "M"  # Matches every unit.
             elif item == datetime.timedelta:
                 generic_type = np.timedelta64
+                kind = "m"  # Matches every unit.
             else:
                 generic_type = item
             dtype = np.dtype(generic_type)
-- 
2.43.0


From 87dffa3a34b525bf99d6bfb6053cc25ff0b32980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 22/36] fix: check the first element of sequences without
 slices

---
 asta/origins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index b8ff585..6c2a3f8 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
 import inspect
+import itertools
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
 from typing import (
@@ -352,7 +353,8 @@ def check_sequence(
 
             value_iterable = value
             if not ox.check_all_sequence_elements:
-                value_iterable = value_iterable[:1]
+                # Not every sequence can be sliced, e.g. ``collections.deque``.
+                value_iterable = itertools.islice(value, 1)
             for i, v in enumerate(value_iterable):
                 element_equations = check_annotation(
                     f"{name}[{i}]", v, value_type, equations, ox
-- 
2.43.0


From 1684171cb613b17d0396b0e8f2483877b9a8d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 23/36] fix: accept every class for Type[Any] and Type[T]

---
 asta/origins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 6c2a3f8..02deae6 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -15,6 +15,7 @@ from typing import (
     Tuple,
     Union,
     TextIO,
+    TypeVar,
     BinaryIO,
     Callable,
     Sequence,
@@ -450,6 +451,8 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
         return
 
     expected_class = annotation.__args__[0] if annotation.__args__ else None
+    if expected_class is Any or isinstance(expected_class, TypeVar):
+        return
     if expected_class and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
-- 
2.43.0


From def9aa2218b524eb266b901c4cbfd62c52a9463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 24/36] fix: check subclasses of float, complex and tuple

---
 asta/origins.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 02deae6..4c1d863 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -466,6 +466,9 @@ def check_number(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
         fail_complex(name, qualified_name(value.__class__), ox)
     elif annotation is float and not isinstance(value, float):
         fail_float(name, qualified_name(value.__class__), ox)
+    elif not isinstance(value, annotation):
+        # Subclasses, e.g. ``np.float64``.
+        fail_fallback(name, qualified_name(annotation), qualified_name(value), ox)
 
 
 def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
@@ -574,7 +577,12 @@ def check_annotation(
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
         has_args: bool = hasattr(annotation, "__args__")
 
-        if issubclass(annotation, Tuple):  # type: ignore[arg-type]
+        # Subclasses of ``tuple`` other than NamedTuples are ordinary classes.
+        is_tuple: bool = annotation is tuple or hasattr(annotation, "_fields")
+
+        if issubclass(annotation, Tuple) and (  # type: ignore[arg-type]
+            is_tuple or has_args
+        ):
             equations = check_tuple(name, value, annotation, equations, ox)
         elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
-- 
2.43.0


From 3c5d24d63073659e2f22992b621fb9c8c6047bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 25/36] fix: check annotations written as X | Y

---
 asta/origins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 4c1d863..6e89c41 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
+import types
 import inspect
 import itertools
 import collections
@@ -65,6 +66,9 @@ try:
 except ImportError:
     Literal = None
 
+# The type of ``X | Y`` on Python 3.10+.
+UnionType = getattr(types, "UnionType", None)
+
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
 
@@ -557,6 +561,8 @@ def check_annotation(
 
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
+    if UnionType is not None and isinstance(annotation, UnionType):
+        origin = Union
 
     # Treat asta types.
     if isinstance(annotation, SubscriptableMeta):
-- 
2.43.0


From 40372aca1605873657ecba877d32c612c1b64d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:32 +0000
Subject: [PATCH 26/36] fix: do not raise when a boolean attribute meets a
 symbolic constraint

---
 asta/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 3501a14..96fd1a1 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -91,8 +91,8 @@ def attrcheck(
             match = False
             break
         if isinstance(value, Expr):
-            # Only numbers can take part in an equation.
-            if not isinstance(attr, (Number, Expr)):
+            # Only numbers can take part in an equation (``True - X`` is an error).
+            if isinstance(attr, bool) or not isinstance(attr, (Number, Expr)):
                 match = False
                 break
             equations.add(value - attr)
-- 
2.43.0


From c60e0e216455104dde141fa7c7aa10d956d72c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 27/36] fix: do not lose a size assigned while another thread
 reads the name

---
 asta/dims.py   | 7 ++-----
 asta/shapes.py | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/asta/dims.py b/asta/dims.py
index db7b5aa..19d176a 100644
--- a/asta/dims.py
+++ b/asta/dims.py
@@ -46,12 +46,9 @@ class Dimensions:
             return attr
 
         # Handle everything else as a symbol.
+        # One step, so that no assignment made meanwhile is lost.
         symbol = symbols(name)
-        if symbol not in self.symbol_map:
-            self.symbol_map[symbol] = None
-            return symbol
-
-        value: Optional[int] = self.symbol_map[symbol]
+        value: Optional[int] = self.symbol_map.setdefault(symbol, None)
         if value is None:
             return symbol
         assert isinstance(value, int)
diff --git a/asta/shapes.py b/asta/shapes.py
index 93af60e..ba745b6 100644
--- a/asta/shapes.py
+++ b/asta/shapes.py
@@ -41,11 +41,8 @@ class Shapes:
             attr = globals()[name]
             return attr
 
-        if name in self.placeholder_map:
-            return self.placeholder_map[name]
-        placeholder = Placeholder(name)
-        self.placeholder_map[name] = placeholder
-        return placeholder
+        # One step, so that no assignment made meanwhile is lost.
+        return self.placeholder_map.setdefault(name, Placeholder(name))
 
     def __setattr__(self, name: str, value: Any) -> None:
         """ Maps attributes to values. Only if we are initialised. """
-- 
2.43.0


From b2f4fd5bf683d89301d712636f1cf12a2ac2ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 28/36] fix: refuse arrays as subscripts with a TypeError

---
 asta/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index 83ab7a7..4aef67c 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -62,8 +62,9 @@ def parse_subscript(
     elif isinstance(item, dict):
         kwattrs = item
 
-    # Case where dtype is Any and shape is scalar.
-    elif item in (Scalar, ()):
+    # Case where dtype is Any and shape is scalar. Note comparing an array with
+    # ``()`` is no yes-or-no question.
+    elif item is Scalar or isinstance(item, (tuple, tf.TensorShape)) and item == ():
         shape = ()
 
     # Case where dtype is not passed in, and there's one input.
-- 
2.43.0


From e9671c38e189dec60b427ffb39bd50368119aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 29/36] fix: do not read shape and dtype of values that are no
 arrays

The representation of a value for the messages read the attributes 'shape' and
'dtype' of any value, so a property which raises (e.g. a closed file) escaped
from the check of a value that simply has the wrong type.
---
 asta/display.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/asta/display.py b/asta/display.py
index 4132772..ba60861 100644
--- a/asta/display.py
+++ b/asta/display.py
@@ -47,18 +47,15 @@ def qualified_name(obj: Any) -> str:
 def type_representation(arg: Any) -> str:
     """ Get a string representation of an argument including dtype and shape. """
     rep = repr(type(arg))
-    if hasattr(arg, "shape"):
-        shape = arg.shape
-    if hasattr(arg, "dtype"):
-        dtype = arg.dtype
+    # Attributes of arbitrary values may raise, only those of arrays are known.
     if isinstance(arg, np.ndarray):
-        astatype = Array[dtype, shape]  # type: ignore[valid-type, type-arg]
+        astatype = Array[arg.dtype, arg.shape]  # type: ignore[valid-type, type-arg]
         rep = repr(astatype).replace("asta", "numpy")
     elif isinstance(arg, torch.Tensor):
-        astatype = Tensor[dtype, shape]  # type: ignore
+        astatype = Tensor[arg.dtype, arg.shape]  # type: ignore
         rep = repr(astatype).replace("asta", "torch")
     elif isinstance(arg, tf.Tensor):
-        astatype = TFTensor[dtype, shape]  # type: ignore
+        astatype = TFTensor[arg.dtype, arg.shape]  # type: ignore
         rep = repr(astatype).replace("asta", "tf")
     return rep
 
-- 
2.43.0


From 9bb9a9fa663a48804d69714cab960a313f0bd734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:14 +0000
Subject: [PATCH 30/36] fix: name the type of a value that should be None
 instead of printing it

The message for a mismatch with None printed the value itself, also for every
Optional whose array does not fit, so a value which cannot be printed let its
own exception escape from the check instead of a TypeError.
---
 asta/origins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6e89c41..9438a8b 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -504,7 +504,8 @@ def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 def check_none(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck a value annotated with ``NoneType``. """
     if value is not None:
-        fail_literal(name, [None], value, ox)
+        # Printing the value itself may raise, or yield a very long text.
+        fail_fallback(name, "None", qualified_name(value), ox)
 
 
 # Equality checks are applied to these.
-- 
2.43.0


From a8639f7a769c7b03b4a00d2ebc3af87247b3d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 31/36] fix: expand equations, so that those which always hold
 count as solvable

---
 asta/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 96fd1a1..c9bfebc 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -5,7 +5,7 @@ import random
 from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Iterator, Optional
 
-from sympy import solvers, simplify
+from sympy import expand, solvers, simplify
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
 
@@ -107,9 +107,10 @@ def astasolver(
     equations: Set[Expr],
 ) -> Tuple[bool, Set[Symbol], List[Dict[Symbol, int]]]:
     """ Solve equations for positive size free symbols. """
-    # Treat case where there are no symbols, and the equation is ``0 = 0``.
-    if 0 in equations:
-        equations.remove(0)
+    # Treat case where there are no symbols, and the equation is ``0 = 0``. Expand,
+    # since sympy finds no solution of ``X*(X + 1) - X**2 - X = 0``.
+    equations = {expand(equation) for equation in equations}
+    equations.discard(0)
 
     # If there are no nontrivial equations, return True.
     if not equations:
-- 
2.43.0


From a6c9f37fbdc483fb78f426a9a18e65e093119481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 32/36] fix: sections of other tools in setup.cfg do not
 replace asta's

---
 asta/config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asta/config.py b/asta/config.py
index db3a4b4..a82cc09 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -96,8 +96,14 @@ def read_config(config_path: str) -> configparser.ConfigParser:
         with io.open(config_path, "r", encoding="utf_8_sig") as config_file:
             parser.read_file(config_file)
 
+        sections = list(parser._sections.items())  # type: ignore[attr-defined]
+        if config_path.endswith(".cfg"):
+            # The file is shared with other tools, which may have a "master" as well.
+            sections = [item for item in sections if item[0].startswith("asta.")]
+            parser._sections.clear()  # type: ignore[attr-defined]
+
         # Normalize sections' titles.
-        for sect, values in list(parser._sections.items()):  # type: ignore
+        for sect, values in sections:
             title = sect
             if sect.startswith("asta."):
                 title = sect[len("asta.") :]
-- 
2.43.0


From 4a683ec244fc0c6115ebffaaf8544395cc4a87cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 33/36] fix: array-valued attributes are compared as a whole

Comparing an attribute that is an array with the required value raised
ValueError, or accepted the value when the attribute was an empty array.
---
 asta/_array.py    |  5 ++---
 asta/_tensor.py   |  5 ++---
 asta/_tftensor.py |  5 ++---
 asta/utils.py     | 22 +++++++++++++++++++++-
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 4878db0..208dcbe 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import astasolver, attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck, kwattrs_equal
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -48,8 +48,7 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        equal: bool = cls.kwattrs == other.kwattrs
-        return equal
+        return kwattrs_equal(cls.kwattrs, other.kwattrs)
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/_tensor.py b/asta/_tensor.py
index 74384ab..1634a86 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import astasolver, attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck, kwattrs_equal
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -38,8 +38,7 @@ class _TensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        equal: bool = cls.kwattrs == other.kwattrs
-        return equal
+        return kwattrs_equal(cls.kwattrs, other.kwattrs)
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index b43136d..e769efa 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import astasolver, attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck, kwattrs_equal
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -38,8 +38,7 @@ class _TFTensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
-        equal: bool = cls.kwattrs == other.kwattrs
-        return equal
+        return kwattrs_equal(cls.kwattrs, other.kwattrs)
 
     def __hash__(cls) -> int:
         """ Just calls __hash__ of SubscriptableMeta. """
diff --git a/asta/utils.py b/asta/utils.py
index c9bfebc..6a37d70 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -5,6 +5,7 @@ import random
 from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Iterator, Optional
 
+import numpy as np
 from sympy import expand, solvers, simplify
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
@@ -96,13 +97,32 @@ def attrcheck(
                 match = False
                 break
             equations.add(value - attr)
-        elif attr != value:
+        elif not values_equal(attr, value):
             match = False
             break
 
     return match, equations
 
 
+def values_equal(left: Any, right: Any) -> bool:
+    """ Equality of attribute values. Note ``==`` of arrays works elementwise. """
+    arrays = (np.ndarray, torch.Tensor, tf.Tensor)
+    if isinstance(left, arrays) or isinstance(right, arrays):
+        return bool(np.array_equal(left, right))
+    return bool(left == right)
+
+
+def kwattrs_equal(
+    left: Optional[Dict[str, Any]], right: Optional[Dict[str, Any]]
+) -> bool:
+    """ Equality of attribute dictionaries. """
+    if left is None or right is None:
+        return left is right
+    if left.keys() != right.keys():
+        return False
+    return all(left[k] is right[k] or values_equal(left[k], right[k]) for k in left)
+
+
 def astasolver(
     equations: Set[Expr],
 ) -> Tuple[bool, Set[Symbol], List[Dict[Symbol, int]]]:
-- 
2.43.0


From a3d06906820be6c55b1203df9a729f9eb4d02ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 34/36] fix: check TypedDict keys marked Required or
 NotRequired

Required[...] and NotRequired[...] (Python 3.11+) are no classes, so that what is
inside was taken for an annotation that is not checked.
---
 asta/origins.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 9438a8b..6009a09 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -66,6 +66,12 @@ try:
 except ImportError:
     Literal = None
 
+try:
+    # Python 3.11+
+    from typing import Required, NotRequired  # type: ignore[attr-defined]
+except ImportError:
+    Required = NotRequired = None
+
 # The type of ``X | Y`` on Python 3.10+.
 UnionType = getattr(types, "UnionType", None)
 
@@ -574,6 +580,10 @@ def check_annotation(
             equations = ORIGIN_TYPE_CHECKERS[origin](
                 name, value, annotation, equations, ox
             )
+        elif origin in (Required, NotRequired):
+            # Keys of a TypedDict may be marked as such.
+            annotation = annotation.__args__[0]
+            equations = check_annotation(name, value, annotation, equations, ox)
         elif origin in NON_ASTA_CHECKERS:
             if ox.check_non_asta_types:
                 NON_ASTA_CHECKERS[origin](name, value, annotation, ox)
-- 
2.43.0


From 5eab72d415a49c44a597c6d414aafa92d270d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 35/36] fix: turn sizes of subclasses of int into integers when
 assigned

dims.N = <IntEnum member> or True was accepted, but is no valid dimension, so that
annotations and calls using it raised TypeError.
---
 asta/dims.py   | 3 ++-
 asta/shapes.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asta/dims.py b/asta/dims.py
index 19d176a..5c43d70 100644
--- a/asta/dims.py
+++ b/asta/dims.py
@@ -63,7 +63,8 @@ class Dimensions:
             if not isinstance(value, int):
                 raise TypeError("Value of a dim must be an integer.")
             symbol = symbols(name)
-            self.symbol_map[symbol] = value
+            # Subclasses, e.g. ``bool`` or ``IntEnum``, are no valid dimensions.
+            self.symbol_map[symbol] = int(value)
 
 
 sys.modules[__name__] = Dimensions()  # type: ignore[assignment]
diff --git a/asta/shapes.py b/asta/shapes.py
index ba745b6..88516b5 100644
--- a/asta/shapes.py
+++ b/asta/shapes.py
@@ -55,7 +55,8 @@ class Shapes:
             for element in value:
                 if not isinstance(element, int):
                     raise TypeError("Shape elements must be integers.")
-            self.placeholder_map[name] = value
+            # Subclasses, e.g. ``bool`` or ``IntEnum``, are no valid dimensions.
+            self.placeholder_map[name] = tuple(int(element) for element in value)
 
 
 sys.modules[__name__] = Shapes()  # type: ignore[assignment]
-- 
2.43.0


From ff8bbd6b3ff45fe9de13b2d121b3c711c16edd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 36/36] fix: read toml files with tomllib where it exists

---
 asta/config.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index a82cc09..c1962ee 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -12,14 +12,27 @@ from oxentiel import Oxentiel
 
 from asta import _internal
 
+try:
+    import tomllib
+except ImportError:  # Python < 3.11
+    tomllib = None  # type: ignore[assignment]
+
+
+def _load_toml(path: str) -> Dict[str, Any]:
+    """ Read a toml file, of which other tools may use everything TOML offers. """
+    # Note ``toml`` refuses arrays of several types, special floats, etc.
+    if tomllib is None:
+        return dict(toml.load(path))
+    with open(path, "rb") as toml_handle:
+        return dict(tomllib.load(toml_handle))
+
 
 def _toml_has_config(path: str) -> bool:
-    with open(path, "r") as toml_handle:
-        content = toml.load(toml_handle)
-        try:
-            content["tool"]["asta"]
-        except KeyError:
-            return False
+    content = _load_toml(path)
+    try:
+        content["tool"]["asta"]
+    except KeyError:
+        return False
 
     return True
 
@@ -81,8 +94,7 @@ def read_config(config_path: str) -> configparser.ConfigParser:
     # values need not be strings.
     parser = configparser.ConfigParser(interpolation=None)
     if config_path.endswith(".toml"):
-        with open(config_path, "r") as toml_file:
-            content = toml.load(toml_file)
+        content = _load_toml(config_path)
 
         try:
             sections_values = content["tool"]["asta"]
-- 
2.43.0

