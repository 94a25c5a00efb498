From 866abf729a10bde05e30f978dbe014345a294cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 001/131] fix: use the speed of light in cm/s consistently in
 SI-Gaussian conversion factors

---
 src/eprempy/metric/_reference.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1ceb542..524a3b4 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -779,17 +779,17 @@ PI = numpy.pi
 _CONVERSIONS = {
     ('Rs', 'm'): 6.96e8,
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -803,7 +803,7 @@ _CONVERSIONS = {
     ('H / m', '1'): 1e7 / 4*PI,
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 45962329dcf01c140647ffb24d135bd1c71e2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 002/131] fix: divide by 4*pi in the conversion of permeability
 to Gaussian units

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 524a3b4..09a2544 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -800,7 +800,7 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e8 / C,
-- 
2.43.0


From 74e2e04252d07d0c4228e31e2b272de3cd4b2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 003/131] fix: correct the cgs value of the first radiation
 constant

---
 src/eprempy/universal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index f35c489..35723b4 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -106,7 +106,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From 87f35407dfc3e1e422b27c9de1020894b04ac584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 004/131] fix: square the current in the dimension of
 permittivity

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 09a2544..b02e94e 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -636,7 +636,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': '(T^4 * I^2) / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From 3af674928c27dc9e1c34fe4386d4631dc7c8bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 005/131] fix: use cm^2 in the cgs unit of displacement

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index b02e94e..742c014 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -432,7 +432,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
-- 
2.43.0


From f953fce9de063d7036ef5ae3c259b2a9a10ab2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 006/131] fix: keep the existing scale factor when converting
 the unit of an array

---
 src/eprempy/physical/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 5df9419..0da0f1a 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -153,7 +153,7 @@ def converter(c: metric.Conversion, x: Array) -> Array:
     if c.old == c.new:
         return x
     new = x.spawn(x._data_interface, unit=c.new, axes=x.axes)
-    new._scale = float(c)
+    new._scale = x._scale * float(c)
     return new
 
 
-- 
2.43.0


From 02a89d2aa46defc347e089596b92510ddee0118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 007/131] fix: keep the scale factor when transposing a
 physical array

---
 src/eprempy/physical/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 0da0f1a..d3b1f1b 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -88,7 +88,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
         """Transpose this array."""
         if not args:
             return self
-        data = self._data_interface.transpose(*args)
+        data = self.data.transpose(*args)
         axes = self.axes.permute(*args)
         return self.spawn(data, unit=self.unit, axes=axes)
 
-- 
2.43.0


From 7e4fd6d3a4be25fe4dd6cf0e35dd29d4e7fd34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 008/131] fix: use the data of each operand of a numpy function
 on real arrays

---
 src/eprempy/real/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 849daae..ea4f4bd 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -52,7 +52,7 @@ class Array(numeric.Array[T], base.abc.Real):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
-- 
2.43.0


From f8b12768a4d3f6c4d8f5c6524f93d953865f4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 009/131] fix: use the data of each operand of a numpy function
 on numeric arrays

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df2e126..67dca9e 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -628,7 +628,7 @@ class Array(Quantity[DataType], Operators):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
-- 
2.43.0


From 21b2871bfd326c2f01469541f3a1d5ff8fb8e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 010/131] fix: support keepdims when computing the mean of an
 array along an axis

---
 src/eprempy/real/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ea4f4bd..311f438 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -292,6 +292,8 @@ def mean(x: Array[ValueType], **kwargs):
     axis = kwargs.get('axis')
     if axis is None:
         return data
+    if kwargs.get('keepdims'):
+        return array_factory(data, dimensions=x.dimensions)
     ax = axis % x.ndim
     dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
     return array_factory(data, dimensions=dimensions)
-- 
2.43.0


From 7633d207579656b969f115304ba93f2012b6935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 011/131] fix: respect keepdims=False when computing the sum of
 an array along an axis

---
 src/eprempy/real/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 311f438..ec075d2 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -306,7 +306,7 @@ def sum(x: Array[ValueType], **kwargs):
     axis = kwargs.get('axis')
     if axis is None:
         return data
-    if 'keepdims' in kwargs:
+    if kwargs.get('keepdims'):
         return array_factory(data, dimensions=x.dimensions)
     ax = x.ndim + axis if axis < 0 else axis
     dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-- 
2.43.0


From a253c007d86fc28c42e311b1915e78b5654eb884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 012/131] fix: support conversion of a physical scalar to
 complex

---
 src/eprempy/physical/_scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_scalar.py b/src/eprempy/physical/_scalar.py
index 963e24a..0517520 100644
--- a/src/eprempy/physical/_scalar.py
+++ b/src/eprempy/physical/_scalar.py
@@ -72,7 +72,7 @@ class Scalar(Object[real.ValueType], Operators):
     @exceptions.convert(PhysicalTypeError, TypeError)
     def __complex__(self) -> complex:
         """Called for complex(self)."""
-        if operator := self._OPERATORS.get('complex'):
+        if operator := self._OPERATORS.get(complex):
             return operator(self)
         raise TypeError(
             f"Instances of {type(self)} do not support"
-- 
2.43.0


From c37504eca753f320c693c8a02e9aa19ae4b75606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 013/131] fix: compute the length of a sliced axis from the
 slice and the axis length

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 67dca9e..07b3371 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -396,7 +396,7 @@ class Array(Quantity[DataType], Operators):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def __str__(self) -> str:
-- 
2.43.0


From e151a4f586625dda00982e7a0e640ed2ab5c792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 014/131] fix: apply slices that appear together with index
 arrays

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e3e8d38..b20e143 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -622,7 +622,7 @@ def normalize(shape: typing.Sequence[int], args):
     indices = []
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
-            indices.append(range(shape[i]))
+            indices.append(range(shape[i])[arg])
         elif isintegral(arg):
             indices.append((arg,))
         else:
-- 
2.43.0


From 1b29c552ae9d3e13a804f9213416f089c010e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 015/131] fix: return NotImplemented when subtracting
 dimensions from an unsupported object

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 07b3371..90ed991 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -119,7 +119,7 @@ class Dimensions(collections.abc.Sequence):
         """Called for other - self."""
         if isinstance(other, Dimensions):
             return dimensions_factory(*[n for n in other if n not in self])
-        raise NotImplemented
+        return NotImplemented
 
     def __or__(self, other):
         """Called for self | other."""
-- 
2.43.0


From e4def1fbe2eecf00bd19df615f9898fab278439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 016/131] fix: create a Dimensions object from a number of
 dimensions

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 90ed991..0a44dd7 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -287,7 +287,7 @@ def dimensions_factory(*args):
     if len(args) == 1:
         arg = args[0]
         if isinstance(arg, numbers.Real):
-            return tuple(f'x{i}' for i in range(arg))
+            return Dimensions(tuple(f'x{i}' for i in range(arg)))
     unwrapped = container.unwrap(args, newtype=tuple)
     unique = container.unique(unwrapped)
     return Dimensions(_compute_names(unique))
-- 
2.43.0


From 6cc45d7ec2b773aadae38d1d985739337ba4ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 017/131] fix: allow conversion of a scalar with real data to
 complex

---
 src/eprempy/physical/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 709f4c8..d1fa17a 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -176,7 +176,7 @@ def asfloat(a):
 @Scalar.implements('complex')
 def ascomplex(a):
     """Compute complex(self)."""
-    return cast(complex, a, typing.SupportsComplex)
+    return cast(complex, a, (typing.SupportsComplex, typing.SupportsFloat))
 
 
 def cast(__type: T, a, protocol: typing.Optional[type]=None) -> T:
-- 
2.43.0


From c4f97a8bf0668fd0c1b7c725b6d65d380498e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 018/131] fix: report axes with different dimensions when
 adding axes

---
 src/eprempy/physical/_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index f82b889..52a0eb9 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -147,7 +147,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             return NotImplemented
         if self.keys() != other.keys():
             raise ValueError(
-                f"Cannot fill {a} from {b} with different dimensions"
+                f"Cannot fill {self} from {other} with different dimensions"
             ) from None
         new = {}
         for key in self:
-- 
2.43.0


From 3a8b27c636bcba793cd3f17549f14daa2da1d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 019/131] fix: pass positional arguments of round and pow to
 the operator

---
 src/eprempy/numeric/_implementation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/numeric/_implementation.py b/src/eprempy/numeric/_implementation.py
index b04956c..3b74050 100644
--- a/src/eprempy/numeric/_implementation.py
+++ b/src/eprempy/numeric/_implementation.py
@@ -37,9 +37,9 @@ class Customizable(typing.Protocol):
 def unary(operation: typing.Union[str, typing.Callable]):
     """Implement a unary numeric operation."""
     f = resolve(operation)
-    def operator(self, **kwargs):
+    def operator(self, *args, **kwargs):
         if isinstance(self, Customizable):
-            return self.__object_operator__(f, self, **kwargs)
+            return self.__object_operator__(f, self, *args, **kwargs)
         return NotImplemented
     return operator
 
@@ -47,9 +47,9 @@ def unary(operation: typing.Union[str, typing.Callable]):
 def binary(operation: typing.Union[str, typing.Callable]):
     """Implement a binary numeric operation."""
     f = resolve(operation)
-    def operator(self, other, **kwargs):
+    def operator(self, other, *args, **kwargs):
         if isinstance(self, Customizable):
-            return self.__object_operator__(f, self, other, **kwargs)
+            return self.__object_operator__(f, self, other, *args, **kwargs)
         return NotImplemented
     return operator
 
@@ -57,13 +57,13 @@ def binary(operation: typing.Union[str, typing.Callable]):
 def doublet(operation: typing.Union[str, typing.Callable]):
     """Implement a forward/reverse pair of binary numeric operations."""
     f = resolve(operation)
-    def forward(self, other, **kwargs):
+    def forward(self, other, *args, **kwargs):
         if isinstance(self, Customizable):
-            return self.__object_operator__(f, self, other, **kwargs)
+            return self.__object_operator__(f, self, other, *args, **kwargs)
         return NotImplemented
-    def reverse(self, other, **kwargs):
+    def reverse(self, other, *args, **kwargs):
         if isinstance(self, Customizable):
-            return self.__object_operator__(f, other, self, **kwargs)
+            return self.__object_operator__(f, other, self, *args, **kwargs)
         return NotImplemented
     return forward, reverse
 
-- 
2.43.0


From 94504b8a542fa696f16cc1f2e061482ecfb4b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 020/131] fix: create a context from only a unit given by
 position

---
 src/eprempy/measured/_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/measured/_context.py b/src/eprempy/measured/_context.py
index 8f773bc..9f0e0e8 100644
--- a/src/eprempy/measured/_context.py
+++ b/src/eprempy/measured/_context.py
@@ -100,7 +100,7 @@ def context_factory(*args, **kwargs):
 
 def context_args(*args, **kwargs) -> typing.Tuple[metric.Unit, Converter[T]]:
     """Parse arguments to initialize an instance of `~Context`."""
-    if args and not kwargs:
+    if len(args) == 2 and not kwargs:
         return metric.unit(args[0] or '1'), args[1] or _default_converter
     if kwargs and not args:
         return (
-- 
2.43.0


From c0fc5e7f2c235efd1ae4ed28cf66649fed3ac2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 021/131] fix: keep the unit when creating a physical object
 from another measured object

---
 src/eprempy/physical/_object_factories.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index b1d9708..df33700 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -37,18 +37,18 @@ def scalar_factory(x, /, unit=None) -> Scalar:
 
 def scalar_args(x, unit, /):
     """Parse arguments to initialize `~Scalar`."""
-    if isinstance(x, Scalar):
+    if isinstance(x, (Scalar, measured.Value)):
         return x.data, x.unit
     if isinstance(x, numbers.Real):
         return x, unit
-    a = numpy.array(x)
+    a = numpy.array(x.data if isinstance(x, Coordinates) else x)
     s = a.size
     if s != 1:
         raise TypeError(
             f"Cannot create a scalar from data with size {s}"
         ) from None
-    data = a[0]
-    if isinstance(x, Tensor):
+    data = a.ravel()[0]
+    if isinstance(x, (measured.Object, Coordinates)):
         return data, x.unit
     return data, unit
 
@@ -68,7 +68,7 @@ def vector_args(x, unit, /):
     if isinstance(x, (quantity.Measurement, Scalar)):
         y = [x.data] if isinstance(x, Scalar) else x
         return vector_args(numpy.asarray(y), x.unit)
-    if isinstance(x, Tensor):
+    if isinstance(x, measured.Object):
         return vector_args(numpy.array(x.data), x.unit)
     a = numpy.asarray(x)
     if a.ndim != 1:
@@ -95,6 +95,8 @@ def tensor_args(x, unit, /):
     if isinstance(x, (quantity.Measurement, Scalar)):
         y = [x.data] if isinstance(x, Scalar) else x
         return tensor_args(numpy.asarray(y), x.unit)
+    if isinstance(x, (measured.Object, Coordinates)):
+        return tensor_args(numpy.array(x.data), x.unit)
     a = numpy.asarray(x)
     if a.ndim == 0:
         raise TypeError(
@@ -118,7 +120,7 @@ def array_args(x, unit, axes, /):
     dimensions = tuple(axes or ())
     data = real.array(array_data(x), *dimensions)
     axes = array_axes(data.shape, axes)
-    if isinstance(x, measured.Object):
+    if isinstance(x, (measured.Object, Coordinates)):
         return data, x.unit, axes
     return data, unit, axes
 
-- 
2.43.0


From 055ba0e04ad862bbc8b129ccc85d322f32750eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 022/131] fix: apply the scale of a reduced unit once when
 converting by dimensions

---
 src/eprempy/metric/_conversions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 312e394..ca04000 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -302,25 +302,23 @@ def _decompose_unit(term: symbolic.Term):
     """Convert a unit into fundamental units, if possible."""
     exponent = term.exponent
     if reduction := _reduce_unit(term.base, exponent):
-        return 1.0, reduction
+        return reduction
     for system in _reference.SYSTEMS:
         norm = _defined.NamedUnit(term.base).norm[system]
         if reduction := _reduce_unit(norm.symbol, exponent):
             if factor := _convert_as_strings(term.base, norm.symbol):
-                return factor**exponent, reduction
+                scale, units = reduction
+                return scale * factor**exponent, units
 
 
 def _reduce_unit(base: str, exponent: numbers.Real):
-    """Compute the equivalent expression in fundamental units, if possible."""
+    """Compute the equivalent scale and fundamental units, if possible."""
     if reduction := _defined.NamedUnit(base).reduce():
-        return [
-            symbolic.term(
-                coefficient=reduction.scale**exponent,
-                base=this.base,
-                exponent=exponent*this.exponent,
-            )
+        units = [
+            symbolic.term(base=this.base, exponent=exponent*this.exponent)
             for this in reduction.units
         ]
+        return reduction.scale**exponent, units
 
 
 def _cancel_terms(terms: typing.List[symbolic.Term]):
-- 
2.43.0


From 6a90c58b3391060f02b7235d82a6c2be26e080d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 023/131] fix: cancel each term at most once when converting by
 dimensions

---
 src/eprempy/metric/_conversions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index ca04000..e65ec49 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -329,7 +329,7 @@ def _cancel_terms(terms: typing.List[symbolic.Term]):
     for target in terms:
         if target not in matched:
             inverse_powers = [
-                term for term in terms
+                term for term in unmatched
                 if term != target and term.exponent == -target.exponent
             ]
             for term in inverse_powers:
@@ -337,6 +337,7 @@ def _cancel_terms(terms: typing.List[symbolic.Term]):
                     for this in (target, term):
                         matched.append(this)
                         unmatched.remove(this)
+                    break
     return unmatched
 
 
-- 
2.43.0


From 8d4f5bd55f750c0b78fe6d396e69653f4020d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 024/131] fix: convert between dimensionless units within
 compound units

---
 src/eprempy/metric/_conversions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index e65ec49..b07f329 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -377,17 +377,14 @@ def _match_exponents(
 ) -> typing.Optional[typing.Tuple[float, symbolic.Term]]:
     """Attempt to convert `target` to a term in `terms` by exponent.
 
-    This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`. If
-    that check fails, this function compares `target` to each term in `terms`
-    that has an exponent with the same magnitude and opposite sign. If it can
-    convert the base unit of `target` to the base unit of a term in `terms`, it
-    will return the corresponding conversion factor and the matching term.
+    This function compares `target` to each term in `terms` that has an exponent
+    with the same magnitude and opposite sign. If it can convert the base unit
+    of `target` to the base unit of a term in `terms`, it will return the
+    corresponding conversion factor and the matching term. If there is no such
+    term and `target` is a dimensionless reference unit, this function returns a
+    conversion factor of 1.0 along with `target`.
     """
     u0 = target.base
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
     exponent = target.exponent
     inverse_powers = [
         term for term in terms
@@ -397,6 +394,9 @@ def _match_exponents(
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
             return conversion ** exponent, term
+    dimensions = _defined.NamedUnit(u0).dimensions.values()
+    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
+        return 1.0, target
 
 
 @etc.autostr
-- 
2.43.0


From aa787b70c62a5113fcc44992b183d519a513beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 025/131] fix: use the magnitude of unmatched dimensionless
 units in conversions

---
 src/eprempy/metric/_conversions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index b07f329..34e550f 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -381,8 +381,9 @@ def _match_exponents(
     with the same magnitude and opposite sign. If it can convert the base unit
     of `target` to the base unit of a term in `terms`, it will return the
     corresponding conversion factor and the matching term. If there is no such
-    term and `target` is a dimensionless reference unit, this function returns a
-    conversion factor of 1.0 along with `target`.
+    term and `target` is a dimensionless reference unit, this function returns
+    the conversion factor from `target` to the canonical unit of its quantity (or
+    1.0 if there is none), along with `target`.
     """
     u0 = target.base
     exponent = target.exponent
@@ -394,9 +395,12 @@ def _match_exponents(
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
             return conversion ** exponent, term
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
+    named = _defined.NamedUnit(u0)
+    dimensions = named.dimensions.values()
     if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
+        reference = named.norm['mks'].symbol
+        conversion = _convert_as_strings(u0, reference) or 1.0
+        return conversion ** exponent, target
 
 
 @etc.autostr
-- 
2.43.0


From ad59aae85ce49d5dbd363ac9d8cb71e4d82f4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 026/131] fix: refuse unknown quantities, and accept cancelled
 ones, without infinite recursion

---
 src/eprempy/metric/_defined.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index d351264..f320353 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -116,9 +116,12 @@ class _Property(collections.abc.Mapping):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        name = 'identity' if term.base == '1' else term.base.replace('_', ' ')
+        if name not in _reference._QUANTITIES:
+            raise KeyError(f"Unknown quantity {name}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[name].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 26105642b0c11536afb77f21df8d1cd6c06cd397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 027/131] fix: spelling of illuminance, the quantity of lux

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 742c014..6e169d7 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -491,7 +491,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From cdf84990989fac3814c9c97b06a1d128f01d4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 028/131] fix: raise observable quantities to numerical powers

---
 src/eprempy/observable/_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index bb784c0..cc11f5b 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -560,7 +560,8 @@ class Quantity:
     def _apply(self, operator, other, *attrs):
         """Apply a standard algebraic operator."""
         def __f(user: Arguments):
-            return operator(self[user], other[user])
+            operand = other[user] if isinstance(other, Quantity) else other
+            return operator(self[user], operand)
         context = Context(__f, self.context.axes, self.context.grid)
         return Quantity(context, *attrs)
 
-- 
2.43.0


From bb5b890a401045facb70c8cffb4ad8869c19a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 029/131] fix: compute the acceleration rate of a single shell

---
 src/eprempy/observable/_interfaces.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aac0451..b08a43e 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -566,10 +566,12 @@ class Implementations:
 
     def _compute_ar(self, shell=None, species=None) -> physical.Array:
         """Helper for `_ar`."""
-        s = (
-            shell if isinstance(shell, numeric.index.Sequence)
-            else self.axes['shell'].index()
-        )
+        if isinstance(shell, numeric.index.Value):
+            s = numeric.index.sequence([int(shell)])
+        elif isinstance(shell, numeric.index.Sequence):
+            s = shell
+        else:
+            s = self.axes['shell'].index()
         s1 = s.shift(1, ceil=len(self.axes['shell'])-1)
         s2 = s.shift(-1, floor=0)
         ur1 = self.ur(shell=s1)
-- 
2.43.0


From 2dc8c1f6becd5b026b6fc8170fd16cc3054f7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:03 +0000
Subject: [PATCH 030/131] fix: provide every defined observable quantity

---
 src/eprempy/observable/_interfaces.py | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index b08a43e..999f31e 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1538,6 +1538,40 @@ class Quantities(collections.abc.Mapping):
             assumptions=user.assumptions,
         )
 
+    @property
+    def ubmag(self):
+        """The product of velocity- and magnetic-field magnitudes, |U||B|."""
+        return self._implement(
+            self._ubmag,
+            self.ur.unit * self.br.unit,
+            self.ur.dimensions,
+        )
+
+    def _ubmag(self, user: Arguments):
+        """Callback method for the product of field magnitudes."""
+        return self.functions.ubmag(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
+    @property
+    def udotb(self):
+        """The dot product of the velocity and magnetic fields, U·B."""
+        return self._implement(
+            self._udotb,
+            self.ur.unit * self.br.unit,
+            self.ur.dimensions,
+        )
+
+    def _udotb(self, user: Arguments):
+        """Callback method for the dot product of fields."""
+        return self.functions.udotb(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
     @property
     def angle(self):
         """The angle between the magnetic- and velocity-field vectors."""
-- 
2.43.0


From 707284d07d18bb605439c7cf48fe5b0666210bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 031/131] fix: interpolate to a radius at the requested time

---
 src/eprempy/observable/_interfaces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 999f31e..0b397e2 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -954,7 +954,9 @@ class Implementations:
             # dimensions.
             return from_axis
         from_grid = self._get_grid_interpolant(x, assumptions, 'radius')
-        return {**from_axis, **from_grid}
+        # NOTE: The coordinate grid depends on time, so radial interpolation must
+        # precede interpolation over the time axis.
+        return {**from_grid, **from_axis}
 
     def _get_axis_interpolant(self, x: physical.Array, assumptions: dict):
         """Compute interpolation information from an axis object."""
-- 
2.43.0


From a3b1df37845e997d6c9094fbcdfd8c4bd296f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:16 +0000
Subject: [PATCH 032/131] fix: interpolate to a radius equal to a grid value

---
 src/eprempy/observable/_interfaces.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 0b397e2..92d8723 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -2012,13 +2012,13 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
-        idx = container.nearest(reference, target).index
-        return array[idx]
     ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
+    if target in reference:
+        idx = container.nearest(reference, target).index
+        return array[idx]
     if ndim != 1:
         raise physical._array.NDimError(
             f"The reference array may have 1 or 2 (not {ndim}) dimensions"
-- 
2.43.0


From e0c309ea01b6d8abf54a0fb2b6a201753bb048a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 033/131] fix: interpolate to a radius equal to a grid value

---
 src/eprempy/observable/_objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index cc11f5b..d999dd2 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -143,13 +143,13 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
-        idx = container.nearest(reference, target).index
-        return array[idx]
     ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
+    if target in reference:
+        idx = container.nearest(reference, target).index
+        return array[idx]
     if ndim != 1:
         raise physical._array.NDimError(
             f"The reference array may have 1 or 2 (not {ndim}) dimensions"
-- 
2.43.0


From 37d084a0f5326653adfdbe98367ce97ebfb8292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 034/131] fix: give the flow angle the axes of its operands

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 92d8723..5f9c042 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -392,7 +392,7 @@ class Implementations:
         return physical.array(
             numpy.arccos(arg),
             unit='rad',
-            axes=self.dataset.ur.axes,
+            axes=ratio.axes,
         )
 
     def uperp(
-- 
2.43.0


From 3345a7c7bf0ecba8374e19782386130ee25372a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 035/131] fix: give interpolated axis-like quantities the axes
 of their values

---
 src/eprempy/observable/_interfaces.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 5f9c042..acb6cf1 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1163,7 +1163,7 @@ class Quantities(collections.abc.Mapping):
             return physical.array(
                 data,
                 unit=unit,
-                axes=self.dataset.time.axes,
+                axes={'time': physical.coordinates(data, unit=unit)},
             )
         return self.functions.time(time=user.time)
 
@@ -1184,7 +1184,7 @@ class Quantities(collections.abc.Mapping):
             return physical.array(
                 data,
                 unit=unit,
-                axes=self.dataset.energy.axes,
+                axes={'energy': physical.coordinates(data, unit=unit)},
             )
         return self.functions.energy(energy=user.energy)
 
@@ -1222,7 +1222,7 @@ class Quantities(collections.abc.Mapping):
             return physical.array(
                 data,
                 unit=unit,
-                axes=self.dataset.mu.axes,
+                axes={'mu': physical.coordinates(data, unit=unit)},
             )
         return self.functions.mu(mu=user.mu)
 
-- 
2.43.0


From 0c8e0f22b9c3571d7a1ad12c9409e1aae47bbfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 036/131] fix: interpolate the mean free path to the requested
 energy

---
 src/eprempy/observable/_interfaces.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index acb6cf1..36ec79c 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -525,7 +525,13 @@ class Implementations:
         assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the mean free path."""
-        e = self.energy(energy=energy)
+        # NOTE: This method does not attempt to subscript intermediate
+        # quantities by time or energy in case downstream code needs to
+        # interpolate over them. It subscripts by shell because it assumes that
+        # upstream code has reset `shell` as necessary for radial interpolation,
+        # and it subscripts by species because interpolation over species is
+        # meaningless.
+        e = self.energy()
         m = self.mass(species=species)
         q = self.charge(species=species)
         rg = self._compute_rigidity(m, q, e)
@@ -538,13 +544,12 @@ class Implementations:
         )
         rg0 = self._compute_rigidity(m, q, e0)
         r0 = self.constants['au'].asscalar
-        r = self.r(time, shell, assumptions)
+        r = self.r(shell=shell)
         rterm = (r / r0) ** self.parameters['mfpRadialPower']
         rgterm = (rg / rg0) ** self.parameters['rigidityPower']
         lambda0 = self.parameters['lambda0'].withunit(str(self.system))
-        # NOTE: Intermediate methods have already restricted the result via
-        # subscription or interpolation.
-        return lambda0 * rterm * rgterm
+        result = lambda0 * rterm * rgterm
+        return self._observe(result, assumptions, time=time, energy=energy)
 
     def ar(
         self,
-- 
2.43.0


From bcc84e9f8881eadb6e3d5ec8967f9eadc8c881ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 037/131] fix: interpolate the rigidity to the requested energy

---
 src/eprempy/observable/_interfaces.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 36ec79c..34b3993 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -472,6 +472,7 @@ class Implementations:
         self,
         species=None,
         energy=None,
+        assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the magnetic rigidity.
 
@@ -480,13 +481,14 @@ class Implementations:
         kinetic energy. Finally, it divides the momentum by the particle charge
         to get rigidity.
         """
-        # NOTE: Intermediate methods have already restricted the result via
-        # subscription or interpolation.
-        return self._compute_rigidity(
+        # NOTE: This method does not attempt to subscript the energies in case
+        # downstream code needs to interpolate over them.
+        result = self._compute_rigidity(
             self.mass(species=species),
             self.charge(species=species),
-            self.energy(energy=energy),
+            self.energy(),
         )
+        return self._observe(result, assumptions, energy=energy)
 
     def _compute_rigidity(
         self,
@@ -1663,6 +1665,7 @@ class Quantities(collections.abc.Mapping):
         return self.functions.rigidity(
             species=user.species,
             energy=user.energy,
+            assumptions=user.assumptions,
         )
 
     @property
-- 
2.43.0


From e99d43567dd60be71431f3357b0f247c6adfe905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 038/131] fix: label plots with the unit of the plotted data

---
 src/eprempy/physical/_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index d3b1f1b..492ba01 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -185,7 +185,8 @@ def plot(
     **extra
 ) -> None:
     """Plot the named array."""
-    ndarray = numpy.array(array.withunit(unit or array.unit)).squeeze()
+    array = array.withunit(unit or array.unit)
+    ndarray = numpy.array(array).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
     extra['ylabel'] = f"[{array.unit.format(style='tex')}]"
@@ -209,7 +210,7 @@ def plot(
             m = quantity.measure(x)
             xarr = numpy.array(m)
             if 'xlabel' not in extra:
-                extra['xlabel'] = f"{name} [{m.unit}]"
+                extra['xlabel'] = f"[{m.unit}]"
         elif isinstance(x, str):
             axis = array.axes[x]
             xarr = numpy.array(axis)
-- 
2.43.0


From de461049388f35e33288b4dc057a2d2c408af573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 039/131] fix: create coordinates of interpolated axis-like
 quantities from measured values

---
 src/eprempy/observable/_interfaces.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 34b3993..c5e733b 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1167,11 +1167,8 @@ class Quantities(collections.abc.Mapping):
         if 'time' in user:
             unit = self.dataset.time.unit
             data = numpy.array(user['time'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes={'time': physical.coordinates(data, unit=unit)},
-            )
+            axis = physical.coordinates(measured.sequence(data, unit))
+            return physical.array(data, unit=unit, axes={'time': axis})
         return self.functions.time(time=user.time)
 
     @property
@@ -1188,11 +1185,8 @@ class Quantities(collections.abc.Mapping):
         if 'energy' in user:
             unit = self.dataset.energy.unit
             data = numpy.array(user['energy'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes={'energy': physical.coordinates(data, unit=unit)},
-            )
+            axis = physical.coordinates(measured.sequence(data, unit))
+            return physical.array(data, unit=unit, axes={'energy': axis})
         return self.functions.energy(energy=user.energy)
 
     @property
@@ -1226,11 +1220,8 @@ class Quantities(collections.abc.Mapping):
         if 'mu' in user:
             unit = self.dataset.mu.unit
             data = numpy.array(user['mu'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes={'mu': physical.coordinates(data, unit=unit)},
-            )
+            axis = physical.coordinates(measured.sequence(data, unit))
+            return physical.array(data, unit=unit, axes={'mu': axis})
         return self.functions.mu(mu=user.mu)
 
     @property
-- 
2.43.0


From f074d01ba63ed304c2abf076f4bb40b8ffd060ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 040/131] fix: integrate flux over a subset of energies

---
 src/eprempy/observable/_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index c5e733b..7b6d394 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -836,9 +836,9 @@ class Implementations:
         de = physical.array(
             numpy.array(e0) - numpy.array(em),
             unit=e0.unit,
-            axes={'energy': energy},
+            axes=e0.axes,
         )
-        return numpy.cumsum(flux * de, axis=-1)
+        return numpy.cumsum(flux[..., ie] * de, axis=-1)
 
     def _check_interp(
         self,
-- 
2.43.0


From c1f4b4ac60f63696ea8f07d7554a320f72f71bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 041/131] fix: find the nearest bounded value in unsorted or
 multidimensional collections

---
 src/eprempy/container.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 709d834..b6eb1ee 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1038,19 +1038,20 @@ def nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
+    distance = numpy.abs(array - target)
+    index = distance.argmin()
     if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
+        allowed = array >= target
+        index = (
+            numpy.where(allowed, distance, numpy.inf).argmin()
+            if allowed.any() else array.size - 1
+        )
     elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+        allowed = array <= target
+        index = (
+            numpy.where(allowed, distance, numpy.inf).argmin()
+            if allowed.any() else 0
+        )
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From b5677f538af65d71d5541ee06f8c62955bcd5dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 042/131] fix: allow interpolation to the first and last values
 of an axis

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 7b6d394..15af1e6 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1062,7 +1062,7 @@ def _check_interpolation_bounds(
     """Raise an exception if `value` is not bounded by `reference`."""
     a = numpy.min(reference)
     b = numpy.max(reference)
-    if not a < value < b:
+    if not a <= value <= b:
         sv = f"{float(value):6.4g} {str(value.unit)}"
         sa = f"{float(a):6.4g} {str(reference.unit)}"
         sb = f"{float(b):6.4g} {str(reference.unit)}"
-- 
2.43.0


From a7b244a63f7b922f6d58e5ece29709fd6b980b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 043/131] fix: round ionic charges to the nearest integer

The charge of an ion was truncated, so that one converted from coulombs
(e.g., 1.602e-19 C = 0.9999 e) counted as neutral. Masses are already rounded.
---
 src/eprempy/atomic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/atomic.py b/src/eprempy/atomic.py
index 24e9a56..e3ede2b 100644
--- a/src/eprempy/atomic.py
+++ b/src/eprempy/atomic.py
@@ -153,7 +153,7 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [('+' if i > 0 else '-') * abs(round(float(i))) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From 46037299a0acf2cd77a6c81b6f8c98abf6662fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 044/131] fix: remove the prefix of an observer file as a whole

str.lstrip removes any of the prefix's characters, so that the observer of
'p_obsobserver.nc' was known as 'erver'.
---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index dfe0f77..f51d10c 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -413,7 +413,7 @@ def _get_observer_id(path: pathlib.Path):
     prefixes = Stream.prefixes | Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
-            key = stem.lstrip(prefix)
+            key = stem[len(prefix):]
             if prefix in Stream.prefixes:
                 return int(key)
             return key
-- 
2.43.0


From 8a9ef2270774a29460ac9c307d0236a7710c94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 045/131] fix: look for a bare config-file name in the
 dataset's directory

A path object with a file name only was taken relative to the working
directory, although the equivalent string was not.
---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index f51d10c..b10da77 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -480,7 +480,7 @@ def _build_confpath(
         ) from None
     this = pathlib.Path(config)
     full = (
-        directory / config if this.name == config # file name only
+        directory / config if this.name == str(config) # file name only
         else paths.fullpath(this, strict=True) # full or relative path
     )
     if full.exists():
-- 
2.43.0


From 75ee529fccea4ef73dd13e030129d59514b8a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 046/131] fix: choose observer files in a fixed order

The prefixes of file names were sets of strings, so that their order, and the
file chosen for an observer with files of more than one prefix, varied from
run to run.
---
 src/eprempy/eprem.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index b10da77..773b702 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -143,7 +143,7 @@ ObserverType = typing.TypeVar('ObserverType', bound=Observer)
 class Stream(Observer):
     """An EPREM stream observer."""
 
-    prefixes = {'stream', 'obs', 'flux'}
+    prefixes = ('stream', 'obs', 'flux')
 
     @classmethod
     def patterns(cls, __id: int) -> typing.List[str]:
@@ -174,7 +174,7 @@ class Stream(Observer):
 class Point(Observer):
     """An EPREM point observer."""
 
-    prefixes = {'point', 'p_obs'}
+    prefixes = ('point', 'p_obs')
 
     @classmethod
     def patterns(cls, __id: typing.Union[str, int]) -> typing.List[str]:
@@ -258,7 +258,7 @@ def observer(
             f"Cannot create observer from ID type {type(__id)}"
         ) from None
     if isinstance(__id, int):
-        patterns = (f'{prefix}{__id:06}.*' for prefix in {'obs', 'flux'})
+        patterns = (f'{prefix}{__id:06}.*' for prefix in ('obs', 'flux'))
         return _create_observer(Stream, patterns, config, source, system)
     patterns = []
     with contextlib.suppress(ValueError):
@@ -346,7 +346,7 @@ class Dataset:
         if self._streams is None:
             obspaths = [
                 path
-                for prefix in Stream.prefixes
+                for prefix in reversed(Stream.prefixes)
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
@@ -362,7 +362,7 @@ class Dataset:
         if self._points is None:
             obspaths = [
                 path
-                for prefix in Point.prefixes
+                for prefix in reversed(Point.prefixes)
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
@@ -410,7 +410,7 @@ class Dataset:
 def _get_observer_id(path: pathlib.Path):
     """Compute the appropriate observer ID for the given path."""
     stem = path.stem
-    prefixes = Stream.prefixes | Point.prefixes
+    prefixes = Stream.prefixes + Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
             key = stem[len(prefix):]
-- 
2.43.0


From 62afc2927218d917a55af0e1d6cd0da2cf4fd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:09 +0000
Subject: [PATCH 047/131] fix: return the name of an executable which cannot be
 found

As documented; pathlib.Path(None) raised TypeError instead.
---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 140a638..55b8135 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -60,7 +60,7 @@ def locate(
     """
     location = environment.get(name) or path / name
     it = normalize(os.path.realpath(location))
-    return it if it.exists() else pathlib.Path(shutil.which(name))
+    return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
 class PathSet(etc.InstanceSet):
-- 
2.43.0


From d2b9f777d84dc9704c1ee0143590c7db4f921601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 048/131] fix: parse config files with blank lines, indented
 comments and '=' in values

---
 src/eprempy/parameter/_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b92a6b8..0c7bb65 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -257,7 +257,9 @@ def _parse_config(
             if line == '' or line == '\n' or line[0] in cmnt:
                 continue
             tmp = paths.strip_inline_comments(line, cmnt)
-            key, value = tmp.split('=')
+            if not tmp:
+                continue
+            key, value = tmp.split('=', 1)
             pairs[key.strip()] = value.strip()
     return pairs
 
-- 
2.43.0


From 98841029d83d52097fa315134dff33dda093d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 049/131] fix: compare a config file to one given by its path

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 0c7bb65..3ad05a6 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -208,7 +208,7 @@ class ConfigFile(collections.abc.Mapping):
             if isinstance(x, ConfigFile):
                 return x
             if isinstance(x, (str, pathlib.Path)):
-                return ConfigFile(x, **kwargs)
+                return configfile_factory(x, **kwargs)
             raise TypeError(
                 "Argument must be a path-like object"
                 f" or an instance of this class (got {type(x)})"
-- 
2.43.0


From 8d2311755aba38addfcee28a9696be3702f0949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:52 +0000
Subject: [PATCH 050/131] fix: resolve default values which are equal to zero

---
 src/eprempy/parameter/_config.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 3ad05a6..ce025b4 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -49,7 +49,8 @@ class Defaults(collections.abc.Mapping):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := cast(current, strict=False):
+        value = cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -72,7 +73,8 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.expression(definition.replace('config.', ''))
-- 
2.43.0


From 55748abfb034fed191beaf3a76474d9308253f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 051/131] fix: create the command-line script of a new project

---
 src/eprempy/project.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e373832..b87ab6a 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -790,13 +790,20 @@ class Interface:
             return
         with (DIRECTORY / '_project_main.py').open('r') as rp:
             lines = rp.readlines()
-        payload = lines.copy()
-        import_line = lines.index(f'import {__name__}\n')
+        local = 'from . import '
+        import_line = next(
+            i for i, line in enumerate(lines) if line.startswith(local)
+        )
+        payload = [
+            line.replace(local, f'from {__package__} import ')
+            if line.startswith(local) else line
+            for line in lines
+        ]
         path_spec = (
             "import pathlib\n"
             "import sys\n"
             "\n"
-            f"sys.path.append({str(DIRECTORY)!r})\n"
+            f"sys.path.append({str(DIRECTORY.parent)!r})\n"
             "\n"
         )
         payload.insert(import_line, path_spec)
-- 
2.43.0


From 75d830822e2767e05dbbc6e80bae57c7a20ca18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 052/131] fix: update the paths of runs in the log of a renamed
 project

---
 src/eprempy/project.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index b87ab6a..bb52f43 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -117,10 +117,12 @@ class RunLog(collections.abc.Mapping):
             raise paths.PathTypeError("The new path must exist") from None
         if not new.is_dir():
             raise paths.PathTypeError("Cannot rename log file") from None
+        source = self.path.parent
         self._path = new / self.name
-        source = str(self.path.parent)
         for key in self:
-            self.mv(key, key.replace(source, str(new)))
+            path = pathlib.Path(key)
+            if source in path.parents:
+                self.mv(key, new / path.relative_to(source))
         return self
 
     @typing.overload
-- 
2.43.0


From 83b1a7a55728d684f52725770e6a329967b3e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 053/131] fix: keep the attributes of a project when copying it

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index bb52f43..987e571 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -735,7 +735,7 @@ class Interface:
             return self._get_attrs(root, **options)
         restored = self._restore_project(paths.normalize(copy))
         copied = restored.options
-        copied.update(options)
+        copied.update({k: v for k, v in options.items() if v is not None})
         return self._get_attrs(root, **copied)
 
     def _get_attrs(self, root: paths.PathLike, **options):
-- 
2.43.0


From fbff3244df606280d9baae704f1379ccb16096f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:50 +0000
Subject: [PATCH 054/131] fix: run EPREM with the names that the project
 defines

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 987e571..97ec691 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -949,7 +949,7 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / 'inputs' / config
+        prjcfg = self.root / self._attrs.inputs.name / config
         inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
         shutil.copy(inputs, path / self._attrs.config)
         branch = path.parent.parent
@@ -958,7 +958,7 @@ class Interface:
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
             f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} eprem.cfg"
+            f"-n {nproc or 1} {eprem} {self._attrs.config}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From 589beb6628503117f24b139b367121ac19316ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 055/131] fix: update the name and attributes of a renamed
 project

---
 src/eprempy/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 97ec691..cf5e859 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -884,6 +884,8 @@ class Interface:
         self.log.update_directory(new)
         # Update the project metadata.
         self._update_metadata(str(old), str(new), new / '.eprem.conf')
+        self._attrs = self._restore_project(new)
+        self._name = None
         # Echo success, if applicable.
         if not silent:
             if self.root.parent == old.parent == pathlib.Path.cwd():
-- 
2.43.0


From 13a2f9223a56b44c28e41fb9d3849cc1a4d9ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:03 +0000
Subject: [PATCH 056/131] fix: rename runs that are not in the log

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index cf5e859..37b0c76 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1010,7 +1010,8 @@ class Interface:
                 print(f"Nothing to rename for {source!r}")
             return
         for (run, new) in pairs.errors(force=(not errors), silent=silent):
-            self.log.mv(run, new)
+            if str(run) in self.log:
+                self.log.mv(run, new)
             if not silent:
                 branch = self._get_branch_name(run)
                 base = f"Renamed {source!r} to {target!r}"
-- 
2.43.0


From b057f3afe259e11089ffcd939b01ded26a0f33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:09 +0000
Subject: [PATCH 057/131] fix: keep the log if its new contents cannot be
 written

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 37b0c76..16e896a 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -237,8 +237,9 @@ class RunLog(collections.abc.Mapping):
             k: str(v) if isinstance(v, pathlib.Path) else v
             for k, v in contents.items()
         }
+        serialized = json.dumps(payload, indent=4, sort_keys=True)
         with self.path.open('w') as fp:
-            json.dump(payload, fp, indent=4, sort_keys=True)
+            fp.write(serialized)
 
     @property
     def name(self):
-- 
2.43.0


From df65fc5203521102fbd7202aad04de04bd212fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 058/131] fix: do not copy the whole log into entries loaded
 from a file

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 16e896a..61e6121 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -172,8 +172,8 @@ class RunLog(collections.abc.Mapping):
         return self
 
     def _read_from_file(self, source, filetype):
-        """Update the current contents from the `source` file."""
-        contents = self._asdict.copy()
+        """Read the contents of an entry from the `source` file."""
+        contents = {}
         loader = self._source_loader(filetype or pathlib.Path(source).suffix)
         with pathlib.Path(source).open('r') as fp:
             if loaded := loader(fp):
-- 
2.43.0


From cea52bf15499c97207e8adb513cac3a2b6ecae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:24 +0000
Subject: [PATCH 059/131] fix: compare projects by their attributes

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 61e6121..1fd6de9 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1100,7 +1100,7 @@ class Interface:
     def __eq__(self, other) -> bool:
         """True if two projects have the same initializing attributes."""
         if isinstance(other, Interface):
-            return self._attrs == other._attrs
+            return self._attrs.serial == other._attrs.serial
         return NotImplemented
 
     def __str__(self) -> str:
-- 
2.43.0


From 86a647505f7adf1ef5ce72c5279a640a54e2cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:30 +0000
Subject: [PATCH 060/131] fix: refuse runs outside of the project

---
 src/eprempy/project.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 1fd6de9..bff989d 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -496,6 +496,12 @@ class RunPaths(collections.abc.Collection):
         *names : string
             Zero or more names of runtime directories to create.
         """
+        for name in (*names, pattern or ''):
+            path = pathlib.Path(name)
+            if path.is_absolute() or '..' in path.parts:
+                raise paths.PathTypeError(
+                    f"Run {str(name)!r} is not within this project"
+                ) from None
         rundirs = self._get_rundirs(branches)
         if pattern:
             return [
-- 
2.43.0


From 706aa83bae7d3cf7d1b8c1ed59ea8b35649710a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 061/131] fix: find the runs of nested branches

---
 src/eprempy/project.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index bff989d..67736bf 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -566,7 +566,10 @@ class RunPaths(collections.abc.Collection):
             {branches} if isinstance(branches, str)
             else set(branches)
         )
-        return [d for d in self.listing if d.parent.name in subset]
+        return [
+            d for d in self.listing
+            if str(d.parent.relative_to(self.root)) in subset
+        ]
 
     @property
     def listing(self):
-- 
2.43.0


From 091da26d808c0ded68926656a741cbba7534217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:42 +0000
Subject: [PATCH 062/131] fix: run executables with spaces in their paths

---
 src/eprempy/project.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 67736bf..9339b8a 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -9,6 +9,7 @@ import datetime
 import json
 import os
 import pathlib
+import shlex
 import shutil
 import subprocess
 import sys
@@ -969,8 +970,9 @@ class Interface:
         eprem = paths.locate('eprem', branch, environment or {})
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
-            f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} {self._attrs.config}"
+            f"{shlex.quote(str(mpirun))} --mca btl_base_warn_component_unused 0 "
+            f"-n {nproc or 1} {shlex.quote(str(eprem))} "
+            f"{shlex.quote(self._attrs.config)}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From 5a2c9471681bc8fb8f7cc1ebbda806178198520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:01 +0000
Subject: [PATCH 063/131] fix: show the named runs of a project from the
 command line

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 9339b8a..7e18fbd 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1332,7 +1332,7 @@ showruns.add_argument(
         "display information about the named run"
         ";\nspecify multiple times to include multiple runs"
     ),
-    action='extend',
+    action='append',
 )
 showruns.add_argument(
     '-a',
-- 
2.43.0


From 9ccab6869ac5401e8a2dee169f12b25afc0e50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:08 +0000
Subject: [PATCH 064/131] fix: print each parameter once when comparing config
 files

---
 src/eprempy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 51783cb..950af90 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -141,7 +141,7 @@ def _build_arg_dict(
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-    built = {key: {} for key in keys}
+    built = {}
     for key in keys:
         heading = f"  {key} (default: {_format_arg_string(default[key])})  "
         current = _map_parameter(key, targets)
-- 
2.43.0


From 9a872e86155d3119f153ab877d16e1a61bb87cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 065/131] fix: compare config files to the defaults in the
 given source

---
 src/eprempy/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 950af90..7f7a170 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -130,14 +130,14 @@ def _build_arg_dict(
     names: bool=False,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = parameter.interface()
+    default = parameter.interface(srcdir=source)
     normalized = _normalize_paths(files)
     if names:
         mapped = normalized
     else:
         mapped = {k: str(i) for i, k in enumerate(normalized)}
     targets = {
-        relpath: parameter.interface(abspath)
+        relpath: parameter.interface(abspath, srcdir=source)
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-- 
2.43.0


From 69e46ff1a974d14204a7941a1936e8411f4bec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:46 +0000
Subject: [PATCH 066/131] fix: compare config files that do not differ

---
 src/eprempy/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 7f7a170..6600092 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -92,6 +92,9 @@ def compare_config_files(
     if not files:
         raise UserError("Nothing to compare") from None
     args = _build_arg_dict(files, source=source, diff=diff, names=names)
+    if not args:
+        print("No differences")
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
-- 
2.43.0


From 49fef485ddc09a23090f17c920ddb542e5cf5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:52 +0000
Subject: [PATCH 067/131] fix: show empty values when comparing config files

---
 src/eprempy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 6600092..c703d09 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -165,7 +165,7 @@ def _map_parameter(
     d = {}
     for name, interface in targets.items():
         userdef = parameter.configfile(interface.config)
-        if userdef.get(key):
+        if key in userdef:
             d[name] = _format_arg_string(interface.get(key))
         else:
             d[name] = '(default)'
-- 
2.43.0


From e13974613a375ac0eb739ca9eb07263d382cdeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 068/131] fix: write default values that can be read from the
 generated config file

---
 src/eprempy/cli.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index c703d09..2823293 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -6,6 +6,7 @@ import datetime
 import os
 import typing
 
+from . import container
 from . import etc
 from . import measured
 from . import parameter
@@ -53,15 +54,16 @@ def generate_config_file(
 ) -> None:
     """Create a configuration file with default parameter values."""
     default = parameter.interface(srcdir=source)
-    keys = sorted(parameter.ConfigurationC(source))
+    reference = parameter.ConfigurationC(source)
     header = [
         f"# EPREM default configuration file\n",
         f"# Generated at {_timestr}\n",
         f"# --------------------------------\n",
     ]
     values = [
-        f"{key}={_get_arg_value(default[key])}\n"
-        for key in keys
+        f"{key}={_get_config_value(default[key], reference[key]['type'])}\n"
+        for key in sorted(reference)
+        if default[key] is not None
     ]
     footer = [
         f"# --------------------------------\n",
@@ -197,6 +199,14 @@ def _format_arg_string(arg):
     return str(arg)
 
 
+def _get_config_value(arg, realtype: type):
+    """Extract this argument's value in the format of a config file."""
+    value = _get_arg_value(arg)
+    if realtype is list:
+        return [float(v) for v in container.wrap(value)]
+    return value
+
+
 def _get_arg_value(arg):
     """Extract this argument's value, if necessary."""
     if isinstance(arg, measured.Object):
-- 
2.43.0


From d63b43b2971469382cef62353e2c9bce557558c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 069/131] fix: expand an ellipsis next to an array of indices

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index b20e143..f009587 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -685,7 +685,7 @@ def expand_ellipsis(ndim: int, *args: typing.SupportsIndex):
     # 2) a slice for every dimension represented by the ellipsis
     # 3) all arguments after the ellipsis
     nslice = ndim - nargs + 1
-    ellpos = args.index(Ellipsis)
+    ellpos = norm.index(Ellipsis)
     return (
         *args[slice(0, ellpos)],
         *([slice(None)] * nslice),
-- 
2.43.0


From 069d337752c19e0c5761f4ce1eb163674e65811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 070/131] fix: raise indices to the powers in a sequence

---
 src/eprempy/numeric/_index.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index f009587..0a495e6 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -227,12 +227,7 @@ def mod(a, b):
 @implements('pow')
 def pow(a, b, mod: int=None):
     """Compute a ** b."""
-    negative_exponent = False
-    try:
-        negative_exponent = b < 0
-    except ValueError:
-        negative_exponent = all(b < 0)
-    if negative_exponent:
+    if numpy.any(b < 0):
         raise ValueError(
             "Cannot raise index to a negative integral power"
         ) from None
-- 
2.43.0


From 3818b25eac7cf1665db4bf997faccd664363787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:41 +0000
Subject: [PATCH 071/131] fix: refuse to make an index value from more than one
 index

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 0a495e6..24495c9 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -477,7 +477,7 @@ def value_args(x, /):
     if index is not None:
         return index
     indices = _sequence_args(x)
-    if indices is not None:
+    if indices is not None and len(indices) == 1:
         return indices[0]
     raise TypeError(
         f"Cannot initialize {Value} from {x}, which has type {type(x)}"
-- 
2.43.0


From 5638f2561ec8bf1651a7ca92bae6c176face47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 072/131] fix: recognize a singular axis that an integral or
 symbolic axis contains

---
 src/eprempy/physical/_axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index e5397b7..2eec26c 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -82,7 +82,8 @@ class Axis(numeric.Object[T]):
         """Called for x in self."""
         if isinstance(__x, Axis) and len(__x) == 1:
             with contextlib.suppress(Exception):
-                return self.index(__x) in self.indices
+                self.index(*__x)
+                return True
         return __x in self.data
 
     def __getitem__(self, __i):
-- 
2.43.0


From 47f55747fcb4afec682a8237907b893a95352e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:13 +0000
Subject: [PATCH 073/131] fix: find points in an axis created from a range or
 list

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 2eec26c..ca4f3f8 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -175,7 +175,7 @@ class Points(Axis[numpy.typing.NDArray[numpy.uint]]):
     """The interface to an integral axis."""
 
     def __init__(self, data: numpy.typing.NDArray[numpy.uint]) -> None:
-        super().__init__(data)
+        super().__init__(numpy.array(data, ndmin=1))
 
     def index(self, *targets: T):
         if not targets:
-- 
2.43.0


From 52e1d2c04c5c00cd64b523c861d8eedcf4187f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:35 +0000
Subject: [PATCH 074/131] fix: find a value that rounding has put beyond the
 ends of the data

---
 src/eprempy/numeric/_data.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index 7015080..eddd84e 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -50,8 +50,6 @@ def isclose(a: Object, b: numbers.Real) -> bool:
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
         return True
-    if b < numpy.min(data) or b > numpy.max(data):
-        return False
     return numpy.any([numpy.isclose(b, data, atol=0.0)])
 
 
-- 
2.43.0


From 71b871b0d8a5f874b5171864674293a13efe6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:07 +0000
Subject: [PATCH 075/131] fix: let any wrapped object be shown as a string

---
 src/eprempy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index b6eb1ee..bd0593a 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -227,7 +227,7 @@ class Wrapper(collections.abc.Collection, typing.Generic[T]):
 
     def __str__(self) -> str:
         """A simplified representation of this object."""
-        return self._arg
+        return str(self._arg)
 
 
 def isseparable(x, /):
-- 
2.43.0


From 277b593a1f0e4888dbe84afd2aa1b677a15515e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 076/131] fix: do not call a table look-up ambiguous when one
 entry matches

---
 src/eprempy/container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index bd0593a..5e14d49 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -661,11 +661,10 @@ class Table(collections.abc.Mapping):
                 if entry[key] == value
             ]
             if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
                 if len(subset) == 1:
                     return subset[0]
+                if len(subset) > 1 and len(request) == n_checked:
+                    raise AmbiguousRequestError(request)
         if strict and len(subset) == 1:
             return subset[0]
         raise TableLookupError(request)
-- 
2.43.0


From 6261c65050a1a77ae7abbf56aeffb60d8d2a3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:21 +0000
Subject: [PATCH 077/131] fix: do not register an object under the name of
 another

---
 src/eprempy/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 5e14d49..ece36d6 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -959,9 +959,11 @@ class ObjectRegistry(collections.abc.Mapping, typing.Mapping[_KT, _VT]):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
-                return new_default_key
+                while True:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
+                    if new_default_key not in self._items:
+                        return new_default_key
 
     def reset(self) -> None:
         """Reset the internal mapping to its initial state."""
-- 
2.43.0


From 10ce20b49fead05fcc2ab011c3b33b5b37cb5ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:27 +0000
Subject: [PATCH 078/131] fix: resolve slices of an axis as Python slices its
 values

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index ca4f3f8..65b814d 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -62,7 +62,7 @@ class Axis(numeric.Object[T]):
         if len(targets) == 1:
             target = targets[0]
             if isinstance(target, slice):
-                return container.slice2range(target, stop=len(self))
+                return range(len(self))[target]
             if isinstance(target, (list, tuple, numpy.ndarray)):
                 return target
             if container.isiterable(target):
-- 
2.43.0


From 6d8cc6184f23ad44d46b49cb26214d91aa509dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 079/131] fix: repeat a singular axis when meshing arrays

---
 src/eprempy/numeric/_array.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 0a44dd7..3d17785 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -799,8 +799,15 @@ def remesh(a: Array, b: Array):
         for d in dimensions
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
-    idxa = tuple(idxmesh[dimensions.index(d)] for d in a.shapemap)
-    idxb = tuple(idxmesh[dimensions.index(d)] for d in b.shapemap)
+    # NOTE: Limiting the indices repeats the value of a singular axis.
+    idxa = tuple(
+        numpy.minimum(idxmesh[dimensions.index(d)], n-1)
+        for d, n in a.shapemap.items()
+    )
+    idxb = tuple(
+        numpy.minimum(idxmesh[dimensions.index(d)], n-1)
+        for d, n in b.shapemap.items()
+    )
     x = numpy.array(a, ndmin=ndim) if a.size == 1 else a._load_array(idxa)
     y = numpy.array(b, ndmin=ndim) if b.size == 1 else b._load_array(idxb)
     return x, y
-- 
2.43.0


From fe6af2638e94e7a5faaf3fd5277288654190a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 080/131] fix: give a transposed array an instance of
 Dimensions

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 3d17785..993a104 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -515,7 +515,7 @@ class Array(Quantity[DataType], Operators):
         self.dimensions.mismatch(args)
         axes = [self.dimensions.index(arg) for arg in args]
         data = self.array.transpose(axes)
-        return self.spawn(data, dimensions=args)
+        return self.spawn(data, dimensions=dimensions_factory(args))
 
     @property
     def size(self) -> int:
-- 
2.43.0


From fc80c2b7eaaab3e1d4268c866856e328e3e958f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 081/131] fix: transpose a one-dimensional array by index

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 993a104..39c2b74 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -504,7 +504,7 @@ class Array(Quantity[DataType], Operators):
             return self._transpose(args)
         if len(args) == 1:
             arg = args[0]
-            if etc.allisinstance(str, *arg):
+            if container.isiterable(arg) and etc.allisinstance(str, *arg):
                 return self._transpose(arg)
         data = self.array.transpose(*args)
         new = self.dimensions.permute(*args)
-- 
2.43.0


From b8f79600eb4f60f3cb0a998fbc558599a78609d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 082/131] fix: refuse to permute to dimensions that only
 overlap

---
 src/eprempy/numeric/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 39c2b74..6fd74be 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -249,6 +249,8 @@ class Dimensions(collections.abc.Sequence):
             raise ValueError(
                 f"Original dimensions do not include {dims}"
             ) from None
+        if a != b:
+            raise ValueError("Different dimensions") from None
 
     def __hash__(self):
         """Support use as a mapping key."""
-- 
2.43.0


From 6c1d9d1b7f0494741a4872a4c357659ca19bb964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:38 +0000
Subject: [PATCH 083/131] fix: do not exhaust an iterator of dimensions

---
 src/eprempy/numeric/_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 6fd74be..614db4a 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -175,8 +175,9 @@ class Dimensions(collections.abc.Sequence):
             iter(arg)
         except TypeError:
             raise DimensionTypeError(arg)
-        if all(isinstance(i, str) for i in arg):
-            return list(arg)
+        names = list(arg)
+        if all(isinstance(i, str) for i in names):
+            return names
         raise DimensionTypeError(arg)
 
     def copy(self):
-- 
2.43.0


From c31f16dd26ba3664157785299de5085ab3497bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:52 +0000
Subject: [PATCH 084/131] fix: look for close values in an array

---
 src/eprempy/numeric/_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index eddd84e..b2307cc 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -45,7 +45,7 @@ def isclose(a: Object, b: numbers.Real) -> bool:
       standard containment via `in` before attempting to determine if `b` is
       close enough, within a very strict tolerance, to any member of `a`.
     """
-    data = a.data
+    data = a.data if hasattr(a, 'data') else numpy.asarray(a)
     if not container.isiterable(data):
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
-- 
2.43.0


From 9f3559382a6fae0e5fed398698f876eeb4075f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:58 +0000
Subject: [PATCH 085/131] fix: refuse to combine index sequences of different
 lengths

---
 src/eprempy/numeric/_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 24495c9..7f6f878 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -315,6 +315,10 @@ def arithmetic(f, a, b, **kwargs):
 def binary(f, a, b, **kwargs):
     """Compute f(a, b, **kwargs) on numeric data."""
     if isinstance(a, Sequence) and isinstance(b, Sequence):
+        if len(a) != len(b):
+            raise ValueError(
+                f"Index sequences have different lengths: {len(a)}, {len(b)}"
+            ) from None
         return [f(x, y, **kwargs) for (x, y) in zip(a.data, b.data)]
     if isinstance(a, Sequence):
         if isinstance(b, Value):
-- 
2.43.0


From ef62d86a48264bf5798548d870cdbbb4e4f4d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 086/131] fix: accept arrays of any integral type as indices

---
 src/eprempy/numeric/_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 7f6f878..7111334 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -503,7 +503,7 @@ def sequence_args(x, /):
 
 def _value_args(x, /):
     """Helper for `index_args`."""
-    if isinstance(x, numpy.ndarray) and x.dtype == int:
+    if isinstance(x, numpy.ndarray) and numpy.issubdtype(x.dtype, numpy.integer):
         if x.size == 1:
             v = x[0] if x.ndim == 1 else x
             return int(v)
@@ -537,7 +537,7 @@ def _sequence_args(x, /):
                 return [int(i) for i in x]
         if all(isinstance(i, (numbers.Integral, numpy.integer)) for i in x):
             return x
-    if isinstance(x, numpy.ndarray) and x.dtype == int:
+    if isinstance(x, numpy.ndarray) and numpy.issubdtype(x.dtype, numpy.integer):
         if x.size == 1:
             v = x[0] if x.ndim == 1 else x
             return numpy.array(int(v), ndmin=1)
-- 
2.43.0


From 66b21b9472839f348f97ebf0839705b127c57adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:11 +0000
Subject: [PATCH 087/131] fix: drop the dimensions of the axes that squeeze
 removes

---
 src/eprempy/real/_array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ec075d2..31c2872 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -281,7 +281,12 @@ def squeeze(x: Array[ValueType], **kwargs):
     data = numpy.squeeze(x.array, **kwargs)
     if data.ndim == 0:
         return float(data)
-    dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    axis = kwargs.get('axis')
+    if axis is None:
+        dimensions = [d for d, n in x.shapemap.items() if n != 1]
+        return array_factory(data, dimensions=dimensions)
+    axes = [i % x.ndim for i in (axis if isinstance(axis, tuple) else [axis])]
+    dimensions = [d for i, d in enumerate(x.dimensions) if i not in axes]
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From b27f88ad9f109a394abe96dc015a65f51d888824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:08 +0000
Subject: [PATCH 088/131] fix: subscript an array by fewer indices than it has
 dimensions

---
 src/eprempy/numeric/_array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 614db4a..2fb44da 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -391,6 +391,7 @@ class Array(Quantity[DataType], Operators):
                     self._get_axis_size(i, v)
                     for i, v in enumerate(indices)
                 ]
+                shape.extend(self.shape[len(shape):])
                 return array.reshape(shape)
         return array
 
-- 
2.43.0


From 107d658ceb011cc29ac7dd553883d5b019cd8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:17 +0000
Subject: [PATCH 089/131] fix: keep the axes of a physical array which are not
 subscripted

---
 src/eprempy/physical/_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 492ba01..ae91923 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -68,7 +68,8 @@ class Array(Tensor[real.Array[real.ValueType]]):
     def __getitem__(self, args, /):
         idx = numeric.index.expand(self.ndim, args)
         data = self.data[idx]
-        axes = {k: v[i] for i, (k, v) in zip(idx, self.axes.items())}
+        axes = dict(self.axes)
+        axes.update({k: v[i] for i, (k, v) in zip(idx, self.axes.items())})
         return self.spawn(data, unit=self.unit, axes=axes)
 
     @typing.overload
-- 
2.43.0


From c042cfa2ffb12214e9b640b1fa7c7618b0359fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:26 +0000
Subject: [PATCH 090/131] fix: expand an array of indices

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 7111334..22e69c1 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -642,7 +642,7 @@ def expand(ndim: int, indices):
     """Expand `indices` so that they will index `ndim` dimensions."""
     if isinstance(indices, (list, tuple)):
         return expand_ellipsis(ndim, *indices)
-    if indices == slice(None):
+    if isinstance(indices, slice) and indices == slice(None):
         return expand_ellipsis(ndim, ...)
     if isinstance(indices, type(...)):
         return expand_ellipsis(ndim, indices)
-- 
2.43.0


From eac7384a5f5597e441cbe31f10636c6dbd044a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 091/131] fix: restrict indices along the first axis of a
 two-dimensional array

---
 src/eprempy/numeric/_index.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 22e69c1..c9f92d8 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -744,6 +744,7 @@ def _compute_bounds(
     This function is a helper for `~restrict`.
     """
     bounds = _get_index_bounds(array, target, axis=axis)
+    bounds = numpy.moveaxis(bounds, int(axis), -1)
     if bounds.ndim == 1:
         size = bounds.size
         if size != 2:
-- 
2.43.0


From 183815d13c4a8d499fa2cb0d3efac020d566ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 092/131] fix: subscript an axis by an array of indices

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 65b814d..550d678 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -98,7 +98,7 @@ class Axis(numeric.Object[T]):
         original reference array.
         """
         axis = self.spawn(self.data[__i])
-        if __i in (slice(None), ...):
+        if isinstance(__i, (slice, type(...))) and __i in (slice(None), ...):
             return axis
         idx = self.normalize(container.unwrap(__i))
         axis._indices = numeric.index.sequence(idx)
-- 
2.43.0


From 394f5a05c1108889a6844cc004953ddaa827fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:15 +0000
Subject: [PATCH 093/131] fix: Read every digit of a symbolic denominator

---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bd503c2..7f210b0 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -128,7 +128,7 @@ class OperandFactory(_part.Factory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -649,7 +649,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 3333dfeb8370ee85b098efc571eff58dd8704cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:29 +0000
Subject: [PATCH 094/131] fix: Keep symbolic coefficients and exponents of zero

---
 src/eprempy/symbolic/_operand.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 7f210b0..9cdbcc7 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -68,11 +68,15 @@ class Operand(_part.Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(
+            1 if exponent is None else exponent
+        )
         """The numerical exponent."""
 
     @property
@@ -580,13 +584,14 @@ class OperandFactory(_part.Factory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
-            for key, attr in updatable.items()
+            key: attr['callable'](
+                default[key] if given.get(key) in (None, '') else given[key]
+            ) for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -596,7 +601,7 @@ class OperandFactory(_part.Factory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From b8ec3ba91b293a1bb60cc7fa775ff57daa05650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 095/131] fix: Allow raising a symbolic expression to the power
 of zero

---
 src/eprempy/symbolic/_expression.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 9a08891..0fe11cf 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -218,8 +218,6 @@ class Expression(collections.abc.Sequence):
         base. It will first attempt to convert `exp` to a float.
         """
         exp = float(exp)
-        if not exp:
-            return NotImplemented
         terms = [pow(term, exp) for term in self]
         return expression_factory(reduce(terms))
 
-- 
2.43.0


From 00a8954b31fbe6673c1ebc0eb406c695ea93e1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 096/131] fix: Keep constant symbolic terms exact

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 9cdbcc7..96c1b54 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -459,7 +459,7 @@ class OperandFactory(_part.Factory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return _part.Match(
-            result=term_factory(coefficient=float(coefficient)),
+            result=term_factory(coefficient=coefficient),
             context=match,
         )
 
-- 
2.43.0


From 020a5c2e3840a3efd07664ddb69759c03170a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:21 +0000
Subject: [PATCH 097/131] fix: Compare variable terms to numbers without an
 error

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 96c1b54..bc3553f 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -773,7 +773,7 @@ class Term(Operand):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, numbers.Real):
-            return float(self) == float(other)
+            return self.base == '1' and float(self) == float(other)
         if isinstance(other, str):
             term = OperandFactory().create(other)
             return super().__eq__(term)
-- 
2.43.0


From fcefdf75bf3edfdb872d34fc624f873880c2fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:38 +0000
Subject: [PATCH 098/131] fix: Refuse negative term indices that are out of
 range

---
 src/eprempy/symbolic/_expression.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 0fe11cf..6a42f42 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -44,12 +44,7 @@ class Expression(collections.abc.Sequence):
     def __getitem__(self, index):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
-            idx = int(index)
-            if idx > len(self):
-                raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
-            return self.terms[idx]
+            return self.terms[int(index)]
         if isinstance(index, slice):
             return self.terms[index]
         raise IndexError(
-- 
2.43.0


From 19355fafb9e8af1074cd272ab4d7ac652fbe146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:14 +0000
Subject: [PATCH 099/131] fix: equal groups of aliases have equal hashes

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 3e62fc1..071212e 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 96ba936418c8c1cf93650d8d379998c34e402ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:20 +0000
Subject: [PATCH 100/131] fix: reflected set operations treat a string as a
 single alias

---
 src/eprempy/aliased.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 071212e..55b1890 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -76,6 +76,9 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
     __sub__ = _implement(collections.abc.Set.__sub__)
     __rsub__ = _implement(collections.abc.Set.__rsub__)
     __xor__ = _implement(collections.abc.Set.__xor__)
+    __rand__ = __and__
+    __ror__ = __or__
+    __rxor__ = __xor__
 
     def __str__(self) -> str:
         """A simplified representation of this instance."""
-- 
2.43.0


From 8c47d8becd27e9c1e865394e3a22fd839fe37d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:25 +0000
Subject: [PATCH 101/131] fix: adding a string to groups of aliases adds a
 single alias

---
 src/eprempy/aliased.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 55b1890..96d9598 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -174,12 +174,13 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
 
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        group = Group(__x)
+        for i in group:
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
                 ) from None
-        self._groups.append(Group(__x))
+        self._groups.append(group)
 
     def discard(self, __x: _KT) -> None:
         """Remove the group containing `__x`."""
-- 
2.43.0


From b45f15693f38fb4cc9ce480fe4a834be342883e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:32 +0000
Subject: [PATCH 102/131] fix: a collection of unique groups does not repeat a
 group

---
 src/eprempy/aliased.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 96d9598..61a4266 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -113,7 +113,11 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         keys
             Zero or more groups of associated objects.
         """
-        self._groups = [Group(key) for key in keys]
+        self._groups = []
+        for key in keys:
+            group = Group(key)
+            if group not in self._groups:
+                self._groups.append(group)
 
     @classmethod
     def _from_iterable(cls, it):
-- 
2.43.0


From 0e36c8110e29b97b1a2b00ef61441ef056e82f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 103/131] fix: merging groups of aliases joins every group that
 shares an alias

---
 src/eprempy/aliased.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 61a4266..0789de6 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -163,19 +163,13 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [g for g in these if not g.isdisjoint(merged)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.get(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
         group = Group(__x)
-- 
2.43.0


From f9d5562d50db1135344366e388722aa11a2a48ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:46 +0000
Subject: [PATCH 104/131] fix: groups of aliases that are not strings can be
 looked up

---
 src/eprempy/aliased.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 0789de6..765fd18 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -187,15 +187,9 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
 
     def __getitem__(self, __x: _KT):
         """Get the group containing `__x`."""
-        s = str(__x)
-        m = Group(__x)
-        alias = (k for k in self._groups if s in k or m == k)
-        try:
-            found = next(alias)
-        except StopIteration as err:
-            raise KeyError(
-                f"No group containing {__x!r}"
-            ) from err
+        found = self.get(__x)
+        if found is None:
+            raise KeyError(f"No group containing {__x!r}") from None
         return found
 
     DefaultType = typing.TypeVar('DefaultType')
@@ -210,9 +204,9 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         If it finds a match, it will immediately return that group (i.e.,
         without checking other keys). If not, it will return `default`.
         """
-        s = str(__x)
         m = Group(__x)
-        alias = (k for k in self._groups if s in k or m == k)
+        h = isinstance(__x, typing.Hashable)
+        alias = (k for k in self._groups if (h and __x in k) or m == k)
         return next(alias, default)
 
     def without(self, *keys: typing.Union[_KT, Group[_KT]]):
-- 
2.43.0


From 9e00ea347c983aac8350679ed20bdc0c97eed6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:54 +0000
Subject: [PATCH 105/131] fix: aliased mappings accept values that declare no
 aliases

---
 src/eprempy/aliased.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 765fd18..907dda7 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -267,6 +267,7 @@ def keysfrom(
         ]
     return [
         Group(k) | Group(v.get(aliases, ()))
+        if isinstance(v, typing.Mapping) else Group(k)
         for k, v in mapping.items()
     ]
 
@@ -359,6 +360,7 @@ def _build_from_key(
     keys = keysfrom(mapping, aliases=aliases)
     values = [
         {k: v for k, v in group.items() if k != aliases}
+        if isinstance(group, typing.Mapping) else group
         for group in mapping.values()
     ] if aliases and isinstance(aliases, str) else mapping.values()
     return dict(zip(keys, values))
-- 
2.43.0


From 5f8610d4166d18e6cb34249aab8c491ba82e93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:02 +0000
Subject: [PATCH 106/131] fix: keys of an aliased mapping that share an alias
 are merged

---
 src/eprempy/aliased.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 907dda7..df8a71b 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -302,10 +302,11 @@ def _build_from_aliases(
     """Build a `dict` that maps aliased keys to user values."""
     out = {}
     for key, value in mapping.items():
-        try:
-            aliased_key = next(k for k in out if key in k)
-        except StopIteration:
-            aliased_key = Group(key)
+        aliased_key = Group(key)
+        for k in [k for k in out if any(i in k for i in aliased_key)]:
+            aliased_key = k | aliased_key
+            if k != aliased_key:
+                del out[k]
         out[aliased_key] = value
     return out
 
-- 
2.43.0


From 07e4ff67c28a84aa1c00d7bf0f01fa9e5b0fd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 107/131] fix: squeezing an aliased mapping without interior
 mappings has no effect

---
 src/eprempy/aliased.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index df8a71b..8b40184 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -684,7 +684,10 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
             interior mappings with different keys.
         """
         interior = tuple(self.as_dict.values())
-        if all(len(mapping) == 1 for mapping in interior):
+        if interior and all(
+            isinstance(mapping, typing.Mapping) and len(mapping) == 1
+            for mapping in interior
+        ):
             if strict:
                 errmsg = (
                     "Can't squeeze interior mappings with different keys"
-- 
2.43.0


From fcfae9d292067feaba4e943a1c43b744e51e67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 108/131] fix: copies of aliased mappings keep values that
 contain aliases

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 8b40184..5d055a3 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -823,7 +823,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def copy(self):
         """Create a shallow copy of this instance."""
-        return type(self)(self.as_dict)
+        return type(self)(self)
 
 
 class MutableMapping(Mapping, collections.abc.MutableMapping):
-- 
2.43.0


From 6c2f0376ee292310721882c28b40e380e4489d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 109/131] fix: freezing or copying a mutable mapping keeps its
 aliases and its groups

---
 src/eprempy/aliased.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 5d055a3..137624a 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -1006,7 +1006,13 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         if not groups:
             return Mapping(self)
         grouped = {k: self[k] for k in self._groups}
-        return Mapping({**self, **grouped})
+        return Mapping(self) | grouped
+
+    def copy(self):
+        """Create a shallow copy of this instance."""
+        new = super().copy()
+        new._groups = self._groups.copy()
+        return new
 
 
 class NameMap(collections.abc.Mapping):
-- 
2.43.0


From b5373253410d4f15080f04a6445936389b4bd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:34 +0000
Subject: [PATCH 110/131] fix: name maps read iterators of names or definitions
 only once

---
 src/eprempy/aliased.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 137624a..e1dfb5d 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -1042,9 +1042,11 @@ class NameMap(collections.abc.Mapping):
         refs: AliasReferences=None,
         key: str='aliases',
     ) -> None:
-        names = self._get_names(defs, refs)
+        names = tuple(self._get_names(defs, refs))
+        if not isinstance(defs, typing.Mapping):
+            defs = tuple(defs)
         self._mapping = self._build_mapping(names, defs, key)
-        self._init = {'refs': refs, 'defs': defs, 'key': key}
+        self._init = {'refs': names, 'defs': defs, 'key': key}
 
     def __len__(self):
         """Called for len(self)."""
-- 
2.43.0


From 168419dd980b5dc549a2543b8325685a7b791e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:41 +0000
Subject: [PATCH 111/131] fix: name maps ignore definitions of names that are
 not references

---
 src/eprempy/aliased.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index e1dfb5d..7713a54 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -1116,6 +1116,7 @@ class NameMap(collections.abc.Mapping):
                 if isinstance(v, typing.Mapping)
                 else self._remove(k, v)
                 for k, v in these.items()
+                if k in names
             }
         # Alias definitions are in a non-mapping iterable. We may want to
         # further check that each member of `aliases` is itself an iterable of
-- 
2.43.0


From 738751d11d3ad15987a983d75d8d7bbff5b1ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:43 +0000
Subject: [PATCH 112/131] fix: parsing numeric strings distributes the unit on
 request

---
 src/eprempy/quantity/_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 1e007fd..6a11384 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -224,16 +224,16 @@ def parse(x, /, distribute: bool=False):
         # First, check for a single numeric string.
         if isinstance(unwrapped, str):
             with contextlib.suppress(ValueError):
-                return parse([float(unwrapped)])
+                return parse([float(unwrapped)], distribute=distribute)
         # Next, check for all numeric strings.
         with contextlib.suppress(ValueError):
-            return parse([float(arg) for arg in unwrapped])
+            return parse([float(arg) for arg in unwrapped], distribute=distribute)
         # Finally, check for numeric strings with a final unit.
         try:
             values = [float(arg) for arg in unwrapped[:-1]]
         except ValueError as err:
             raise ParsingValueError(errmsg) from err
-        return parse([*values, unwrapped[-1]])
+        return parse([*values, unwrapped[-1]], distribute=distribute)
 
     # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
     if all(isinstance(arg, numbers.Real) for arg in unwrapped):
-- 
2.43.0


From 215a660673827d3947ba3d15f6b6116c7526c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:54 +0000
Subject: [PATCH 113/131] fix: parsing refuses more than one collection of
 values before a unit

---
 src/eprempy/quantity/_functions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 6a11384..75228f2 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -70,7 +70,10 @@ def ismeasurable(x, /):
         return True
     if metric.unitlike(args[-1]):
         arg0 = args[0]
-        values = arg0 if container.isiterable(arg0) else args[:-1]
+        if len(args) == 2 and container.isiterable(arg0):
+            values = arg0
+        else:
+            values = args[:-1]
         if all(isinstance(value, numbers.Real) for value in values):
             return True
     if all(isinstance(i, (list, tuple)) and ismeasurable(i) for i in args):
@@ -257,7 +260,10 @@ def parse(x, /, distribute: bool=False):
             return _wrap_measurable(unwrapped[:-1], unit, distribute)
 
         # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-        if isinstance(unwrapped[0], (list, tuple, range)):
+        if (
+            len(unwrapped) == 2
+            and isinstance(unwrapped[0], (list, tuple, range))
+        ):
             return _wrap_measurable(unwrapped[0], unit, distribute)
 
     raise ParsingTypeError(x)
-- 
2.43.0


From 70e78842cdaf1684c9c98e197bb2a8cd7cf80872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:02 +0000
Subject: [PATCH 114/131] fix: parsing accepts numeric strings with an explicit
 unit object

---
 src/eprempy/quantity/_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 75228f2..104eda1 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -223,18 +223,18 @@ def parse(x, /, distribute: bool=False):
         # If the input contains more than one instance of the `Unit` class,
         # there is nothing we can do to salvage it.
         raise ParsingValueError(errmsg) from None
-    if counted[str] > 1:
+    if counted[str] + counted[metric.Unit] > 1:
         # First, check for a single numeric string.
         if isinstance(unwrapped, str):
             with contextlib.suppress(ValueError):
                 return parse([float(unwrapped)], distribute=distribute)
         # Next, check for all numeric strings.
-        with contextlib.suppress(ValueError):
+        with contextlib.suppress(ValueError, TypeError):
             return parse([float(arg) for arg in unwrapped], distribute=distribute)
         # Finally, check for numeric strings with a final unit.
         try:
             values = [float(arg) for arg in unwrapped[:-1]]
-        except ValueError as err:
+        except (ValueError, TypeError) as err:
             raise ParsingValueError(errmsg) from err
         return parse([*values, unwrapped[-1]], distribute=distribute)
 
-- 
2.43.0


From 96bc251516d8548a3d0f44779edba073d2c5816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:12 +0000
Subject: [PATCH 115/131] fix: parsing treats one numeric string among numbers
 as a number

---
 src/eprempy/quantity/_functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 104eda1..78bf119 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -238,6 +238,12 @@ def parse(x, /, distribute: bool=False):
             raise ParsingValueError(errmsg) from err
         return parse([*values, unwrapped[-1]], distribute=distribute)
 
+    # Check for a single numeric string among numbers.
+    final = unwrapped[-1]
+    if counted[str] == 1 and not (isinstance(final, str) and final == '1'):
+        with contextlib.suppress(ValueError, TypeError):
+            return parse([float(arg) for arg in unwrapped], distribute=distribute)
+
     # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
     if all(isinstance(arg, numbers.Real) for arg in unwrapped):
         return _wrap_measurable(unwrapped, '1', distribute)
-- 
2.43.0


From b69f5f18d2ef447c02b7e88098b5e412a32ac0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 116/131] fix: mappings are not measurable

---
 src/eprempy/quantity/_functions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 78bf119..a984e41 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -64,7 +64,7 @@ def ismeasurable(x, /):
         return True
     if isinstance(args, numbers.Real):
         return True
-    if not container.isseparable(args):
+    if not container.isseparable(args) or isinstance(args, typing.Mapping):
         return False
     if all(isinstance(arg, numbers.Real) for arg in args):
         return True
@@ -209,6 +209,12 @@ def parse(x, /, distribute: bool=False):
             f"Cannot measure non-iterable input: {unwrapped!r}"
         ) from err
 
+    # Raise a type-based exception if input is a mapping.
+    if isinstance(unwrapped, typing.Mapping):
+        raise ParsingTypeError(
+            f"Cannot measure mapping: {unwrapped!r}"
+        ) from None
+
     # Recursively parse nested parsable objects.
     if all(isinstance(arg, (list, tuple)) for arg in unwrapped):
         return _recursive_parse(unwrapped, distribute)
-- 
2.43.0


From cbe9e9ec58645a6dee685b6c1aa714cb8ef4bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:32 +0000
Subject: [PATCH 117/131] fix: parsing accepts an array of values with a unit

---
 src/eprempy/quantity/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index a984e41..6ddf602 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -274,7 +274,7 @@ def parse(x, /, distribute: bool=False):
         # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
         if (
             len(unwrapped) == 2
-            and isinstance(unwrapped[0], (list, tuple, range))
+            and isinstance(unwrapped[0], (list, tuple, range, numpy.ndarray))
         ):
             return _wrap_measurable(unwrapped[0], unit, distribute)
 
-- 
2.43.0


From 784a27ec49fded55e81c02157355d5cfa3267781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:24 +0000
Subject: [PATCH 118/131] fix: give a new view of a data file that was replaced

---
 src/eprempy/paths.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 55b8135..6a053e2 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -63,13 +63,23 @@ def locate(
     return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
+def _file_version(path: PathLike):
+    """Get properties that distinguish the current file from later versions."""
+    try:
+        state = pathlib.Path(path).stat()
+    except OSError:
+        return None
+    return state.st_ino, state.st_size, state.st_mtime_ns
+
+
 class PathSet(etc.InstanceSet):
     """A metaclass for sets of path-based objects.
 
     Using this class as the metaclass for a class that manages path-based
     objects (e.g., datasets) will ensure that only one instance of the object
     exists. This may be useful when multiple other objects need to access an
-    instance of the class given a common path.
+    instance of the class given a common path. Replacing or modifying the file
+    at a given path will lead to a new instance.
 
     See https://refactoring.guru/design-patterns/singleton/python/example
     """
@@ -81,7 +91,7 @@ class PathSet(etc.InstanceSet):
         if path is None and len(args) >= 1:
             path = args[0]
         if isinstance(path, (str, pathlib.Path)):
-            return path
+            return path, _file_version(path)
         return super()._generate_key(*args, **kwargs)
 
 
-- 
2.43.0


From 353db62cba12651f3fc4b6398ef885d68393fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:31 +0000
Subject: [PATCH 119/131] fix: tell views of one data file with different hints
 apart

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 6a053e2..3dc105b 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -91,7 +91,7 @@ class PathSet(etc.InstanceSet):
         if path is None and len(args) >= 1:
             path = args[0]
         if isinstance(path, (str, pathlib.Path)):
-            return path, _file_version(path)
+            return path, args[1:], tuple(sorted(kwargs.items())), _file_version(path)
         return super()._generate_key(*args, **kwargs)
 
 
-- 
2.43.0


From 6228fb07a66e0b29b0b38a633e64fcf55d5fdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:25 +0000
Subject: [PATCH 120/131] fix: create one sentinel for each name and value

---
 src/eprempy/etc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 7b46755..14ef58a 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -402,12 +402,13 @@ class _SentinelType(typing.Generic[T]):
     @classmethod
     def _create(cls, name: str, value: T):
         """Pseudo-private instantiation method."""
-        if value in _sentinels:
-            return _sentinels[value]
+        existing = _sentinels.get((name, type(value)))
+        if existing is not None and existing._value == value:
+            return existing
         instance = cls.__new__(cls)
         instance._name = name
         instance._value = value
-        _sentinels[name] = instance
+        _sentinels[name, type(value)] = instance
         return instance
 
     @_sentinel_init
-- 
2.43.0


From 05e37fdadc930e96517ba4bb98c8a1a87914eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:32 +0000
Subject: [PATCH 121/131] fix: join an empty iterable of strings

---
 src/eprempy/etc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 14ef58a..3a3effe 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -517,6 +517,8 @@ def join(x: typing.Iterable[str], c: str='and', /, quoted: bool=False):
     """
     f = repr if quoted else str
     y = list(x)
+    if not y:
+        return ''
     if len(y) == 1:
         return f(y[0])
     if len(y) == 2:
-- 
2.43.0


From 09a13d497ab2dffa92d1eb46a2a39c7abf5d7176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:40 +0000
Subject: [PATCH 122/131] fix: accept a prefix or suffix for numpy-style
 strings

---
 src/eprempy/etc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 3a3effe..06ce2e3 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -209,6 +209,8 @@ def autostr(_obj: typing.Type[T]=None, style: str='default', **kwargs):
 
 def _autostr_numpy(obj, **kwargs):
     """Helper for `~etc.autostr` in 'numpy' mode."""
+    prefix = kwargs.pop('prefix', f"{obj.__name__}(")
+    suffix = kwargs.pop('suffix', ")")
     options = {
         'threshold': kwargs.pop('threshold', 4),
         'edgeitems': kwargs.pop('edgeitems', 2),
@@ -219,8 +221,6 @@ def _autostr_numpy(obj, **kwargs):
     options.update(kwargs)
     def _str(self: T) -> str:
         return numpy.array2string(numpy.array(self), **options)
-    prefix = kwargs.pop('prefix', f"{obj.__name__}(")
-    suffix = kwargs.pop('suffix', ")")
     def _repr(self: T) -> str:
         content = numpy.array2string(
             numpy.array(self),
-- 
2.43.0


From d13dd9bc5040565456c3c043bbc8b49d62c89aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:48 +0000
Subject: [PATCH 123/131] fix: substitute values for subclasses of registered
 exceptions

---
 src/eprempy/exceptions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/exceptions.py b/src/eprempy/exceptions.py
index d64d09c..2e6be10 100644
--- a/src/eprempy/exceptions.py
+++ b/src/eprempy/exceptions.py
@@ -125,7 +125,7 @@ class Wrapper:
         try:
             return self._f(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
+            value = self._get_substitution(err)
             if value != Ellipsis:
                 return value
             if not kwargs:
@@ -136,6 +136,12 @@ class Wrapper:
                 return kwargs
             return args, kwargs
 
+    def _get_substitution(self, err: Exception):
+        """Get the value registered for the nearest type of `err`."""
+        for this in type(err).__mro__:
+            if this in self._substitutions:
+                return self._substitutions[this]
+
 
 @typing.overload
 def convert(expected, replacement, /):
-- 
2.43.0


From fa80847527c4afdd267c8025421350fd8cdbcd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:54 +0000
Subject: [PATCH 124/131] fix: substitute arrays for exceptions

---
 src/eprempy/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/exceptions.py b/src/eprempy/exceptions.py
index 2e6be10..f5c47a8 100644
--- a/src/eprempy/exceptions.py
+++ b/src/eprempy/exceptions.py
@@ -126,7 +126,7 @@ class Wrapper:
             return self._f(*args, **kwargs)
         except tuple(self._substitutions) as err:
             value = self._get_substitution(err)
-            if value != Ellipsis:
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From 8174909f6aad2e5f21bbb0aa0c2c9006884be860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:02 +0000
Subject: [PATCH 125/131] fix: give empty help text for objects without a
 docstring

---
 src/eprempy/etc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 06ce2e3..2237fa2 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -65,7 +65,7 @@ def doc2help(
         ``str.replace``).
     """
     try:
-        target = obj if isinstance(obj, str) else str(obj.__doc__)
+        target = obj if isinstance(obj, str) else str(obj.__doc__ or '')
     except AttributeError:
         raise TypeError(f"Cannot create help text from {obj!r}") from None
     for k, v in (replacements or {}).items():
@@ -80,7 +80,7 @@ def doc2help(
         body = '\n'.join(wrapped).lstrip(' ')
         return f"{summary}\n\n{body}"
     if mode == 'phrase':
-        return summary[0].lower() + summary[1:].rstrip('.')
+        return summary[:1].lower() + summary[1:].rstrip('.')
     return summary
 
 
-- 
2.43.0


From a6388b718a568caed1ca9a934ab9e23ec257663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:11 +0000
Subject: [PATCH 126/131] fix: merged axes keep the longer axis when the other
 has one value

---
 src/eprempy/physical/_axes.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 52a0eb9..03a6d3c 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -180,7 +180,15 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         except container.MergeError as err:
             errmsg = str(err).replace('entries', 'dimensions')
             raise ValueError(errmsg) from err
-        mapping = {k: other[k] if k in other else self[k] for k in keys}
+        mapping = {}
+        for k in keys:
+            if k not in other:
+                mapping[k] = self[k]
+            elif k in self and len(other[k]) == 1:
+                # An axis of one value stretches to match another axis.
+                mapping[k] = self[k] if len(self[k]) > 1 else other[k]
+            else:
+                mapping[k] = other[k]
         return Axes(mapping)
 
     def copy(self):
-- 
2.43.0


From 20ba9e8e46d4cea0c842e976ddb55959a1e6b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:05 +0000
Subject: [PATCH 127/131] fix: fix: use the common dimension for metric systems
 without their own

---
 src/eprempy/metric/_dimensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_dimensions.py b/src/eprempy/metric/_dimensions.py
index 5aec5b5..462a7cc 100644
--- a/src/eprempy/metric/_dimensions.py
+++ b/src/eprempy/metric/_dimensions.py
@@ -65,8 +65,8 @@ class Dimensions(typing.Mapping):
         **systems
     ) -> typing.Dict[str, typing.Optional[Dimension]]:
         """Create dimension objects from arguments."""
-        created = dict.fromkeys(_reference.SYSTEMS)
         default = Dimension(common) if common else None
+        created = dict.fromkeys(_reference.SYSTEMS, default)
         updates = {
             system: Dimension(expressable) if expressable else default
             for system, expressable in systems.items()
-- 
2.43.0


From c78bb362b2f82a21bd2d4fee5deae83c59edd242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:25 +0000
Subject: [PATCH 128/131] fix: fix: scale a reduced unit once when multiplying
 it or raising it to a power

---
 src/eprempy/metric/_defined.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index f320353..46a70e5 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -308,8 +308,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     __rmul__ = __mul__
     """Called for other * self."""
@@ -319,15 +318,14 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     def __pow__(self, other):
         """Called for self ** other."""
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = [unit ** other for unit in self.units]
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
-- 
2.43.0


From d7de22a8b213aeac91114d36b96c47a16e7ea67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:32 +0000
Subject: [PATCH 129/131] fix: fix: keep the units of all terms when reducing a
 unit expression

---
 src/eprempy/metric/_units.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 60c6fd5..bfa41b3 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -566,6 +566,7 @@ def reduction(unit: symbolic.Expressable, system: str=None):
     This function is still experimental.
     """
     expression = symbolic.expression(unit)
+    terms = []
     decomposed = []
     for term in expression:
         try:
@@ -574,12 +575,17 @@ def reduction(unit: symbolic.Expressable, system: str=None):
         except (_exceptions.UnitParsingError, _exceptions.SystemAmbiguityError):
             current = None
         if current:
-            decomposed.append(current**term.exponent)
+            reduced = current**term.exponent
+            decomposed.append(reduced)
+            terms.extend(reduced.units)
+        else:
+            # This unit stays as it is.
+            terms.append(term)
     if not decomposed:
         return
-    result = decomposed[0]
-    for other in decomposed[1:]:
-        result *= other.scale
-    return result
+    scale = 1.0
+    for reduced in decomposed:
+        scale *= reduced.scale
+    return _defined.Reduction(terms, scale=scale, system=decomposed[0].system)
 
 
-- 
2.43.0


From d76d118e0693a285494f2773f68704d9a560c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:19 +0000
Subject: [PATCH 130/131] fix: fix: accept the symbols of the prefix micro and
 the unit ohm in expressions

---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bc3553f..972f6f8 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -139,7 +139,7 @@ class OperandFactory(_part.Factory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
@@ -661,7 +661,7 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
-- 
2.43.0


From f241fb92a6c5ecedfc40b3cb080f0337f6bc701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:27 +0000
Subject: [PATCH 131/131] fix: fix: multiply the unit of an integrand by the
 unit of its coordinates in numpy.trapz

---
 src/eprempy/physical/_operations.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index d1fa17a..99026e8 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -679,18 +679,25 @@ def _apply_gradient(unit, x, *args, **kwargs):
 
 @Array.implements(numpy.trapz)
 @from_numpy
-def trapz(x: Measured[real.ValueType], *args, **kwargs):
-    """Integrate `x` via the composite trapezoidal rule."""
-    if isinstance(x, Scalar):
+def trapz(y: Measured[real.ValueType], x=None, dx=1.0, **kwargs):
+    """Integrate `y` via the composite trapezoidal rule."""
+    if isinstance(y, Scalar):
         raise TypeError(
             "Cannot apply numpy.trapz to a scalar object"
         ) from None
-    data = numpy.trapz(x.data, *args, **kwargs)
+    unit = y.unit
+    if isinstance(x, Measured):
+        unit = unit * x.unit
+        x = numpy.array(x)
+    elif x is None and isinstance(dx, Measured):
+        unit = unit * dx.unit
+        dx = float(dx)
+    data = numpy.trapz(y.data, x, dx, **kwargs)
     if isinstance(data, (numbers.Real, numpy.number)):
         return data
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
+    metadata = {'unit': unit}
+    if isinstance(y, Array):
+        metadata['axes'] = {d: y.axes[d] for d in data.dimensions}
     return numeric.Result(data, **metadata)
 
 
-- 
2.43.0

