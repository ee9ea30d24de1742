From c17892ab74129e3d3d11eb7c8ed292a569e69c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:04 +0000
Subject: [PATCH 01/38] fix: dimension of units whose dimensions cancel raised
 AttributeError

get_dimensions_from_unit popped from the scalar new_power instead of the
list of powers, so e.g. (u.km / u.m).dimension failed.
---
 celest/units/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index c08645f..2872a03 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -90,7 +90,7 @@ def get_dimensions_from_unit(unit):
             new_power = dimension_powers[dimension_index] + power
             if new_power == 0:
                 dimensions.pop(dimension_index)
-                new_power.pop(dimension_index)
+                dimension_powers.pop(dimension_index)
             else:
                 dimension_powers[dimension_index] = new_power
         else:
-- 
2.43.0


From 4e364da00fa552552012940ce87b4e2d02fd8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:05 +0000
Subject: [PATCH 02/38] fix: multiplying a unit by an unsupported type returned
 None

__mul__ and __rmul__ fell off the end instead of returning NotImplemented,
so u.m * "2" silently produced None instead of raising TypeError.
---
 celest/units/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/celest/units/core.py b/celest/units/core.py
index 586e3f0..9df2170 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -69,6 +69,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [self, other], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def __rmul__(self, other):
         if isinstance(other, BaseUnit):
@@ -79,6 +81,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [other, self], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def is_unity(self) -> bool:
         """
-- 
2.43.0


From 526f6defa610e0bc7a60a60e81b94fd3b54cd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:05 +0000
Subject: [PATCH 03/38] fix: a repeated base inside a divided or raised
 compound unit lost its power

_expand_and_collect added the inner power without the outer one, so
u.m / (u.m / u.s) gave m2 s instead of s.
---
 celest/units/core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 9df2170..0669f10 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -276,13 +276,10 @@ class CompoundUnit(BaseUnit):
             if isinstance(base, CompoundUnit):
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
-                        if b not in bases:
-                            bases.append(b)
-                            powers.append(p * power)
-                        else:
-                            handle_repeated_units(b, p * power)
+                        bases.append(b)
+                        powers.append(p * power)
                     else:
-                        handle_repeated_units(b, p)
+                        handle_repeated_units(b, p * power)
             elif base not in bases:
                 bases.append(base)
                 powers.append(power)
-- 
2.43.0


From 8b7187a9d81aa686045b6ad2ee749eb862631ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 04/38] fix: scale of compound units was lost or counted twice

The scale of a nested compound unit was dropped (2 * (3 * u.m) was 2 m and
(1000 * u.m) / u.s was m / s), u.km ** 2 carried the scale of its base in
addition to the base itself (printed as 1000000.0 km2), conversions ignored
the scale of compound units, and a unit raised to the power zero was not
recognised as unity. The scale of a compound unit is now only its numeric
prefix, and its size in elementary units is the prefix times the size of its
bases.
---
 celest/units/core.py     | 44 ++++++++++++++++++++++------------------
 celest/units/quantity.py | 12 +----------
 2 files changed, 25 insertions(+), 31 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 0669f10..d933c32 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -26,6 +26,13 @@ class BaseUnit:
         """
         return 1.0
 
+    @property
+    def si_scale(self) -> float:
+        """
+        Return the size of the unit in terms of its elementary units.
+        """
+        return self.scale
+
     @property
     def bases(self) -> list:
         """
@@ -170,7 +177,7 @@ class Unit(NamedUnit, BaseUnit):
         super().__init__(short_name, long_name, namespace)
 
         if base_units is not None:
-            self._scale = base_units.scale
+            self._scale = base_units.si_scale
             self._bases = base_units.bases
             self._powers = base_units.powers
         else:
@@ -221,24 +228,10 @@ class CompoundUnit(BaseUnit):
 
     def __init__(self, scale: float, bases: list, powers: list) -> None:
 
-        self._is_unity = False
-
-        base = bases[0]
-        power = powers[0]
-        if not isinstance(base, CompoundUnit) and len(bases) == 1 and power >= 0:
-            if power == 0:
-                self._scale = scale * base.scale
-                self._bases = []
-                self._powers = []
-            else:
-                self._scale = scale * base.scale ** power
-                self._bases = bases
-                self._powers = powers
-        else:
-            self._scale = scale
-            self._bases = bases
-            self._powers = powers
-            self._expand_and_collect()
+        self._scale = scale
+        self._bases = bases
+        self._powers = powers
+        self._expand_and_collect()
 
     def __repr__(self) -> str:
         return "CompoundUnit(\"" + _to_string(self) + "\")"
@@ -247,6 +240,13 @@ class CompoundUnit(BaseUnit):
     def scale(self) -> float:
         return self._scale
 
+    @property
+    def si_scale(self) -> float:
+        scale = self._scale
+        for base, power in zip(self._bases, self._powers):
+            scale *= base.si_scale ** power
+        return scale
+
     @property
     def bases(self) -> list:
         return self._bases
@@ -273,6 +273,10 @@ class CompoundUnit(BaseUnit):
                 powers[index] = new_power
 
         for base, power in zip(self._bases, self._powers):
+            if isinstance(base, CompoundUnit) and base.scale != 1:
+                self._scale *= base.scale ** power
+            if not power:
+                continue
             if isinstance(base, CompoundUnit):
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
@@ -289,7 +293,7 @@ class CompoundUnit(BaseUnit):
         self._bases = bases
         self._powers = powers
 
-        self._is_unity = True if not len(self._bases) else False
+        self._is_unity = not self._bases and self._scale == 1
 
     def is_unity(self) -> bool:
         return self._is_unity
diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 942c33a..be2a7c6 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -278,20 +278,10 @@ class Quantity:
             raise ValueError(
                 "New unit has a different dimension then the current unit.")
 
-        def _get_unit_scale(unit):
-            if isinstance(unit, CompoundUnit):
-                scale = 1.0
-                for base, power in zip(unit.bases, unit.powers):
-                    scale *= base.scale ** power
-                return scale
-            else:
-                return unit.scale
-
         quantity_copy = deepcopy(self)
 
         if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit)
+            quantity_copy._data *= self._unit.si_scale / new_unit.si_scale
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From e977e50d21f015bf71cd9712cc5741c736bfbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 05/38] fix: converting a Quantity failed for integer arrays
 and copied its unit

convert_to scaled the data in place, which NumPy refuses for integer arrays,
and deep-copied the unit, so a quantity converted to its own unit no longer
cancelled against the original unit.
---
 celest/units/quantity.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index be2a7c6..9e6b4f2 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -278,10 +278,9 @@ class Quantity:
             raise ValueError(
                 "New unit has a different dimension then the current unit.")
 
-        quantity_copy = deepcopy(self)
+        data = deepcopy(self._data)
 
-        if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= self._unit.si_scale / new_unit.si_scale
-            quantity_copy._unit = new_unit
+        if repr(self._unit) != repr(new_unit):
+            data = data * (self._unit.si_scale / new_unit.si_scale)
 
-        return quantity_copy
+        return Quantity(data, new_unit)
-- 
2.43.0


From bc0fa7d7d50ac49dddd9954dbeff0eb2a56f7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 06/38] fix: derived Quantity comparisons failed for arrays and
 other types

__ne__ negated NotImplemented (Quantity != "text" was False), and __ne__,
__le__ and __ge__ took the truth value of array comparisons.
---
 celest/units/quantity.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 9e6b4f2..ae2bcb0 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -181,7 +181,13 @@ class Quantity:
             return NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data != other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __lt__(self, other):
         if isinstance(other, Quantity):
@@ -193,7 +199,13 @@ class Quantity:
             return NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data <= other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __gt__(self, other):
         if isinstance(other, Quantity):
@@ -205,7 +217,13 @@ class Quantity:
             return NotImplemented
 
     def __ge__(self, other):
-        return self.__eq__(other) or self.__gt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data >= other.to(self._unit)
+        else:
+            return NotImplemented
 
     @property
     def data(self) -> Any:
-- 
2.43.0


From a7eead33bfd5ceb5ddabf3f5cc60e472f098cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 07/38] fix: coordinate containers accepted arrays of different
 lengths

The chained != comparison only rejected inputs whose adjacent lengths all
differ, so e.g. one time with three positions was accepted.
---
 celest/coordinates/frames/base_positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/frames/base_positions.py b/celest/coordinates/frames/base_positions.py
index 48fb461..e7c8eee 100644
--- a/celest/coordinates/frames/base_positions.py
+++ b/celest/coordinates/frames/base_positions.py
@@ -23,7 +23,7 @@ class Position2d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size:
+        if not time.size == x.size == y.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
@@ -79,7 +79,7 @@ class Position3d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1 or z.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size != z.size:
+        if not time.size == x.size == y.size == z.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
-- 
2.43.0


From 3c679ca8222740b014d74b9c525efb5578caff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:11 +0000
Subject: [PATCH 08/38] fix: geodetic altitude was wrong by kilometres and
 depended on the batch

The iteration stopped on the signed mean of the change over all samples, so a
falling estimate (e.g. any equatorial position) returned the initial guess,
10.7 km off, and the altitude of one sample depended on the others. It also
divided by zero at the poles. Converge on the largest change of any sample and
use formulas that are regular at the poles.
---
 celest/coordinates/transforms.py | 54 +++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..4afcdf8 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -223,7 +223,38 @@ def _altitude(itrs: ITRS) -> np.ndarray:
 
     a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
 
-    tol = 10e-10
+    itrs_x = itrs.x.to(u.km)
+    itrs_y = itrs.y.to(u.km)
+    itrs_z = itrs.z.to(u.km)
+
+    phi = _geodetic_latitude(itrs)
+    p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
+    N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
+
+    return p * np.cos(phi) + itrs_z * np.sin(phi) - a ** 2 / N
+
+
+def _geodetic_latitude(itrs: ITRS) -> np.ndarray:
+    """Return the geodetic latitude in radians.
+
+    Parameters
+    ----------
+    itrs : ITRS
+        Itrs coordinates.
+
+    Returns
+    -------
+    np.ndarray
+        1-D array containing the geodetic latitude in radians.
+
+    See Also
+    --------
+    _altitude : Geodetic altitude, which uses the same iterative method.
+    """
+
+    a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
+
+    tol = 1e-13
 
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
@@ -232,23 +263,18 @@ def _altitude(itrs: ITRS) -> np.ndarray:
     e = np.sqrt(1 - b ** 2 / a ** 2)
     p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
 
-    h = np.sqrt(itrs_x ** 2 + itrs_y ** 2 + itrs_z ** 2) - np.sqrt(a * b)
-    phi = np.arctan((itrs_z / p) * (1 - (e ** 2 * a) / (a + h)) ** -1)
-
-    def new_vals(a, b, e, p, phi, z):
+    def new_latitude(phi):
         N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
-        h = p / np.cos(phi) - N
-        phi = np.arctan((z / p) * (1 - (e ** 2 * N) / (N + h)) ** -1)
-
-        return h, phi
+        return np.arctan2(itrs_z + e ** 2 * N * np.sin(phi), p)
 
-    hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    phi = np.arctan2(itrs_z, (1 - e ** 2) * p)
+    phip = new_latitude(phi)
 
-    while (np.mean(hp - h) > a * tol) or (np.mean(phip - phi) > tol):
-        h, phi = hp, phip
-        hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    while np.any(np.abs(phip - phi) > tol):
+        phi = phip
+        phip = new_latitude(phi)
 
-    return h
+    return phip
 
 
 def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
-- 
2.43.0


From a4d4d6cd1317e2c9a15185145e0bbfaf3bdca7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:11 +0000
Subject: [PATCH 09/38] fix: ITRS to WGS84 returned the geocentric latitude

WGS84 latitudes are geodetic, which is how _wgs84_to_itrs reads them, so the
round trip moved positions by up to 0.19 degrees (21 km).
---
 celest/coordinates/transforms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 4afcdf8..9bc7ffa 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -180,9 +180,8 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
 
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
 
-    latitude = np.arctan(itrs_z / np.sqrt(itrs_x ** 2 + itrs_y ** 2))
+    latitude = _geodetic_latitude(itrs)
     longitude = np.arctan2(itrs_y, itrs_x)
     height = _altitude(itrs)
 
-- 
2.43.0


From ee19732e1880a370273f19279d81c3e4f888b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:11 +0000
Subject: [PATCH 10/38] fix: angle between parallel vectors could be NaN

Rounding can push the cosine slightly outside [-1, 1], e.g. for a satellite
at the zenith of a ground location.
---
 celest/coordinates/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 9bc7ffa..aa27979 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -423,7 +423,7 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    ang = np.degrees(np.arccos(np.clip(numerator / denominator, -1, 1)))
 
     return ang
 
-- 
2.43.0


From f268432ac3073089c22d6eec7f2b2ed422963486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 11/38] fix: azimuth and elevation were not measured in the
 local horizontal plane

The azimuth reference was the direction to a point on the z-axis at
radius / sin(latitude): undefined (NaN) on the equator, pointing South in the
southern hemisphere (azimuths 180 degrees off), and up to several degrees off
North elsewhere when projected. The elevation was measured from the geocentric
radius instead of the vertical of the WGS84 ellipsoid. Use the north, east and
vertical directions of the ground location.
---
 celest/coordinates/transforms.py | 45 ++++++++++++++++----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index aa27979..92873c5 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -19,6 +19,7 @@ from celest.constants import (
 )
 from celest import units as u
 from copy import deepcopy
+from math import cos, sin
 from typing import Tuple
 import numpy as np
 
@@ -373,32 +374,26 @@ def _azimuth(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         1-D array containing azimuth angles in degrees.
     """
 
-    sat_itrs = np.array([itrs.x.to(u.km), itrs.y.to(u.km), itrs.z.to(u.km)]).T
-    ground_itrs = np.array([
+    north = np.array([
+        -sin(location.latitude.to(u.rad)) * cos(location.longitude.to(u.rad)),
+        -sin(location.latitude.to(u.rad)) * sin(location.longitude.to(u.rad)),
+        cos(location.latitude.to(u.rad))
+    ])
+    east = np.array([
+        -sin(location.longitude.to(u.rad)),
+        cos(location.longitude.to(u.rad)),
+        0
+    ])
+    ground_to_satellite = itrs.to_numpy(u.km) - np.array([
         location.itrs_x.to(u.km),
         location.itrs_y.to(u.km),
         location.itrs_z.to(u.km)
     ])
 
-    latitude = location.latitude.to(u.rad)
-    radius = location.radius.to(u.km)
-
-    ground_to_satellite = sat_itrs - ground_itrs
-
-    z_axis_vector = [0, 0, radius / np.sin(latitude)]
-    surface_tangent = z_axis_vector - ground_itrs
-
-    sat_to_ground_on_normal = np.dot(ground_to_satellite, ground_itrs) / radius ** 2
-    sat_to_ground_on_normal = np.array([sat_to_ground_on_normal *
-                                        ground_itrs[i] for i in range(3)]).T
-    ground_to_sat_on_plane = ground_to_satellite - sat_to_ground_on_normal
-
-    direction = np.cross(surface_tangent, ground_itrs)
-    negative_indices = np.sum(ground_to_sat_on_plane * direction, axis=1) < 0
-    azimuth = _get_ang(surface_tangent, ground_to_sat_on_plane)
-    azimuth = 360 * negative_indices - 1 * (2 * negative_indices - 1) * azimuth
-
-    return azimuth
+    return np.degrees(np.arctan2(
+        np.dot(ground_to_satellite, east),
+        np.dot(ground_to_satellite, north)
+    )) % 360
 
 
 def _get_ang(u, v) -> np.ndarray:
@@ -451,7 +446,13 @@ def _elevation(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         location.itrs_z.to(u.km)
     ])
 
-    return 90 - _get_ang(sat_itrs - ground_itrs, ground_itrs)
+    vertical = np.array([
+        cos(location.latitude.to(u.rad)) * cos(location.longitude.to(u.rad)),
+        cos(location.latitude.to(u.rad)) * sin(location.longitude.to(u.rad)),
+        sin(location.latitude.to(u.rad))
+    ])
+
+    return 90 - _get_ang(sat_itrs - ground_itrs, vertical)
 
 
 def _gcrs_to_lvlh(gcrs_position: GCRS, gcrs_velocity: GCRS) -> Tuple[LVLH, LVLH]:
-- 
2.43.0


From 7493457ddbfab31e90f591ce660f688797fe0bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:31 +0000
Subject: [PATCH 12/38] fix: ground location limits were applied to raw numbers
 in any unit

A latitude of 100 arcminutes was rejected and one of 45 radians accepted. Check
the latitude and longitude in degrees.
---
 celest/coordinates/ground_location.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index afa628c..3ef331f 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -70,15 +70,15 @@ class GroundLocation:
             Unit of the `height` measure.
         """
 
-        if latitude < -90 or latitude > 90:
-            raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude < -180 or longitude > 180:
-            raise ValueError("Longitude must be between -180 and 180 degrees.")
-
         self._latitude = Quantity(latitude, angular_unit)
         self._longitude = Quantity(longitude, angular_unit)
         self._height = Quantity(height, length_unit)
 
+        if abs(self._latitude.to(u.deg)) > 90:
+            raise ValueError("Latitude must be between -90 and 90 degrees.")
+        if abs(self._longitude.to(u.deg)) > 180:
+            raise ValueError("Longitude must be between -180 and 180 degrees.")
+
     def __str__(self) -> str:
         return _ISO6709_representation(
             self._latitude,
-- 
2.43.0


From 8d8bd694393e078c0f0b707b22bea3502e203e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:31 +0000
Subject: [PATCH 13/38] fix: sexagesimal strings could read 60 seconds or be a
 minute off

Degrees and minutes were truncated independently of the rounding of the
seconds, so 4.35 degrees printed as 4 deg 21 min 60.00 s. Round
once to the printed precision and split that.
---
 celest/angle_strings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index c0bb645..2d411b5 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -55,9 +55,13 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
         Sexagesimal representation string of `degree_angle`.
     """
 
-    degree_string = "%.3s" % str(int(degree_angle)).zfill(2)
-    minute_string = "%.2s" % str(int(degree_angle * 60 % 60)).zfill(2)
-    second_string = str("%.2f" % (degree_angle * 3600 % 60)).zfill(5)
+    centiseconds = round(degree_angle * 360000)
+    minutes, centiseconds = divmod(centiseconds, 6000)
+    degrees, minutes = divmod(minutes, 60)
+
+    degree_string = str(degrees).zfill(2)
+    minute_string = str(minutes).zfill(2)
+    second_string = ("%.2f" % (centiseconds / 100)).zfill(5)
 
     return degree_string + DEGREE_SYMBOL + minute_string + MINUTE_SYMBOL + \
         second_string + SECOND_SYMBOL
-- 
2.43.0


From 72b19f83a381619aec7fd5447009ec822c82c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:31 +0000
Subject: [PATCH 14/38] fix: saving a satellite without velocity data raised an
 error

The velocity is optional, but save_text_file always converted it.
---
 celest/satellite.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/celest/satellite.py b/celest/satellite.py
index ed273e8..a40bd50 100644
--- a/celest/satellite.py
+++ b/celest/satellite.py
@@ -262,24 +262,33 @@ class Satellite:
         """
 
         gcrs_position = _itrs_to_gcrs(self.position)
-        gcrs_velocity = _itrs_to_gcrs(self.velocity)
 
         header = "Satellite Position and Velocity"
-        data = [
-            ["Time", self.position.time],
+        itrs_data = [
             ["Itrs X", self.position.x],
             ["Itrs Y", self.position.y],
-            ["Itrs Z", self.position.z],
-            ["Itrs VX", self.velocity.x],
-            ["Itrs VY", self.velocity.y],
-            ["Itrs VZ", self.velocity.z],
+            ["Itrs Z", self.position.z]
+        ]
+        gcrs_data = [
             ["Gcrs X", gcrs_position.x],
             ["Gcrs Y", gcrs_position.y],
-            ["Gcrs Z", gcrs_position.z],
-            ["Gcrs VX", gcrs_velocity.x],
-            ["Gcrs VY", gcrs_velocity.y],
-            ["Gcrs VZ", gcrs_velocity.z]
+            ["Gcrs Z", gcrs_position.z]
         ]
+
+        if self.velocity is not None:
+            gcrs_velocity = _itrs_to_gcrs(self.velocity)
+            itrs_data += [
+                ["Itrs VX", self.velocity.x],
+                ["Itrs VY", self.velocity.y],
+                ["Itrs VZ", self.velocity.z]
+            ]
+            gcrs_data += [
+                ["Gcrs VX", gcrs_velocity.x],
+                ["Gcrs VY", gcrs_velocity.y],
+                ["Gcrs VZ", gcrs_velocity.z]
+            ]
+
+        data = [["Time", self.position.time]] + itrs_data + gcrs_data
         writer = TextFileWriter(file_name, header)
         writer.add_layer(data=data)
         writer.save()
-- 
2.43.0


From cef2a15a7ea4ee950a747ccaa9631c789cf61e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:25 +0000
Subject: [PATCH 15/38] fix: calendar dates were a day off around century years
 and failed before 1582

from_julian divided by the length of a Julian instead of a Gregorian century
(2100-03-01 came out as 2100-02-29 or similar for several days), switched to
the Gregorian calendar at the wrong day, and broadcast the whole array into
the Gregorian subset, which raised for arrays spanning the switch.
---
 celest/constants.py                           | 1 +
 celest/coordinates/astronomical_quantities.py | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/celest/constants.py b/celest/constants.py
index 53257e7..9e8af0f 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -3,6 +3,7 @@
 # Time constants.
 JD2000_DATE = 2451545
 DAYS_IN_JULIAN_CENTURY = 36525
+DAYS_IN_GREGORIAN_CENTURY = 36524.25
 DAYS_PER_YEAR = 365.25
 
 # Earth rotation constants.
diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index a6ac344..3db3562 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -2,6 +2,7 @@
 
 from celest.constants import (
     JD2000_DATE,
+    DAYS_IN_GREGORIAN_CENTURY,
     DAYS_IN_JULIAN_CENTURY,
     DAYS_PER_YEAR,
     EARTH_ROTATION_RATE_DEG_PER_DAY,
@@ -402,9 +403,9 @@ def from_julian(julian: Quantity) -> Tuple:
         jd = np.array(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
-    ind = np.where(a >= 2291161)[0]
-    alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
-    a[ind] = a + 1 + alpha - (alpha / 4).astype(int)
+    ind = np.where(a >= 2299161)[0]
+    alpha = ((a[ind] - 1867216.25) / DAYS_IN_GREGORIAN_CENTURY).astype(int)
+    a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
     c = ((b - 122.1) / DAYS_PER_YEAR).astype(int)
-- 
2.43.0


From b6434f0df50b67468fcf1aff43b5248ae297aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:25 +0000
Subject: [PATCH 16/38] fix: day of the year treated 1900, 2100 and 2200 as
 leap years

---
 celest/coordinates/astronomical_quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 3db3562..b643906 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -462,7 +462,8 @@ def day_of_year(julian: Quantity) -> np.ndarray:
     year, month, day = from_julian(julian)
 
     K = np.full(day.shape, 2)
-    K[np.where(year % 4 == 0)] = 1
+    is_century_common = (year > 1582) & (year % 100 == 0) & (year % 400 != 0)
+    K[np.where((year % 4 == 0) & ~is_century_common)] = 1
 
     N = (275 * month / 9).astype(int)
     N = N - K * ((month + 9) / 12).astype(int) + day - 30
-- 
2.43.0


From 79793ab95e565f81a0bd356ba7725a03843b9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:25 +0000
Subject: [PATCH 17/38] fix: apparent sidereal time could leave the range of 0
 to 24 hours

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index 5ebabed..45e58e4 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -480,7 +480,7 @@ class Time:
         gmst = self.gmst().to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
-        return Quantity(gmst + eqn_of_equinoxes, u.hourangle)
+        return Quantity((gmst + eqn_of_equinoxes) % 24, u.hourangle)
 
     def last(self, longitude: np.ndarray) -> Quantity:
         """Return Local Apparent Sidereal Time.
-- 
2.43.0


From 87660d6f780d438eb4e803f0a3ebd9264ab2bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:12 +0000
Subject: [PATCH 18/38] fix: local sidereal times used the right ascension of
 the true Sun

lmst and last are defined (and documented) through the mean Sun. With the true
Sun they were off by the equation of time, up to a quarter of an hour, and
disagreed with gmst and gast at longitude zero.
---
 celest/time.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/celest/time.py b/celest/time.py
index 45e58e4..e76e1ea 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -8,7 +8,7 @@ from celest.coordinates.astronomical_quantities import (
     equation_of_time,
     from_julian,
     _calculate_raw_elapsed_jd_century_powers,
-    sun_right_ascension,
+    get_mean_longitude_of_sun,
     equation_of_equinoxes
 )
 from celest.units.quantity import Quantity
@@ -442,11 +442,11 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).lmst(longitude=150)
-        Quantity(np.array([9.98419514, 16.62892539, 17.78123885]), Unit("hourangle"))
+        Quantity(np.array([9.95570290, 16.58977549, 17.72360055]), Unit("hourangle"))
         """
 
         hour_angle = self.mean_hour_angle(longitude).to(u.hourangle)
-        right_ascension = sun_right_ascension(self.julian).to(u.hourangle)
+        right_ascension = get_mean_longitude_of_sun(self.julian).to(u.hourangle)
 
         return Quantity((hour_angle + right_ascension) % 24, u.hourangle)
 
@@ -511,13 +511,13 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).last(longitude=150)
-        np.array([9.98447567,
-                  16.6286799,
-                  17.78148932])
+        np.array([9.95598343,
+                  16.58953000,
+                  17.72385103])
         """
 
         ut1 = self.ut1().to(u.hourangle)
-        right_ascension_of_sun = sun_right_ascension(self.julian).to(u.hourangle)
+        right_ascension_of_sun = get_mean_longitude_of_sun(self.julian).to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
         last = ut1 - 12 + right_ascension_of_sun + eqn_of_equinoxes +\
-- 
2.43.0


From d93295faf022dd5d2d33be61df7603fb873845c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 19/38] fix: GCRS to ITRS misplaced the pole by 25 arcseconds
 (0.9 km in low orbit)

The precession matrix rotated by +zeta instead of -zeta and the nutation
matrix applied the nutation in longitude about the y-axis with the obliquity
precessed twice, so the pole moved the wrong way and the missing precession in
right ascension happened to compensate for using the Earth rotation angle with
equinox based matrices. Use the standard matrices together with the apparent
sidereal angle; positions now agree with the IAU 2006/2000A Earth orientation
to 0.1 km and with the GMAT data in tests/test_data to 0.06 km (was 0.32 km).
---
 .../nutation_precession_matrices.py           | 26 +++++-----
 celest/coordinates/transforms.py              | 48 +++++++++++++++++--
 2 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index b020d0e..539a36f 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -1,7 +1,6 @@
 
 
 from celest.coordinates.astronomical_quantities import (
-    _calculate_raw_elapsed_jd_century_powers,
     mean_obliquity,
     nutation_components,
     conventional_precession_angles
@@ -82,7 +81,7 @@ def precession_matrix(julian: Quantity) -> np.ndarray:
 
     zeta, theta, z = conventional_precession_angles(julian)
 
-    a1 = zeta.to(u.rad)
+    a1 = - zeta.to(u.rad)
     a2 = theta.to(u.rad)
     a3 = - z.to(u.rad)
 
@@ -130,12 +129,11 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
     """
 
     nutation_in_longitude, nutation_in_obliquity = nutation_components(julian)
-    t1, t2, t3 = _calculate_raw_elapsed_jd_century_powers(julian, 3)
-    eps_A = mean_obliquity(julian).to(u.arcsec) - 46.84024 * t1 - 0.00059 * t2 + 0.001813 * t3
+    obliquity = mean_obliquity(julian)
 
-    a1 = np.radians(eps_A / 3600)
+    a1 = obliquity.to(u.rad)
     a2 = - nutation_in_longitude.to(u.rad)
-    a3 = - np.radians(eps_A / 3600 + nutation_in_obliquity.to(u.deg))
+    a3 = - (obliquity + nutation_in_obliquity).to(u.rad)
 
     s1, c1 = np.sin(a1), np.cos(a1)
     s2, c2 = np.sin(a2), np.cos(a2)
@@ -143,13 +141,13 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
 
     matrix = np.zeros((julian.data.size, 3, 3))
     matrix[:, 0, 0] = c2
-    matrix[:, 0, 1] = s1 * s2
-    matrix[:, 0, 2] = - c1 * s2
-    matrix[:, 1, 0] = s2 * s3
-    matrix[:, 1, 1] = c1 * c3 - s1 * c2 * s3
-    matrix[:, 1, 2] = s1 * c3 + c1 * c2 * s3
-    matrix[:, 2, 0] = s2 * c3
-    matrix[:, 2, 1] = - c1 * s3 - s1 * c2 * c3
-    matrix[:, 2, 2] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 0, 1] = c1 * s2
+    matrix[:, 0, 2] = s1 * s2
+    matrix[:, 1, 0] = - s2 * c3
+    matrix[:, 1, 1] = c1 * c2 * c3 - s1 * s3
+    matrix[:, 1, 2] = s1 * c2 * c3 + c1 * s3
+    matrix[:, 2, 0] = s2 * s3
+    matrix[:, 2, 1] = - c1 * c2 * s3 - s1 * c3
+    matrix[:, 2, 2] = - s1 * c2 * s3 + c1 * c3
 
     return matrix
diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 92873c5..7eaf706 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -1,6 +1,11 @@
 
 
-from celest.coordinates.astronomical_quantities import earth_rotation_angle
+from celest.coordinates.astronomical_quantities import (
+    _calculate_raw_elapsed_jd_century_powers,
+    apparent_obliquity,
+    earth_rotation_angle,
+    nutation_components
+)
 from celest.coordinates.frames.azel import AzEl
 from celest.coordinates.frames.gcrs import GCRS
 from celest.coordinates.frames.itrs import ITRS
@@ -17,6 +22,7 @@ from celest.constants import (
     WGS84_MAJOR_AXIS_KM,
     WGS83_FIRST_ECCENTRICITY
 )
+from celest.units.quantity import Quantity
 from celest import units as u
 from copy import deepcopy
 from math import cos, sin
@@ -62,7 +68,7 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     gcrs_z = gcrs.z.data.reshape((-1, 1))
     gcrs = np.concatenate((gcrs_x, gcrs_y, gcrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    sidereal_angle = _apparent_sidereal_angle(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
@@ -71,11 +77,43 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     itrs = np.einsum('ijk, ik -> ij', precession_mtrx, itrs)
     itrs = np.einsum('ijk, ik -> ij', nutation_mtrx, itrs)
 
-    itrs = _rotate_by_earth_rotation_angle(itrs, -era)
+    itrs = _rotate_by_earth_rotation_angle(itrs, -sidereal_angle)
 
     return ITRS(julian.data, itrs[:, 0], itrs[:, 1], itrs[:, 2], unit)
 
 
+def _apparent_sidereal_angle(julian):
+    """Return the angle from the true equinox of date to Greenwich.
+
+    The Earth rotation angle is measured from an origin that does not follow
+    the equinox, from which the precession and nutation matrices are measured.
+    The difference is the precession and nutation in right ascension since the
+    JD2000 epoch.
+
+    Parameters
+    ----------
+    julian : Quantity
+        Quantity object containing date data in the JD2000 epoch.
+
+    Returns
+    -------
+    Quantity
+        The Greenwich apparent sidereal angle.
+    """
+
+    t1, t2 = _calculate_raw_elapsed_jd_century_powers(julian, 2)
+    precession = Quantity(4612.15739966 * t1 + 1.39667721 * t2, u.arcsec)
+
+    nutation_in_longitude, _ = nutation_components(julian)
+    nutation = Quantity(
+        nutation_in_longitude.to(u.arcsec) *
+        np.cos(apparent_obliquity(julian).to(u.rad)),
+        u.arcsec
+    )
+
+    return earth_rotation_angle(julian) + precession + nutation
+
+
 def _rotate_by_earth_rotation_angle(data, degree_era):
     """Rotate vectors about the z-axis by the Earth rotation angle.
 
@@ -141,12 +179,12 @@ def _itrs_to_gcrs(itrs: ITRS) -> GCRS:
     itrs_z = itrs.z.data.reshape((-1, 1))
     itrs = np.concatenate((itrs_x, itrs_y, itrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    sidereal_angle = _apparent_sidereal_angle(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
 
-    gcrs = _rotate_by_earth_rotation_angle(itrs, era)
+    gcrs = _rotate_by_earth_rotation_angle(itrs, sidereal_angle)
 
     gcrs = np.einsum('ijk, ik -> ij', np.linalg.inv(nutation_mtrx), gcrs)
     gcrs = np.einsum('ijk, ik -> ij', np.linalg.inv(precession_mtrx), gcrs)
-- 
2.43.0


From b13ffa1f1e54038f991951e115a8b33e17e1b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 20/38] fix: a pass in progress at the first sample rose at the
 last sample

Index -1 wrapped around, so a satellite visible from the start of the data got
a rise time after its set time.
---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..af332ae 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,7 +87,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[max(window_index_set[0] - 1, 0)]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From 28fc7c059023bcde675d2ffaf6cb2038de05979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 21/38] fix: a satellite that is never visible raised
 IndexError

generate_vtws now returns an empty WindowCollection.
---
 celest/encounter/window_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index af332ae..4262de0 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -79,6 +79,9 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
     lighting_indices = _lighting_constraint_indices(julian, location, lighting)
     window_indices = np.intersect1d(window_indices, lighting_indices)
 
+    if not len(window_indices):
+        return WindowCollection()
+
     window_indices = np.split(window_indices,
                               np.where(np.diff(window_indices) != 1)[0] + 1)
     window_indices = np.array(window_indices, dtype=object)
-- 
2.43.0


From ba21931b4a4ae5d7f8092ef2c0809ea4c1ba48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 22/38] fix: iterating a WindowCollection was not restartable

The collection was its own iterator and only rewound when exhausted, so leaving
a loop early made the next loop start in the middle, and nested loops skipped
windows.
---
 celest/encounter/window_handling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..f26dcff 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -5,7 +5,7 @@ from celest.coordinates.ground_location import GroundLocation
 from celest.file_save import TextFileWriter
 from celest.units.quantity import Quantity
 from celest import units as u
-from typing import Union
+from typing import Iterator, Union
 import numpy as np
 
 
@@ -162,8 +162,8 @@ class WindowCollection:
     def __len__(self) -> int:
         return len(self._window_data)
 
-    def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
+    def __iter__(self) -> Iterator[Union[VisibleTimeWindow, ObservationWindow]]:
+        return iter(self._window_data)
 
     def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
         if self._current_window_index < len(self._window_data):
-- 
2.43.0


From 315aeec5acb8df05152075ffb69e7eff68af1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 23/38] fix: iterating a RequestHandler skipped the last
 request

The cost, the completeness test, the conflict test and the generated schedule
all ignored the last request: its window was never exported, overlapped other
windows unnoticed, and a schedule missing it counted as complete. Nested
iterations also shared one position.
---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..0af848c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From 7d1380a527fec85b73357e045c7ccc2d475c24e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 24/38] fix: number of scheduled requests drifted

Rescheduling a scheduled request or unscheduling an unscheduled one changed
the counter without changing the number of scheduled requests.
---
 celest/schedule/request_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0af848c..9c7138b 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -59,11 +59,12 @@ class RequestHandler:
         ])
 
     def schedule_request(self, request_index, vtw_index, start, duration):
+        if not self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests += 1
         self.requests[request_index][RequestIndices.is_scheduled] = True
         self.requests[request_index][RequestIndices.vtw_index] = vtw_index
         self.requests[request_index][RequestIndices.scheduled_start_time] = start
         self.requests[request_index][RequestIndices.scheduled_duration] = duration
-        self.number_of_scheduled_requests += 1
 
     def unschedule_all_requests(self):
         for index in range(self.number_of_requests):
@@ -71,11 +72,12 @@ class RequestHandler:
         self.number_of_scheduled_requests = 0
 
     def unschedule_request(self, request_index):
+        if self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests -= 1
         self.requests[request_index][RequestIndices.is_scheduled] = False
         self.requests[request_index][RequestIndices.vtw_index] = None
         self.requests[request_index][RequestIndices.scheduled_start_time] = None
         self.requests[request_index][RequestIndices.scheduled_duration] = None
-        self.number_of_scheduled_requests -= 1
 
     def is_request_scheduled(self, request_index):
         return self.requests[request_index][RequestIndices.is_scheduled]
-- 
2.43.0


From edc1102ebbec8ac208425b2015a001fc56852e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 25/38] fix: random removal never removed the last request

It also raised IndexError once the other requests were exhausted.
---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..e3fde32 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From 457fd8f3880caed99e9057374702ad9054ebf6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 26/38] fix: sorting windows lost the window of scheduled
 requests

The window lists were reordered without updating the index of the scheduled
window, so a scheduled request pointed at a different window (and exported its
attitude). Sorting by conflict degree also raised TypeError when two windows
had the same degree.
---
 celest/schedule/request_handler.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 9c7138b..3018815 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -184,12 +184,21 @@ class RequestHandler:
                 conflict_degree.append(self._conflict_degree(vtw))
                 vtw_indices.append(vtw_index)
 
-            self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+            vtw_indices.sort(key=lambda index: conflict_degree[index])
+            self._reorder_vtws(self.requests[request_index], vtw_indices)
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
+            vtw_list = request[RequestIndices.vtw_list]
+            vtw_indices = sorted(
+                range(len(vtw_list)),
+                key=lambda index: vtw_list[index].rise_time.data
             )
+            self._reorder_vtws(request, vtw_indices)
+
+    def _reorder_vtws(self, request, vtw_indices):
+        vtw_list = request[RequestIndices.vtw_list]
+        request[RequestIndices.vtw_list] = [vtw_list[index] for index in vtw_indices]
+        if request[RequestIndices.is_scheduled]:
+            request[RequestIndices.vtw_index] = vtw_indices.index(
+                request[RequestIndices.vtw_index])
-- 
2.43.0


From b12b903311393a893f26f80676f47c02a7e85a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 27/38] fix: conflict degrees were wrong or raised TypeError

The overlap of two windows was too long when the second starts and ends first
or both share an end point, was None for windows that only touch, and was a
Quantity that could not be sorted together with the zero of unscheduled
requests, so conflict_removal failed on partially scheduled solutions.
---
 celest/schedule/request_handler.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 3018815..a4dbcc5 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -1,5 +1,6 @@
 
 
+from celest import units as u
 from enum import IntEnum
 
 
@@ -161,19 +162,10 @@ class RequestHandler:
         return not (vtw1.set_time < vtw2.rise_time) | (vtw2.set_time < vtw1.rise_time)
 
     def _julian_day_overlap_between_vtws(self, vtw1, vtw2) -> float:
-        s1, s2 = vtw1.rise_time, vtw2.rise_time
-        e1, e2 = vtw1.set_time, vtw2.set_time
-
-        if (e1 < s2) | (e2 < s1):
-            return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+        s1, s2 = vtw1.rise_time.to(u.jd2000), vtw2.rise_time.to(u.jd2000)
+        e1, e2 = vtw1.set_time.to(u.jd2000), vtw2.set_time.to(u.jd2000)
+
+        return max(0, min(e1, e2) - max(s1, s2))
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From 42258e5584bd872b46c7aeb9496c92d3d9cbfafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 28/38] fix: operators that improved the solution were never
 scored better

The accepted solution was compared with itself after it had been copied over
the current one, and with the wrong sign for a cost to minimise.
---
 celest/schedule/alns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..35ad067 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -130,11 +130,11 @@ class ALNS:
             score = _REJECT_SCORE
 
             if self._accept(temporary_solution, current_solution, temperature):
-                current_solution = copy.deepcopy(temporary_solution)
-                if self.cost_function(temporary_solution) > self.cost_function(current_solution):
+                if self.cost_function(temporary_solution) < self.cost_function(current_solution):
                     score = _BETTER_SCORE
                 else:
                     score = _ACCEPT_SCORE
+                current_solution = copy.deepcopy(temporary_solution)
 
             if self.cost_function(temporary_solution) < self.cost_function(best_solution):
                 best_solution = copy.deepcopy(temporary_solution)
-- 
2.43.0


From af44cc53bdc544ef64eedd77d185e8ea14e8ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 29/38] fix: ALNS divided by zero for zero costs, temperatures
 and weights

Generating a schedule raised ZeroDivisionError when no request could be
scheduled, when the annealing coefficient was zero, and when a decay parameter
of one had zeroed the weights of all operators. A worse solution is rejected
at zero temperature, and operators without weights are equally likely.
---
 celest/schedule/alns.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 35ad067..c034f31 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,6 +177,9 @@ class ALNS:
             list of probabilities.
         """
 
+        if not sum(weights):
+            return [1 / len(weights)] * len(weights)
+
         return [weight / sum(weights) for weight in weights]
 
     def _get_repair_index(self) -> int:
@@ -249,8 +252,12 @@ class ALNS:
         if temporary_cost < current_cost:
             return True
         else:
-            probability = math.exp(100 * (temporary_cost - current_cost) /
-                                   (T * current_cost))
+            if temporary_cost == current_cost:
+                return True
+            if T * current_cost == 0:
+                return False
+            probability = math.exp(-100 * abs((temporary_cost - current_cost) /
+                                              (T * current_cost)))
             return False if random.random() > probability else True
 
     def _update_destroy_weights(self, l: float, score: int,
-- 
2.43.0


From 92b9a3147d0bdb6384066371575c118a43992236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 30/38] fix: scheduling a request with a look angle raised
 AttributeError

add_request stored the look angle as a plain number where the insertion
operators expect a Quantity.
---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..2d2a385 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            Quantity(look_ang, u.deg) if look_ang is not None else None,
             vtws
         )
 
-- 
2.43.0


From 47ff2f860742d97b25d2ebf68f198f4da6c0531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:04 +0000
Subject: [PATCH 31/38] fix: observation windows had no attitude

The start time was compared as a Quantity with a memoryview, which matches no
sample, and start times generally fall between samples. Saving the generated
schedule then raised IndexError. Use the sample nearest to the start time.
---
 celest/schedule/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 2d2a385..2a6031b 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,10 +175,10 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
+                attitude_idx = [np.argmin(np.abs(
+                    attitude.time.to(u.jd2000) -
+                    request[RequestIndices.scheduled_start_time].to(u.jd2000)
+                ))]
                 time = attitude.time.data[attitude_idx]
                 roll = attitude.roll.data[attitude_idx]
                 pitch = attitude.pitch.data[attitude_idx]
-- 
2.43.0


From 09251152462e357b385f5dbbe8e669c2c0c71bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:31 +0000
Subject: [PATCH 32/38] fix: units with the same dimensions in another order
 were incompatible

---
 celest/units/display.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 2872a03..7eddf9c 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -57,13 +57,21 @@ UNIT_TO_DIMENSION_DICTIONARY = {
 }
 
 
+DIMENSION_ORDER = "LTDA"
+
+
 def get_dimension_string(unit):
     numerator_strings = []
     denominator_strings = []
 
     dimensions, powers = get_dimensions_from_unit(unit)
+    ordered_dimensions = sorted(
+        zip(dimensions, powers),
+        key=lambda pair: DIMENSION_ORDER.index(pair[0])
+    )
 
-    for dimension, power in zip(dimensions, powers):
+    for dimension, power in ordered_dimensions:
+        power = int(power) if power == int(power) else power
         unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
         if power > 0:
             numerator_strings.append(unit_string)
-- 
2.43.0


From bc303dd543d6d63c018ae48d85c5b9448d781458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:51 +0000
Subject: [PATCH 33/38] fix: integer ITRS coordinates were truncated in the
 conversion to GCRS

---
 celest/coordinates/transforms.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 7eaf706..3dbcea2 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -132,13 +132,9 @@ def _rotate_by_earth_rotation_angle(data, degree_era):
 
     radian_era = degree_era.to(u.rad).data
     c, s = np.cos(radian_era), np.sin(radian_era)
-    c1, c2, c3 = np.copy(data).T
+    c1, c2, c3 = data.T
 
-    data[:, 0] = c * c1 - s * c2
-    data[:, 1] = s * c1 + c * c2
-    data[:, 2] = c3
-
-    return data
+    return np.array([c * c1 - s * c2, s * c1 + c * c2, c3]).T
 
 
 def _itrs_to_gcrs(itrs: ITRS) -> GCRS:
-- 
2.43.0


From 27933e68cec479e68a3221e95c1ead17e91de547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 34/38] fix: a second schedule gave requests added since no
 chance against earlier ones

---
 celest/schedule/scheduler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 2a6031b..d493f31 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -146,6 +146,7 @@ class Scheduler(ALNS):
         if not self.request_handler.number_of_requests:
             raise Exception("No requests to schedule.")
 
+        self.request_handler.unschedule_all_requests()
         initialize_solution(self.request_handler)
         super().__init__(self.request_handler)
 
-- 
2.43.0


From 69a4324fac5758200cd4e459fbb73b0908df9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 35/38] fix: Refuse a location or a visibility threshold that
 is not a number

---
 celest/coordinates/ground_location.py | 4 ++--
 celest/encounter/window_generator.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index 3ef331f..965696e 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -74,9 +74,9 @@ class GroundLocation:
         self._longitude = Quantity(longitude, angular_unit)
         self._height = Quantity(height, length_unit)
 
-        if abs(self._latitude.to(u.deg)) > 90:
+        if not abs(self._latitude.to(u.deg)) <= 90:
             raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if abs(self._longitude.to(u.deg)) > 180:
+        if not abs(self._longitude.to(u.deg)) <= 180:
             raise ValueError("Longitude must be between -180 and 180 degrees.")
 
     def __str__(self) -> str:
diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index 4262de0..5b0a804 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -68,7 +68,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
     if satellite.velocity is None:
         raise Warning("Attitude data cannot be initialized because satellite "
                       "velocity data is unavailable.")
-    if vis_threshold < 0 or 90 < vis_threshold:
+    if not 0 <= vis_threshold <= 90:
         raise ValueError("vis_threshold must be between 0 and 90 degrees.")
 
     satellite_azel = Coordinate(satellite.position).convert_to(AzEl, location)
-- 
2.43.0


From d2e9f99d862488793974bb5314546723b4aad24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 36/38] fix: subtract quantities of unsigned integers without
 negating them

---
 celest/units/quantity.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index ae2bcb0..cababde 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -117,7 +117,17 @@ class Quantity:
         return self.__add__(other)
 
     def __sub__(self, other):
-        return self.__add__(-other)
+        if isinstance(other, (float, int)):
+            data = self._data - other
+            return Quantity(data, self._unit)
+        elif isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for addition/subtraction.")
+            data = self._data - other.to(self._unit)
+            return Quantity(data, self._unit)
+        else:
+            return NotImplemented
 
     def __rsub__(self, other):
         return -self.__sub__(other)
-- 
2.43.0


From a4f2af16e41e21266091f980433bb8fadff6dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 37/38] fix: dates before 2000 given as unsigned integers

---
 celest/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/constants.py b/celest/constants.py
index 9e8af0f..672594f 100644
--- a/celest/constants.py
+++ b/celest/constants.py
@@ -1,7 +1,7 @@
 
 
 # Time constants.
-JD2000_DATE = 2451545
+JD2000_DATE = 2451545.0
 DAYS_IN_JULIAN_CENTURY = 36525
 DAYS_IN_GREGORIAN_CENTURY = 36524.25
 DAYS_PER_YEAR = 365.25
-- 
2.43.0


From b83fab6a6da451e3a5d7d6c1f7ace2164d2d66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 38/38] fix: solar times of unsigned integer Julian dates

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index e76e1ea..351df17 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -96,7 +96,7 @@ class Time:
             zero.
         """
 
-        time = np.array(julian)
+        time = np.array(julian, dtype=float)
 
         if time.ndim == 0:
             time = time.reshape((1,))
-- 
2.43.0

