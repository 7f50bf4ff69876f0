From 043e5c339177f60790335f4e50b9adb802d09016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:29 +0000
Subject: [PATCH 01/37] fix: apply the outer power to repeated bases of a
 compound unit

---
 celest/units/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 586e3f0..205c62d 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -278,7 +278,7 @@ class CompoundUnit(BaseUnit):
                         else:
                             handle_repeated_units(b, p * power)
                     else:
-                        handle_repeated_units(b, p)
+                        handle_repeated_units(b, p * power)
             elif base not in bases:
                 bases.append(base)
                 powers.append(power)
-- 
2.43.0


From af6095663c052857297b2de38c28b75a98873c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:29 +0000
Subject: [PATCH 02/37] fix: cancelling dimensions of a unit no longer raises

---
 celest/units/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index c08645f..2872a03 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -90,7 +90,7 @@ def get_dimensions_from_unit(unit):
             new_power = dimension_powers[dimension_index] + power
             if new_power == 0:
                 dimensions.pop(dimension_index)
-                new_power.pop(dimension_index)
+                dimension_powers.pop(dimension_index)
             else:
                 dimension_powers[dimension_index] = new_power
         else:
-- 
2.43.0


From 3acd89263f81f75af3e85e6483a6aa2397a138d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:36 +0000
Subject: [PATCH 03/37] fix: count the scale of a compound unit exactly once

---
 celest/units/core.py     | 8 ++++++--
 celest/units/quantity.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 205c62d..d20ee95 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -167,6 +167,9 @@ class Unit(NamedUnit, BaseUnit):
 
         if base_units is not None:
             self._scale = base_units.scale
+            if isinstance(base_units, CompoundUnit):
+                for base, power in zip(base_units.bases, base_units.powers):
+                    self._scale *= base.scale ** power
             self._bases = base_units.bases
             self._powers = base_units.powers
         else:
@@ -222,12 +225,11 @@ class CompoundUnit(BaseUnit):
         base = bases[0]
         power = powers[0]
         if not isinstance(base, CompoundUnit) and len(bases) == 1 and power >= 0:
+            self._scale = scale
             if power == 0:
-                self._scale = scale * base.scale
                 self._bases = []
                 self._powers = []
             else:
-                self._scale = scale * base.scale ** power
                 self._bases = bases
                 self._powers = powers
         else:
@@ -270,6 +272,8 @@ class CompoundUnit(BaseUnit):
 
         for base, power in zip(self._bases, self._powers):
             if isinstance(base, CompoundUnit):
+                if base.scale != 1:
+                    self._scale *= base.scale ** power
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
                         if b not in bases:
diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 942c33a..27a6407 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -280,7 +280,7 @@ class Quantity:
 
         def _get_unit_scale(unit):
             if isinstance(unit, CompoundUnit):
-                scale = 1.0
+                scale = unit.scale
                 for base, power in zip(unit.bases, unit.powers):
                     scale *= base.scale ** power
                 return scale
-- 
2.43.0


From d1bfdbff886dadb758d1476762c6166dd945432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:12 +0000
Subject: [PATCH 04/37] fix: unit conversion of integer arrays and identity of
 the resulting unit

---
 celest/units/quantity.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 27a6407..a331b15 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -287,11 +287,10 @@ class Quantity:
             else:
                 return unit.scale
 
-        quantity_copy = deepcopy(self)
+        data = deepcopy(self._data)
 
-        if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit)
-            quantity_copy._unit = new_unit
+        if repr(self._unit) != repr(new_unit):
+            data = data * (_get_unit_scale(self._unit) /
+                           _get_unit_scale(new_unit))
 
-        return quantity_copy
+        return Quantity(data, new_unit)
-- 
2.43.0


From 016dd094ef91cc344ba732fb5450672961ce9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:16 +0000
Subject: [PATCH 05/37] fix: compare quantities holding arrays element by
 element with !=, <= and >=

---
 celest/units/quantity.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index a331b15..d3a1470 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -181,7 +181,13 @@ class Quantity:
             return NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data != other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __lt__(self, other):
         if isinstance(other, Quantity):
@@ -193,7 +199,13 @@ class Quantity:
             return NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data <= other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __gt__(self, other):
         if isinstance(other, Quantity):
@@ -205,7 +217,13 @@ class Quantity:
             return NotImplemented
 
     def __ge__(self, other):
-        return self.__eq__(other) or self.__gt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data >= other.to(self._unit)
+        else:
+            return NotImplemented
 
     @property
     def data(self) -> Any:
-- 
2.43.0


From 77a288faf299c6786bdc664e4fdc2e708d027806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:50 +0000
Subject: [PATCH 06/37] fix: the dimension string does not depend on the order
 of the factors

---
 celest/units/display.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 2872a03..e645c44 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -57,13 +57,19 @@ UNIT_TO_DIMENSION_DICTIONARY = {
 }
 
 
+# Fixed order such that equal dimensions have equal strings.
+DIMENSION_ORDER = ["L", "T", "D", "A"]
+
+
 def get_dimension_string(unit):
     numerator_strings = []
     denominator_strings = []
 
     dimensions, powers = get_dimensions_from_unit(unit)
+    dimension_powers = sorted(zip(dimensions, powers),
+                              key=lambda pair: DIMENSION_ORDER.index(pair[0]))
 
-    for dimension, power in zip(dimensions, powers):
+    for dimension, power in dimension_powers:
         unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
         if power > 0:
             numerator_strings.append(unit_string)
-- 
2.43.0


From f6f1c69ec8457e2993d712c68bc0c003c8ae8e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:51 +0000
Subject: [PATCH 07/37] fix: Julian to calendar conversion at the Gregorian
 reform and for mixed arrays

---
 celest/coordinates/astronomical_quantities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index a6ac344..2161119 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -402,9 +402,9 @@ def from_julian(julian: Quantity) -> Tuple:
         jd = np.array(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
-    ind = np.where(a >= 2291161)[0]
-    alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
-    a[ind] = a + 1 + alpha - (alpha / 4).astype(int)
+    ind = np.where(a >= 2299161)[0]
+    alpha = ((a[ind] - 1867216.25) / 36524.25).astype(int)
+    a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
     c = ((b - 122.1) / DAYS_PER_YEAR).astype(int)
-- 
2.43.0


From 48e193bdd02acd7e0f474f909aa7f2673cf2a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 08/37] fix: century years that are not leap years in the day
 of year

---
 celest/coordinates/astronomical_quantities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 2161119..b0ba657 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -461,7 +461,9 @@ def day_of_year(julian: Quantity) -> np.ndarray:
     year, month, day = from_julian(julian)
 
     K = np.full(day.shape, 2)
-    K[np.where(year % 4 == 0)] = 1
+    gregorian_common_century = (year > 1582) & (year % 100 == 0) &\
+        (year % 400 != 0)
+    K[np.where((year % 4 == 0) & ~gregorian_common_century)] = 1
 
     N = (275 * month / 9).astype(int)
     N = N - K * ((month + 9) / 12).astype(int) + day - 30
-- 
2.43.0


From 1ac2158255b0ffbaa3e38f3ff4766a048fdcc2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 09/37] fix: constant term of the zeta precession angle

---
 celest/coordinates/astronomical_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index b0ba657..dc3bf4a 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -260,7 +260,7 @@ def conventional_precession_angles(julian: Quantity) -> Tuple:
 
 def _get_zeta_precession_angle(julian: Quantity) -> Quantity:
     t1, t2, t3, t4, t5 = _calculate_raw_elapsed_jd_century_powers(julian, 5)
-    result = 2.59796176 + 2306.0809506 * t1 + 0.3019015 * t2 + \
+    result = 2.5976176 + 2306.0809506 * t1 + 0.3019015 * t2 + \
         0.0179663 * t3 - 0.0000327 * t4 - 0.0000002 * t5
     return Quantity(result, u.arcsec)
 
-- 
2.43.0


From 197d47d6b5eb5779e7113733ceb9922c8a0c600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:56 +0000
Subject: [PATCH 10/37] fix: reduce Greenwich apparent sidereal time to a day

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index 5ebabed..45e58e4 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -480,7 +480,7 @@ class Time:
         gmst = self.gmst().to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
-        return Quantity(gmst + eqn_of_equinoxes, u.hourangle)
+        return Quantity((gmst + eqn_of_equinoxes) % 24, u.hourangle)
 
     def last(self, longitude: np.ndarray) -> Quantity:
         """Return Local Apparent Sidereal Time.
-- 
2.43.0


From 21551b3d560cc272c7037c7bb27ee11994d1e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 11/37] fix: refuse positions whose components differ in length

---
 celest/coordinates/frames/base_positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/frames/base_positions.py b/celest/coordinates/frames/base_positions.py
index 48fb461..e7c8eee 100644
--- a/celest/coordinates/frames/base_positions.py
+++ b/celest/coordinates/frames/base_positions.py
@@ -23,7 +23,7 @@ class Position2d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size:
+        if not time.size == x.size == y.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
@@ -79,7 +79,7 @@ class Position3d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1 or z.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size != z.size:
+        if not time.size == x.size == y.size == z.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
-- 
2.43.0


From 5856a9151074a35a7771af3be17c9a187b2371a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 12/37] fix: ground location range checks in any angular unit

---
 celest/coordinates/ground_location.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index afa628c..3ef331f 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -70,15 +70,15 @@ class GroundLocation:
             Unit of the `height` measure.
         """
 
-        if latitude < -90 or latitude > 90:
-            raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude < -180 or longitude > 180:
-            raise ValueError("Longitude must be between -180 and 180 degrees.")
-
         self._latitude = Quantity(latitude, angular_unit)
         self._longitude = Quantity(longitude, angular_unit)
         self._height = Quantity(height, length_unit)
 
+        if abs(self._latitude.to(u.deg)) > 90:
+            raise ValueError("Latitude must be between -90 and 90 degrees.")
+        if abs(self._longitude.to(u.deg)) > 180:
+            raise ValueError("Longitude must be between -180 and 180 degrees.")
+
     def __str__(self) -> str:
         return _ISO6709_representation(
             self._latitude,
-- 
2.43.0


From f3a1bdabfa07b67871dc48035b2d0dfd96053d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 13/37] fix: rotate integer positions by the Earth rotation
 angle

---
 celest/coordinates/transforms.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..5d84674 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -93,13 +93,9 @@ def _rotate_by_earth_rotation_angle(data, degree_era):
 
     radian_era = degree_era.to(u.rad).data
     c, s = np.cos(radian_era), np.sin(radian_era)
-    c1, c2, c3 = np.copy(data).T
+    c1, c2, c3 = data.T
 
-    data[:, 0] = c * c1 - s * c2
-    data[:, 1] = s * c1 + c * c2
-    data[:, 2] = c3
-
-    return data
+    return np.array([c * c1 - s * c2, s * c1 + c * c2, c3]).T
 
 
 def _itrs_to_gcrs(itrs: ITRS) -> GCRS:
-- 
2.43.0


From d77fe26f68c8092c6ce114c7ca5c542073183f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:53 +0000
Subject: [PATCH 14/37] fix: no NaN for the angle between parallel vectors

---
 celest/coordinates/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 5d84674..b9a021a 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -394,7 +394,7 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    ang = np.degrees(np.arccos(np.clip(numerator / denominator, -1, 1)))
 
     return ang
 
-- 
2.43.0


From 545640be46b3603cc2de5899bec42bac8d80c457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:45 +0000
Subject: [PATCH 15/37] fix: geodetic latitude and height of Earth-fixed
 positions

The latitude returned was the geocentric one and the iteration stopped on the
signed mean of the corrections, so that heights depended on the other rows.
---
 celest/coordinates/transforms.py | 63 ++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index b9a021a..2913209 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -178,9 +178,11 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
     itrs_y = itrs.y.to(u.km)
     itrs_z = itrs.z.to(u.km)
 
-    latitude = np.arctan(itrs_z / np.sqrt(itrs_x ** 2 + itrs_y ** 2))
     longitude = np.arctan2(itrs_y, itrs_x)
-    height = _altitude(itrs)
+    latitude, height = _geodetic_latitude_and_height(
+        np.sqrt(itrs_x ** 2 + itrs_y ** 2),
+        itrs_z
+    )
 
     return WGS84(julian, latitude, longitude, height, u.rad, u.km)
 
@@ -217,34 +219,55 @@ def _altitude(itrs: ITRS) -> np.ndarray:
         raise ValueError(f"Input data is in the {itrs.__class__} frame and not"
                          " the ITRS frame.")
 
-    a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
-
-    tol = 10e-10
-
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
     itrs_z = itrs.z.to(u.km)
 
-    e = np.sqrt(1 - b ** 2 / a ** 2)
-    p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
+    _, height = _geodetic_latitude_and_height(
+        np.sqrt(itrs_x ** 2 + itrs_y ** 2),
+        itrs_z
+    )
+
+    return height
+
+
+def _geodetic_latitude_and_height(p: np.ndarray, z: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+    """Return the geodetic latitude and height above the WGS84 ellipsoid.
+
+    Parameters
+    ----------
+    p, z : np.ndarray
+        1-D arrays containing the distances from the Earth's rotation axis and
+        from the equatorial plane in kilometers.
+
+    Returns
+    -------
+    Tuple
+        Tuple containing the geodetic latitudes in radians and the geodetic
+        heights in kilometers.
+    """
+
+    a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
+    e2 = 1 - b ** 2 / a ** 2
 
-    h = np.sqrt(itrs_x ** 2 + itrs_y ** 2 + itrs_z ** 2) - np.sqrt(a * b)
-    phi = np.arctan((itrs_z / p) * (1 - (e ** 2 * a) / (a + h)) ** -1)
+    tol = 1e-12
 
-    def new_vals(a, b, e, p, phi, z):
-        N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
-        h = p / np.cos(phi) - N
-        phi = np.arctan((z / p) * (1 - (e ** 2 * N) / (N + h)) ** -1)
+    def next_latitude(latitude):
+        n = a / np.sqrt(1 - e2 * np.sin(latitude) ** 2)
+        return np.arctan2(z + e2 * n * np.sin(latitude), p)
 
-        return h, phi
+    latitude = np.arctan2(z, p * (1 - e2))
+    updated_latitude = next_latitude(latitude)
 
-    hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    while np.any(np.abs(updated_latitude - latitude) > tol):
+        latitude = updated_latitude
+        updated_latitude = next_latitude(latitude)
 
-    while (np.mean(hp - h) > a * tol) or (np.mean(phip - phi) > tol):
-        h, phi = hp, phip
-        hp, phip = new_vals(a, b, e, p, phi, itrs_z)
+    latitude = updated_latitude
+    height = p * np.cos(latitude) + z * np.sin(latitude) - \
+        a * np.sqrt(1 - e2 * np.sin(latitude) ** 2)
 
-    return h
+    return latitude, height
 
 
 def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
-- 
2.43.0


From 5b2cbad7c169b6e9494678533cbb81e6588c31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:07 +0000
Subject: [PATCH 16/37] fix: azimuth of targets seen from the equator and the
 southern hemisphere

The horizontal reference direction was infinite for stations on the equator and
pointed south for stations south of it.
---
 celest/coordinates/transforms.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 2913209..23a5e81 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -374,25 +374,19 @@ def _azimuth(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         location.itrs_z.to(u.km)
     ])
 
-    latitude = location.latitude.to(u.rad)
-    radius = location.radius.to(u.km)
+    longitude = location.longitude.to(u.rad)
 
     ground_to_satellite = sat_itrs - ground_itrs
 
-    z_axis_vector = [0, 0, radius / np.sin(latitude)]
-    surface_tangent = z_axis_vector - ground_itrs
+    east = np.array([-np.sin(longitude), np.cos(longitude), 0])
+    north = np.cross(ground_itrs, east) / np.linalg.norm(ground_itrs)
 
-    sat_to_ground_on_normal = np.dot(ground_to_satellite, ground_itrs) / radius ** 2
-    sat_to_ground_on_normal = np.array([sat_to_ground_on_normal *
-                                        ground_itrs[i] for i in range(3)]).T
-    ground_to_sat_on_plane = ground_to_satellite - sat_to_ground_on_normal
+    azimuth = np.degrees(np.arctan2(
+        np.dot(ground_to_satellite, east),
+        np.dot(ground_to_satellite, north)
+    ))
 
-    direction = np.cross(surface_tangent, ground_itrs)
-    negative_indices = np.sum(ground_to_sat_on_plane * direction, axis=1) < 0
-    azimuth = _get_ang(surface_tangent, ground_to_sat_on_plane)
-    azimuth = 360 * negative_indices - 1 * (2 * negative_indices - 1) * azimuth
-
-    return azimuth
+    return azimuth % 360
 
 
 def _get_ang(u, v) -> np.ndarray:
-- 
2.43.0


From ab34933b951dd756cb11c7bcad3f0e5430c60d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 17/37] fix: iterate over every request of a request handler

---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..0af848c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From f6299cfb0d047459b659a26711d0a2cdd697008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 18/37] fix: count scheduled requests when rescheduling or
 unscheduling twice

---
 celest/schedule/request_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0af848c..9c7138b 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -59,11 +59,12 @@ class RequestHandler:
         ])
 
     def schedule_request(self, request_index, vtw_index, start, duration):
+        if not self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests += 1
         self.requests[request_index][RequestIndices.is_scheduled] = True
         self.requests[request_index][RequestIndices.vtw_index] = vtw_index
         self.requests[request_index][RequestIndices.scheduled_start_time] = start
         self.requests[request_index][RequestIndices.scheduled_duration] = duration
-        self.number_of_scheduled_requests += 1
 
     def unschedule_all_requests(self):
         for index in range(self.number_of_requests):
@@ -71,11 +72,12 @@ class RequestHandler:
         self.number_of_scheduled_requests = 0
 
     def unschedule_request(self, request_index):
+        if self.is_request_scheduled(request_index):
+            self.number_of_scheduled_requests -= 1
         self.requests[request_index][RequestIndices.is_scheduled] = False
         self.requests[request_index][RequestIndices.vtw_index] = None
         self.requests[request_index][RequestIndices.scheduled_start_time] = None
         self.requests[request_index][RequestIndices.scheduled_duration] = None
-        self.number_of_scheduled_requests -= 1
 
     def is_request_scheduled(self, request_index):
         return self.requests[request_index][RequestIndices.is_scheduled]
-- 
2.43.0


From 8bc4b79f82c0bc74c588c2ce6c29f689ac40c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 19/37] fix: keep the window of a scheduled request when its
 windows are sorted

---
 celest/schedule/request_handler.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 9c7138b..3176772 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -177,19 +177,24 @@ class RequestHandler:
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-            conflict_degree = []
-            vtw_indices = []
             vtw_list = self.requests[request_index][RequestIndices.vtw_list]
-            for vtw_index, vtw in enumerate(vtw_list):
-                conflict_degree.append(self._conflict_degree(vtw))
-                vtw_indices.append(vtw_index)
+            conflict_degree = [self._conflict_degree(vtw) for vtw in vtw_list]
+            self._reorder_vtws(
+                self.requests[request_index],
+                sorted(range(len(vtw_list)), key=lambda x: conflict_degree[x])
+            )
 
-            self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+    def _reorder_vtws(self, request, order) -> None:
+        vtw_list = request[RequestIndices.vtw_list]
+        request[RequestIndices.vtw_list] = [vtw_list[index] for index in order]
+        if request[RequestIndices.is_scheduled]:
+            request[RequestIndices.vtw_index] = \
+                order.index(request[RequestIndices.vtw_index])
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
-            )
+            vtw_list = request[RequestIndices.vtw_list]
+            self._reorder_vtws(request, sorted(
+                range(len(vtw_list)),
+                key=lambda x: vtw_list[x].rise_time.data
+            ))
-- 
2.43.0


From 267670161f5ddaeae7bfa0f2cca250f02b877ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 20/37] fix: overlap of partially overlapping windows

---
 celest/schedule/request_handler.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 3176772..e3b86fb 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -166,14 +166,8 @@ class RequestHandler:
 
         if (e1 < s2) | (e2 < s1):
             return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+
+        return (e1 if e1 < e2 else e2) - (s2 if s1 < s2 else s1)
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From a0c5bc07593b13b776b255b2fafe6d55340acb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 21/37] fix: random removal can remove the last request

---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..3e0996d 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(0, len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From acddbacb3f164f63adf82ea066eaecd8f67563b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 22/37] fix: acceptance at zero cost or zero temperature

---
 celest/schedule/alns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..47b93bf 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -246,8 +246,10 @@ class ALNS:
         current_cost = self.cost_function(current_solution)
         temporary_cost = self.cost_function(temporary_solution)
 
-        if temporary_cost < current_cost:
+        if temporary_cost <= current_cost:
             return True
+        elif T * current_cost == 0:
+            return False
         else:
             probability = math.exp(100 * (temporary_cost - current_cost) /
                                    (T * current_cost))
-- 
2.43.0


From 5694b6997d459f9a7e96b0eb09e2c938e1d5bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 23/37] fix: score of operators that improve the current
 solution

---
 celest/schedule/alns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 47b93bf..82ab837 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -130,11 +130,11 @@ class ALNS:
             score = _REJECT_SCORE
 
             if self._accept(temporary_solution, current_solution, temperature):
-                current_solution = copy.deepcopy(temporary_solution)
-                if self.cost_function(temporary_solution) > self.cost_function(current_solution):
+                if self.cost_function(temporary_solution) < self.cost_function(current_solution):
                     score = _BETTER_SCORE
                 else:
                     score = _ACCEPT_SCORE
+                current_solution = copy.deepcopy(temporary_solution)
 
             if self.cost_function(temporary_solution) < self.cost_function(best_solution):
                 best_solution = copy.deepcopy(temporary_solution)
-- 
2.43.0


From aef5d2047ff46c0fd6c2fc6929afcfd392c2e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 24/37] fix: choose operators uniformly when all their weights
 have decayed

---
 celest/schedule/alns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 82ab837..c4a2b1d 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,6 +177,9 @@ class ALNS:
             list of probabilities.
         """
 
+        if sum(weights) == 0:
+            return [1 / len(weights)] * len(weights)
+
         return [weight / sum(weights) for weight in weights]
 
     def _get_repair_index(self) -> int:
-- 
2.43.0


From 9cae891de27d34b0d3a92b884a9d3401313f5251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 25/37] fix: independent iterations over a window collection

---
 celest/encounter/window_handling.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..2d8f043 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -5,7 +5,7 @@ from celest.coordinates.ground_location import GroundLocation
 from celest.file_save import TextFileWriter
 from celest.units.quantity import Quantity
 from celest import units as u
-from typing import Union
+from typing import Iterator, Union
 import numpy as np
 
 
@@ -150,7 +150,6 @@ class WindowCollection:
 
     def __init__(self) -> None:
         self._window_data = []
-        self._current_window_index = 0
 
     def __str__(self) -> str:
         return str(self._window_data)
@@ -162,16 +161,8 @@ class WindowCollection:
     def __len__(self) -> int:
         return len(self._window_data)
 
-    def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
-
-    def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        if self._current_window_index < len(self._window_data):
-            self._current_window_index += 1
-            return self._window_data[self._current_window_index - 1]
-        else:
-            self._current_window_index = 0
-            raise StopIteration
+    def __iter__(self) -> Iterator[Union[VisibleTimeWindow, ObservationWindow]]:
+        return iter(self._window_data)
 
     def __getitem__(self, key) -> Union[list, VisibleTimeWindow,
                                         ObservationWindow]:
-- 
2.43.0


From 8cc1d783b56911898b1755043ec8d31ab27d1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 26/37] fix: windows start at the first visible sample

---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..4302fe2 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,7 +87,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[window_index_set[0]]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From 962cf640cea15d17189528c63f0b10699761a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 27/37] fix: no windows when the location is never visible

---
 celest/encounter/window_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index 4302fe2..b8d526a 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,6 +87,8 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
+        if len(window_index_set) == 0:
+            continue
         rise_time = julian[window_index_set[0]]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
-- 
2.43.0


From 0ee3d50b4b0aa1a43270a985a65ab941bd3f86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 28/37] fix: unit of the requested look angle

---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..89098a5 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            None if look_ang is None else Quantity(look_ang, u.deg),
             vtws
         )
 
-- 
2.43.0


From f1c1f61b7a3e7aacf0f529bdc4f99ee9b8b4565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 29/37] fix: attitude of scheduled observations at their start
 time

---
 celest/schedule/scheduler.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 89098a5..c4fead8 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,14 +175,13 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
-                time = attitude.time.data[attitude_idx]
-                roll = attitude.roll.data[attitude_idx]
-                pitch = attitude.pitch.data[attitude_idx]
-                yaw = attitude.yaw.data[attitude_idx]
+                attitude_time = attitude.time.to(u.jd2000)
+                time = np.array([
+                    request[RequestIndices.scheduled_start_time].to(u.jd2000)
+                ])
+                roll = np.interp(time, attitude_time, attitude.roll.data)
+                pitch = np.interp(time, attitude_time, attitude.pitch.data)
+                yaw = np.interp(time, attitude_time, attitude.yaw.data)
                 unit = attitude.roll.unit
                 location = attitude.location
                 new_attitude = Attitude(time, roll, pitch, yaw, unit, location)
-- 
2.43.0


From f7554ea5822f6bb0dc2e1ac2f4a0ccd85a320926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:46 +0000
Subject: [PATCH 30/37] fix: sort scheduled and unscheduled requests by
 conflict degree

---
 celest/schedule/request_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index e3b86fb..d31bf80 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -1,5 +1,6 @@
 
 
+from celest import units as u
 from enum import IntEnum
 
 
@@ -167,7 +168,8 @@ class RequestHandler:
         if (e1 < s2) | (e2 < s1):
             return 0
 
-        return (e1 if e1 < e2 else e2) - (s2 if s1 < s2 else s1)
+        overlap = (e1 if e1 < e2 else e2) - (s2 if s1 < s2 else s1)
+        return overlap.to(u.jd2000)
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From 16634e4792dca8d0603c5b829343aaa82fb22746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:19 +0000
Subject: [PATCH 31/37] fix: carry seconds that round up to a minute

---
 celest/angle_strings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index c0bb645..1a18251 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -55,9 +55,13 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
         Sexagesimal representation string of `degree_angle`.
     """
 
-    degree_string = "%.3s" % str(int(degree_angle)).zfill(2)
-    minute_string = "%.2s" % str(int(degree_angle * 60 % 60)).zfill(2)
-    second_string = str("%.2f" % (degree_angle * 3600 % 60)).zfill(5)
+    hundredths = int(round(degree_angle * 360000))
+    degrees, hundredths = divmod(hundredths, 360000)
+    minutes, hundredths = divmod(hundredths, 6000)
+
+    degree_string = str(degrees).zfill(2)
+    minute_string = str(minutes).zfill(2)
+    second_string = "%05.2f" % (hundredths / 100)
 
     return degree_string + DEGREE_SYMBOL + minute_string + MINUTE_SYMBOL + \
         second_string + SECOND_SYMBOL
-- 
2.43.0


From ac160c82d080a1eefcb676377761a9ab93b0da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:59 +0000
Subject: [PATCH 32/37] fix: width and format of the columns of a text table

---
 celest/file_save.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 3032a6b..1eaeaaf 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -211,22 +211,15 @@ def _get_column_information(label: str, value: Any, value_format:
 
 
 def _get_maximum_value_width(value: Any, value_format: str) -> int:
-    if isinstance(value, Quantity):
-        return len(value_format % np.max(value.data))
-    elif isinstance(value, np.ndarray):
-        if isinstance(value.dtype, (int, float)):
-            return len(value_format % np.max(value))
-        else:
-            return len(max(value.astype(str), key=len))
-    else:
-        return NotImplemented
+    return max((
+        len(_get_data_entry_string(entry, 0, value_format))
+        for [entry] in _get_and_reshape_column_data(value)
+    ), default=0)
 
 
 def _get_and_reshape_column_data(value: Any) -> np.ndarray:
-    if isinstance(value, Quantity):
-        return value.data.reshape((-1, 1))
-    else:
-        return value.reshape((-1, 1))
+    data = value.data if isinstance(value, Quantity) else value
+    return data.astype(object).reshape((-1, 1))
 
 
 def _write_column_data_to_file(file: IO, column_widths: list,
-- 
2.43.0


From 38bf8197e3c1d8e9a2a29f594d6a34d580f80c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:02 +0000
Subject: [PATCH 33/37] fix: save satellites without a velocity to a text file

---
 celest/satellite.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/celest/satellite.py b/celest/satellite.py
index ed273e8..1a7e6ad 100644
--- a/celest/satellite.py
+++ b/celest/satellite.py
@@ -262,7 +262,21 @@ class Satellite:
         """
 
         gcrs_position = _itrs_to_gcrs(self.position)
-        gcrs_velocity = _itrs_to_gcrs(self.velocity)
+
+        itrs_velocity_data = []
+        gcrs_velocity_data = []
+        if self.velocity is not None:
+            gcrs_velocity = _itrs_to_gcrs(self.velocity)
+            itrs_velocity_data = [
+                ["Itrs VX", self.velocity.x],
+                ["Itrs VY", self.velocity.y],
+                ["Itrs VZ", self.velocity.z]
+            ]
+            gcrs_velocity_data = [
+                ["Gcrs VX", gcrs_velocity.x],
+                ["Gcrs VY", gcrs_velocity.y],
+                ["Gcrs VZ", gcrs_velocity.z]
+            ]
 
         header = "Satellite Position and Velocity"
         data = [
@@ -270,15 +284,11 @@ class Satellite:
             ["Itrs X", self.position.x],
             ["Itrs Y", self.position.y],
             ["Itrs Z", self.position.z],
-            ["Itrs VX", self.velocity.x],
-            ["Itrs VY", self.velocity.y],
-            ["Itrs VZ", self.velocity.z],
+            *itrs_velocity_data,
             ["Gcrs X", gcrs_position.x],
             ["Gcrs Y", gcrs_position.y],
             ["Gcrs Z", gcrs_position.z],
-            ["Gcrs VX", gcrs_velocity.x],
-            ["Gcrs VY", gcrs_velocity.y],
-            ["Gcrs VZ", gcrs_velocity.z]
+            *gcrs_velocity_data
         ]
         writer = TextFileWriter(file_name, header)
         writer.add_layer(data=data)
-- 
2.43.0


From 96d56d24a87d4f42dfe2dc77836385129a53740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:32 +0000
Subject: [PATCH 34/37] fix: convert between units that share a name but not a
 scale

---
 celest/units/quantity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index d3a1470..d7430d1 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -307,8 +307,10 @@ class Quantity:
 
         data = deepcopy(self._data)
 
-        if repr(self._unit) != repr(new_unit):
-            data = data * (_get_unit_scale(self._unit) /
-                           _get_unit_scale(new_unit))
+        scale = _get_unit_scale(self._unit)
+        new_scale = _get_unit_scale(new_unit)
+
+        if repr(self._unit) != repr(new_unit) or scale != new_scale:
+            data = data * (scale / new_scale)
 
         return Quantity(data, new_unit)
-- 
2.43.0


From ab95dbb620302785141645375b7bd5fdfd0cb5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 35/37] fix: give the dimension of powers and products of
 user-defined units

---
 celest/units/display.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index e645c44..300d277 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -89,7 +89,7 @@ def get_dimensions_from_unit(unit):
     dimensions = []
     dimension_powers = []
 
-    for base, power in zip(unit.bases, unit.powers):
+    for base, power in _fundamental_factors(unit):
         dimension = UNIT_TO_DIMENSION_DICTIONARY[base.short_name]
         if dimension in dimensions:
             dimension_index = dimensions.index(dimension)
@@ -104,3 +104,12 @@ def get_dimensions_from_unit(unit):
             dimension_powers.append(power)
 
     return dimensions, dimension_powers
+
+
+def _fundamental_factors(unit):
+    for base, power in zip(unit.bases, unit.powers):
+        if base.bases == [base]:
+            yield base, power
+        else:
+            for factor, factor_power in _fundamental_factors(base):
+                yield factor, factor_power * power
-- 
2.43.0


From b1519e6856ce8b0fac693d3847150be0811317d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:00 +0000
Subject: [PATCH 36/37] fix: a compound unit to the power zero has no factors
 and no dimension

---
 celest/units/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/units/core.py b/celest/units/core.py
index d20ee95..c32a307 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -271,6 +271,8 @@ class CompoundUnit(BaseUnit):
                 powers[index] = new_power
 
         for base, power in zip(self._bases, self._powers):
+            if power == 0:
+                continue
             if isinstance(base, CompoundUnit):
                 if base.scale != 1:
                     self._scale *= base.scale ** power
-- 
2.43.0


From 5aeab319c39ffcc1577fb26c6025199b575e94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:59 +0000
Subject: [PATCH 37/37] fix: a multiple of the dimensionless unit is not
 dropped from products

---
 celest/units/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index c32a307..89ec8d0 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -294,7 +294,7 @@ class CompoundUnit(BaseUnit):
         self._bases = bases
         self._powers = powers
 
-        self._is_unity = True if not len(self._bases) else False
+        self._is_unity = not len(self._bases) and self._scale == 1
 
     def is_unity(self) -> bool:
         return self._is_unity
-- 
2.43.0

