From 17d1b6b72498c8d64b19ac6cd6f022a460a2a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 01/28] fix: get_delta_t uses the last table entry for every
 date past the table

For years past the table the year was clamped but the month kept, so January
to March got the values of January to March of the last year in the table.
---
 pysolar/solartime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index 14e9f11..fd18f32 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -733,6 +733,7 @@ def get_delta_t(when) :
         month = max(0, month - delta_t_base_month) + 1
     elif year >= delta_t_base_year + len(delta_t) :
         year = delta_t_base_year + len(delta_t) - 1
+        month = 12
     #end if
     if year == delta_t_base_year + len(delta_t) - 1 :
         month = min(month, len(delta_t[year - delta_t_base_year]))
-- 
2.43.0


From 4b522bf0a1c05e51c0d4213434164694f5ea97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 02/28] fix: use_math restores the scalar where after use_numpy

---
 pysolar/numeric.py | 282 ++++++++++++++++++++++-----------------------
 1 file changed, 141 insertions(+), 141 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 112a59e..fa2aa87 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -1,141 +1,141 @@
-
-#    Copyright François Steinmetz
-#
-#    This file is part of Pysolar.
-#
-#    Pysolar is free software; you can redistribute it and/or modify
-#    it under the terms of the GNU General Public License as published by
-#    the Free Software Foundation; either version 3 of the License, or
-#    (at your option) any later version.
-#
-#    Pysolar is distributed in the hope that it will be useful,
-#    but WITHOUT ANY WARRANTY; without even the implied warranty of
-#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#    GNU General Public License for more details.
-#
-#    You should have received a copy of the GNU General Public License along
-#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
-
-
-"""
-Import math functions from either numpy (in order to vectorize operations) or
-builtins math module.
-
-By default, use numpy when available.
-
-To force builtins math module usage when numpy is available:
-    import pysolar
-    pysolar.use_math()
-"""
-
-from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
-
-current_mod = 'math'
-
-
-def globals_import_from(module, name, name_as):
-    """
-    Does "from <module> import <name> as <name_as>" (globally)
-    """
-    module = __import__(module, fromlist=[name])
-    globals()[name_as] = getattr(module, name)
-
-
-def where_math(condition, x, y):
-    """ scalar version of numpy.where """
-    if condition:
-        return x
-    else:
-        return y
-
-where = where_math
-
-
-def tm_yday_math(d):
-    return d.utctimetuple().tm_yday
-
-tm_yday = tm_yday_math
-
-
-def tm_yday_numpy(d):
-    dd = numpy.array(d, dtype='datetime64[D]')
-    dy = numpy.array(d, dtype='datetime64[Y]')
-    return (dd - dy).astype('int') + 1
-
-
-def tm_hour_math(d):
-    return d.utctimetuple().tm_hour
-
-tm_hour = tm_hour_math
-
-
-def tm_hour_numpy(d):
-    dh = numpy.array(d, dtype='datetime64[h]')
-    dd = numpy.array(d, dtype='datetime64[D]')
-    return (dh - dd).astype('int')
-
-
-def tm_min_math(d):
-    return d.utctimetuple().tm_min
-
-tm_min = tm_min_math
-
-
-def tm_min_numpy(d):
-    dm = numpy.array(d, dtype='datetime64[m]')
-    dh = numpy.array(d, dtype='datetime64[h]')
-    return (dm - dh).astype('int')
-
-
-def use_numpy():
-    """
-    Import required functions/constants from numpy
-    """
-    globals_import_from('numpy', 'degrees', 'degrees')
-    globals_import_from('numpy', 'cos', 'cos')
-    globals_import_from('numpy', 'sin', 'sin')
-    globals_import_from('numpy', 'radians', 'radians')
-    globals_import_from('numpy', 'tan', 'tan')
-    globals_import_from('numpy', 'pi', 'pi')
-    globals_import_from('numpy', 'arccos', 'acos')
-    globals_import_from('numpy', 'arctan', 'atan')
-    globals_import_from('numpy', 'arcsin', 'asin')
-    globals_import_from('numpy', 'arctan2', 'atan2')
-    globals_import_from('numpy', 'exp', 'exp')
-    globals_import_from('numpy', 'e', 'e')
-    globals_import_from('numpy', 'where', 'where')
-    globals()['tm_yday'] = tm_yday_numpy
-    globals()['tm_hour'] = tm_hour_numpy
-    globals()['tm_min'] = tm_min_numpy
-    globals()['current_mod'] = 'numpy'
-
-
-def use_math():
-    """
-    Import required functions/constants from builtins math module
-    """
-    globals_import_from('math', 'degrees', 'degrees')
-    globals_import_from('math', 'cos', 'cos')
-    globals_import_from('math', 'sin', 'sin')
-    globals_import_from('math', 'radians', 'radians')
-    globals_import_from('math', 'tan', 'tan')
-    globals_import_from('math', 'pi', 'pi')
-    globals_import_from('math', 'acos', 'acos')
-    globals_import_from('math', 'atan', 'atan')
-    globals_import_from('math', 'asin', 'asin')
-    globals_import_from('math', 'atan2', 'atan2')
-    globals_import_from('math', 'exp', 'exp')
-    globals_import_from('math', 'e', 'e')
-    globals()['where'] = where
-    globals()['tm_yday'] = tm_yday_math
-    globals()['tm_hour'] = tm_hour_math
-    globals()['tm_min'] = tm_min_math
-    globals()['current_mod'] = 'math'
-
-
-try:
-    import numpy
-    use_numpy()
-except ImportError:
-    pass
+
+#    Copyright François Steinmetz
+#
+#    This file is part of Pysolar.
+#
+#    Pysolar is free software; you can redistribute it and/or modify
+#    it under the terms of the GNU General Public License as published by
+#    the Free Software Foundation; either version 3 of the License, or
+#    (at your option) any later version.
+#
+#    Pysolar is distributed in the hope that it will be useful,
+#    but WITHOUT ANY WARRANTY; without even the implied warranty of
+#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#    GNU General Public License for more details.
+#
+#    You should have received a copy of the GNU General Public License along
+#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
+
+
+"""
+Import math functions from either numpy (in order to vectorize operations) or
+builtins math module.
+
+By default, use numpy when available.
+
+To force builtins math module usage when numpy is available:
+    import pysolar
+    pysolar.use_math()
+"""
+
+from math import degrees, cos, sin, radians, tan, pi
+from math import acos, atan, asin, atan2, exp, e
+
+current_mod = 'math'
+
+
+def globals_import_from(module, name, name_as):
+    """
+    Does "from <module> import <name> as <name_as>" (globally)
+    """
+    module = __import__(module, fromlist=[name])
+    globals()[name_as] = getattr(module, name)
+
+
+def where_math(condition, x, y):
+    """ scalar version of numpy.where """
+    if condition:
+        return x
+    else:
+        return y
+
+where = where_math
+
+
+def tm_yday_math(d):
+    return d.utctimetuple().tm_yday
+
+tm_yday = tm_yday_math
+
+
+def tm_yday_numpy(d):
+    dd = numpy.array(d, dtype='datetime64[D]')
+    dy = numpy.array(d, dtype='datetime64[Y]')
+    return (dd - dy).astype('int') + 1
+
+
+def tm_hour_math(d):
+    return d.utctimetuple().tm_hour
+
+tm_hour = tm_hour_math
+
+
+def tm_hour_numpy(d):
+    dh = numpy.array(d, dtype='datetime64[h]')
+    dd = numpy.array(d, dtype='datetime64[D]')
+    return (dh - dd).astype('int')
+
+
+def tm_min_math(d):
+    return d.utctimetuple().tm_min
+
+tm_min = tm_min_math
+
+
+def tm_min_numpy(d):
+    dm = numpy.array(d, dtype='datetime64[m]')
+    dh = numpy.array(d, dtype='datetime64[h]')
+    return (dm - dh).astype('int')
+
+
+def use_numpy():
+    """
+    Import required functions/constants from numpy
+    """
+    globals_import_from('numpy', 'degrees', 'degrees')
+    globals_import_from('numpy', 'cos', 'cos')
+    globals_import_from('numpy', 'sin', 'sin')
+    globals_import_from('numpy', 'radians', 'radians')
+    globals_import_from('numpy', 'tan', 'tan')
+    globals_import_from('numpy', 'pi', 'pi')
+    globals_import_from('numpy', 'arccos', 'acos')
+    globals_import_from('numpy', 'arctan', 'atan')
+    globals_import_from('numpy', 'arcsin', 'asin')
+    globals_import_from('numpy', 'arctan2', 'atan2')
+    globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'where', 'where')
+    globals()['tm_yday'] = tm_yday_numpy
+    globals()['tm_hour'] = tm_hour_numpy
+    globals()['tm_min'] = tm_min_numpy
+    globals()['current_mod'] = 'numpy'
+
+
+def use_math():
+    """
+    Import required functions/constants from builtins math module
+    """
+    globals_import_from('math', 'degrees', 'degrees')
+    globals_import_from('math', 'cos', 'cos')
+    globals_import_from('math', 'sin', 'sin')
+    globals_import_from('math', 'radians', 'radians')
+    globals_import_from('math', 'tan', 'tan')
+    globals_import_from('math', 'pi', 'pi')
+    globals_import_from('math', 'acos', 'acos')
+    globals_import_from('math', 'atan', 'atan')
+    globals_import_from('math', 'asin', 'asin')
+    globals_import_from('math', 'atan2', 'atan2')
+    globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'e', 'e')
+    globals()['where'] = where_math
+    globals()['tm_yday'] = tm_yday_math
+    globals()['tm_hour'] = tm_hour_math
+    globals()['tm_min'] = tm_min_math
+    globals()['current_mod'] = 'math'
+
+
+try:
+    import numpy
+    use_numpy()
+except ImportError:
+    pass
-- 
2.43.0


From 01b8df59002b25b7788afccdbfb716138ea2aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 03/28] fix: get_radiation_direct is zero just below the
 horizon, not NaN or OverflowError

---
 pysolar/radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 8783de0..1dbf8b6 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -46,6 +46,7 @@ def get_radiation_direct(when, altitude_deg):
     day = math.tm_yday(when)
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
-    air_mass_ratio = get_air_mass_ratio(altitude_deg)
+    # below the horizon the air mass is meaningless (and its exponential can overflow)
+    air_mass_ratio = get_air_mass_ratio(math.where(is_daytime, altitude_deg, 90.0))
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From 3787bcb258e53a25ef694d46c151221b78f72435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 04/28] fix: mean_earth_sun_distance divides the angle, not the
 sine, by 365

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 1b2fdd4..3473843 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -209,7 +209,7 @@ def mean_earth_sun_distance(when):
             radiation models, p.113
     """
 
-    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94)) / 365
+    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)
 
 @check_aware_dt('when')
 def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
-- 
2.43.0


From 1f41aeb859b0faca60a4d5577db9b1331d9bbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 05/28] fix: global_irradiance_clear passes on the caller's
 temperature, pressure and TL

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 3473843..0b1c765 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -573,12 +573,12 @@ def global_irradiance_clear(latitude_deg, longitude_deg, when,
 
     """
     DIRC =  direct_underclear(latitude_deg, longitude_deg, when,
-                              TY, AM, TL, elevation, temperature = constants.standard_temperature,
-                              pressure = constants.standard_pressure)
+                              TY, AM, TL, elevation, temperature = temperature,
+                              pressure = pressure)
 
     DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
-                               elevation, temperature = constants.standard_temperature, 
-                               pressure= constants.standard_pressure)
+                               elevation, temperature = temperature,
+                               pressure = pressure, TL = TL)
 
     ghic = (DIRC + DIFFC)
 
-- 
2.43.0


From 05103e5569397964cb8dd7f5607a840f91464f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 06/28] fix: take sines of the altitude in radians in the clear
 and overcast sky functions

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 0b1c765..9a3593a 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -318,7 +318,7 @@ def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature
 
     """
     altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
-    return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
+    return (0.038175 + (1.5458 * (math.sin(math.radians(altitude)))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * math.radians(altitude))))))
 
 @check_aware_dt('when')
 def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
@@ -362,7 +362,7 @@ def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
 
     """
     altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
-    return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))
+    return ((-0.0067133) + (0.78600 * (math.sin(math.radians(altitude))))) + (0.22401 * (0.5 * (1 - math.cos(2 * math.radians(altitude)))))
 
 
 def diffuse_transmittance(TL = TL_default):
@@ -518,9 +518,9 @@ def direct_underclear(latitude_deg, longitude_deg, when,
     DEC = declination_degree(when,TY)
 
     DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)
-                             ) * math.sin(solar.get_altitude(latitude_deg,longitude_deg,
+                             ) * math.sin(math.radians(solar.get_altitude(latitude_deg,longitude_deg,
                                                           when,elevation ,
-                                                          temperature , pressure )))
+                                                          temperature , pressure ))))
 
     return DIRC
 
-- 
2.43.0


From d0b268971802dab4bc673e8ab40f870e3625d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 07/28] fix: cubic term of the mean sidereal time (Meeus 12.4)

---
 pysolar/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 663d39b..4890541 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -264,7 +264,7 @@ def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right
 def get_mean_sidereal_time(jd):
     # This function doesn't agree with Andreas and Reda as well as it should. Works to ~5 sig figs in current unit test
     jc = stime.get_julian_century(jd)
-    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc * (1 - jc / 38710000)
+    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc - jc * jc * jc / 38710000
     return sidereal_time % 360
 
 def get_nutation(jce):
-- 
2.43.0


From 24ae6b0a31d75677839210dabe2ad16534d17959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 08/28] fix: numpy day, hour and minute of aware datetimes
 whose UTC offset has seconds

---
 pysolar/numeric.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index fa2aa87..c05fe0a 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -28,6 +28,7 @@ To force builtins math module usage when numpy is available:
     pysolar.use_math()
 """
 
+import datetime
 from math import degrees, cos, sin, radians, tan, pi
 from math import acos, atan, asin, atan2, exp, e
 
@@ -58,7 +59,18 @@ def tm_yday_math(d):
 tm_yday = tm_yday_math
 
 
+def utc_naive(d):
+    """
+    The UTC fields of an aware datetime, as a naive one; anything else unchanged.
+    (numpy does not support aware datetimes: it warns and drops the seconds of the UTC offset)
+    """
+    if isinstance(d, datetime.datetime) and d.tzinfo is not None:
+        d = d.astimezone(datetime.timezone.utc).replace(tzinfo=None)
+    return d
+
+
 def tm_yday_numpy(d):
+    d = utc_naive(d)
     dd = numpy.array(d, dtype='datetime64[D]')
     dy = numpy.array(d, dtype='datetime64[Y]')
     return (dd - dy).astype('int') + 1
@@ -71,6 +83,7 @@ tm_hour = tm_hour_math
 
 
 def tm_hour_numpy(d):
+    d = utc_naive(d)
     dh = numpy.array(d, dtype='datetime64[h]')
     dd = numpy.array(d, dtype='datetime64[D]')
     return (dh - dd).astype('int')
@@ -83,6 +96,7 @@ tm_min = tm_min_math
 
 
 def tm_min_numpy(d):
+    d = utc_naive(d)
     dm = numpy.array(d, dtype='datetime64[m]')
     dh = numpy.array(d, dtype='datetime64[h]')
     return (dm - dh).astype('int')
-- 
2.43.0


From 2c804fad82e46ee9bb7fe7ad2681869bcce1bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 09/28] fix: no domain error or NaN when rounding carries a
 sine or cosine past 1

get_azimuth_fast on the equator, get_incidence_angle of a surface facing the
sun, and the altitude of a sun in the zenith.
---
 pysolar/solar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 4890541..01f3dec 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -28,6 +28,11 @@ from . import radiation
 from .tzinfo_check import check_aware_dt
 
 
+def clamp_cosine(x):
+    "limits to [-1, 1] a sine or cosine which rounding may have carried just outside."
+    return math.where(x > 1.0, 1.0, math.where(x < -1.0, -1.0, x))
+
+
 def solar_test():
     latitude_deg = 42.364908
     longitude_deg = -71.112828
@@ -139,7 +144,7 @@ def get_altitude_fast(latitude_deg, longitude_deg, when):
     hour_angle = get_hour_angle(when, longitude_deg)
     first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
     second_term = math.sin(latitude_rad) * math.sin(declination_rad)
-    return math.degrees(math.asin(first_term + second_term))
+    return math.degrees(math.asin(clamp_cosine(first_term + second_term)))
 
 
 def get_apparent_sidereal_time(jd, jme, nutation):
@@ -170,7 +175,7 @@ def get_azimuth_fast(latitude_deg, longitude_deg, when):
     hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
     altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
 
-    azimuth_rad = math.asin(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad))
+    azimuth_rad = math.asin(clamp_cosine(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad)))
 
     return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                       (180 - math.degrees(azimuth_rad)),
@@ -256,7 +261,7 @@ def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topo
     slope_rad = math.radians(slope)
     so_rad = math.radians(slope_orientation)
     taa_rad = math.radians(topocentric_azimuth_angle)
-    return math.degrees(math.acos(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)))
+    return math.degrees(math.acos(clamp_cosine(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad))))
 
 def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
     return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360
@@ -369,7 +374,7 @@ def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topoc
     latitude_rad = math.radians(latitude)
     tsd_rad = math.radians(topocentric_sun_declination)
     tlha_rad = math.radians(topocentric_local_hour_angle)
-    return math.degrees(math.asin((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)))
+    return math.degrees(math.asin(clamp_cosine((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad))))
 
 def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
     return local_hour_angle - parallax_sun_right_ascension
-- 
2.43.0


From 73cea1ddf28c091f93f43a908507da983b35d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 10/28] fix: get_refraction_correction divides by zero at -5.11
 degrees

---
 pysolar/solar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 01f3dec..945144a 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -333,18 +333,20 @@ def get_refraction_correction(pressure, temperature, topocentric_elevation_angle
 
     sun_radius = 0.26667
     atmos_refract = 0.5667
-    tea = topocentric_elevation_angle
 
     # Approximation only valid if sun is not well below horizon
     # This approximation could be improved; see history at https://github.com/pingswept/pysolar/pull/23
     # Better method could come from Auer and Standish [2000]:
     # http://iopscience.iop.org/1538-3881/119/5/2472/pdf/1538-3881_119_5_2472.pdf
 
+    visible = topocentric_elevation_angle >= -1.0*(sun_radius + atmos_refract)
+    # keep clear of the pole of the formula at -5.11, where it is not used anyway
+    tea = math.where(visible, topocentric_elevation_angle, 0.)
+
     a = pressure * 2.830 * 1.02
     b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))
 
-    del_e = math.where(tea >= -1.0*(sun_radius + atmos_refract),
-                       a / b, 0.)
+    del_e = math.where(visible, a / b, 0.)
 
     return del_e
 
-- 
2.43.0


From 504554fca5dec46247138d28d9d24accbd33f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 11/28] fix: datetime_range accepts fractional step_minutes

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0f223b7..3bf00fc 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -29,7 +29,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range((span.days * constants.seconds_per_day + span.seconds) // step) :
+    for n in range(span // dt) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From ef2b928f4bed3c4d170a044647fb6ca6da9efb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 12/28] fix: simulate_span index error when the azimuth rounds
 to 360

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 3bf00fc..a6fbe52 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -48,7 +48,7 @@ def simulate_span(latitude_deg, longitude_deg, horizon, start_datetime, end_date
     for time in datetime_range(start_datetime, end_datetime, step_minutes) :
         alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
         azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
-        shade = horizon[round(azi)]
+        shade = horizon[round(azi) % len(horizon)]
         if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :
             rad = 0
         else :
-- 
2.43.0


From 943ac077eb6aa73e9cb74b1f2167237751f8699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 13/28] fix: get_sunrise_sunset_transit answers for the given
 day, also when its UTC offset changes

With longitudes given as 0..360, or where the local time is a day ahead of the
solar time (UTC+14 at 157 West), the answers were for another day; on the day of
a change of the UTC offset they were an hour off for some times of day.
---
 pysolar/util.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 9a3593a..ef2f093 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -29,7 +29,8 @@
 """
 from datetime import \
     datetime, \
-    timedelta
+    timedelta, \
+    timezone
 from . import numeric as math
 from . import solar, constants
 from .tzinfo_check import check_aware_dt
@@ -96,7 +97,7 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         utc_offset = 0
     #end if
     day = when.timetuple().tm_yday # Day of the year
-    SHA = utc_offset / 3600 * 15.0 - longitude_deg # Solar hour angle
+    SHA = (utc_offset / 3600 * 15.0 - longitude_deg + 180) % 360 - 180 # Solar hour angle, such that noon falls on the given day
     TT = 2 * math.pi * day / 366
     decl = \
         (
@@ -156,10 +157,11 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         *
             (12 / math.pi)
         )
-    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = when.tzinfo)
-    sunrise_time = same_day + timedelta(hours = TON - ha)
-    sunset_time = same_day + timedelta(hours = TON + ha)
-    transit_time = same_day + timedelta(hours = TON)
+    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
+    # convert back afterwards, in case utcoffset changes in the course of the day
+    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
+    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
+    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
     return sunrise_time, sunset_time, transit_time
 
 @check_aware_dt('when')
-- 
2.43.0


From 4b5f5a84378823411989d6d2cb1c954f68c6c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 14/28] fix: calls without the datetime raise TypeError as
 usual, not KeyError

---
 pysolar/tzinfo_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 2518672..7da747f 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -81,6 +81,8 @@ def check_aware_dt(*argnames):
           try:
             dt = args[full.args.index(argname)]
           except (IndexError, ValueError):
+            if argname not in kwargs:
+              continue    # missing: leave it to the call below to say so
             dt = kwargs[argname]
           # checking if dt is timezone-aware
           if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
-- 
2.43.0


From c6baf9d10be04562b4e2cbb83ac248a7cdeda236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:53 +0000
Subject: [PATCH 15/28] fix: provide the log that
 rest.get_effective_aerosol_wavelength needs

---
 pysolar/numeric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index c05fe0a..a2b7430 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -30,7 +30,7 @@ To force builtins math module usage when numpy is available:
 
 import datetime
 from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
+from math import acos, atan, asin, atan2, exp, log, e
 
 current_mod = 'math'
 
@@ -117,6 +117,7 @@ def use_numpy():
     globals_import_from('numpy', 'arcsin', 'asin')
     globals_import_from('numpy', 'arctan2', 'atan2')
     globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'log', 'log')
     globals_import_from('numpy', 'e', 'e')
     globals_import_from('numpy', 'where', 'where')
     globals()['tm_yday'] = tm_yday_numpy
@@ -140,6 +141,7 @@ def use_math():
     globals_import_from('math', 'asin', 'asin')
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'log', 'log')
     globals_import_from('math', 'e', 'e')
     globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
-- 
2.43.0


From a76f9ab25360bd31b1c7f3dc1235d165e6f3516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:53 +0000
Subject: [PATCH 16/28] fix: optical masses in rest, as printed in Gueymard
 2003

The parenthesis was misplaced and the zenith angle taken in radians, so that the
optical mass with the sun in the zenith was not 1 but about 3000.
---
 pysolar/rest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 7e39181..dbe8680 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -214,25 +214,25 @@ def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
 def get_optical_mass_rayleigh(altitude_deg, pressure_millibars):
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return (pressure_millibars / standard_pressure_millibars) / ((math.cos(Z_rad) + 0.48353 * Z_rad ** 0.095846) / (96.741 - Z_rad) ** 1.754)
+    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad) + 0.48353 * Z ** 0.095846 / (96.741 - Z) ** 1.754)
 
 
 def get_optical_mass_ozone(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 1.0651 * Z_rad ** 0.6379) / (101.8 - Z_rad) ** 2.2694)
+    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)
 
 
 def get_optical_mass_water(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.10648 * Z_rad ** 0.11423) / (93.781 - Z_rad) ** 1.9203)
+    return 1 / (math.cos(Z_rad) + 0.10648 * Z ** 0.11423 / (93.781 - Z) ** 1.9203)
 
 
 def get_optical_mass_aerosol(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.16851 * Z_rad ** 0.18198) / (95.318 - Z_rad) ** 1.9542)
+    return 1 / (math.cos(Z_rad) + 0.16851 * Z ** 0.18198 / (95.318 - Z) ** 1.9542)
 
 
 def get_ozone_transmittance(band, mo, uo):
-- 
2.43.0


From 36c4e9edf0c719645b621c3d9dbf873f06f1b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:53 +0000
Subject: [PATCH 17/28] fix: direct normal irradiance by band corrects for the
 pressure once, not twice

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index dbe8680..5fc884c 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -135,7 +135,7 @@ def get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars=
     ma = get_optical_mass_aerosol(altitude_deg)
     mo = get_optical_mass_ozone(altitude_deg)
     mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)
-    mRprime = mR * pressure_millibars / standard_pressure_millibars
+    mRprime = mR  # get_optical_mass_rayleigh already corrects for the pressure
     mw = get_optical_mass_water(altitude_deg)
 
     effective_wavelength = get_effective_aerosol_wavelength(
-- 
2.43.0


From d2e83848c0892835a218d4752bda7095991adc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:15 +0000
Subject: [PATCH 18/28] fix: get_azimuth_fast checks its datetime before using
 it, like the other functions

---
 pysolar/solar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 945144a..7d75566 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -167,6 +167,7 @@ def get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):
     return azimuth
 
 
+@check_aware_dt('when')
 def get_azimuth_fast(latitude_deg, longitude_deg, when):
 # expect 230 degrees for solar.get_azimuth(42.364908,-71.112828,datetime.datetime(2007, 2, 18, 20, 18, 0, 0))
     day = math.tm_yday(when)
-- 
2.43.0


From a5eada85a44a73785114b7a7ef43c8fcf516e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 19/28] fix: get_nitrogen_transmittance uses the amount of
 nitrogen dioxide it is given

---
 pysolar/rest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 5fc884c..0c64d78 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -199,6 +199,7 @@ def get_ground_albedo(band):
 
 
 def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
+    un = nitrogen_atm_cm
     if band == "high-frequency":
         g1 = (0.17499 + 41.654 * un - 2146.4 * un ** 2) / \
             (1 + 22295.0 * un ** 2)
-- 
2.43.0


From 4ca579ce56671854f31ec67d5764a8954b6814fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 20/28] fix: restore the CRLF line endings of numeric.py, lost
 in the repair of use_math

---
 pysolar/numeric.py | 314 ++++++++++++++++++++++-----------------------
 1 file changed, 157 insertions(+), 157 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index a2b7430..f87e736 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -1,157 +1,157 @@
-
-#    Copyright François Steinmetz
-#
-#    This file is part of Pysolar.
-#
-#    Pysolar is free software; you can redistribute it and/or modify
-#    it under the terms of the GNU General Public License as published by
-#    the Free Software Foundation; either version 3 of the License, or
-#    (at your option) any later version.
-#
-#    Pysolar is distributed in the hope that it will be useful,
-#    but WITHOUT ANY WARRANTY; without even the implied warranty of
-#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#    GNU General Public License for more details.
-#
-#    You should have received a copy of the GNU General Public License along
-#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
-
-
-"""
-Import math functions from either numpy (in order to vectorize operations) or
-builtins math module.
-
-By default, use numpy when available.
-
-To force builtins math module usage when numpy is available:
-    import pysolar
-    pysolar.use_math()
-"""
-
-import datetime
-from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, log, e
-
-current_mod = 'math'
-
-
-def globals_import_from(module, name, name_as):
-    """
-    Does "from <module> import <name> as <name_as>" (globally)
-    """
-    module = __import__(module, fromlist=[name])
-    globals()[name_as] = getattr(module, name)
-
-
-def where_math(condition, x, y):
-    """ scalar version of numpy.where """
-    if condition:
-        return x
-    else:
-        return y
-
-where = where_math
-
-
-def tm_yday_math(d):
-    return d.utctimetuple().tm_yday
-
-tm_yday = tm_yday_math
-
-
-def utc_naive(d):
-    """
-    The UTC fields of an aware datetime, as a naive one; anything else unchanged.
-    (numpy does not support aware datetimes: it warns and drops the seconds of the UTC offset)
-    """
-    if isinstance(d, datetime.datetime) and d.tzinfo is not None:
-        d = d.astimezone(datetime.timezone.utc).replace(tzinfo=None)
-    return d
-
-
-def tm_yday_numpy(d):
-    d = utc_naive(d)
-    dd = numpy.array(d, dtype='datetime64[D]')
-    dy = numpy.array(d, dtype='datetime64[Y]')
-    return (dd - dy).astype('int') + 1
-
-
-def tm_hour_math(d):
-    return d.utctimetuple().tm_hour
-
-tm_hour = tm_hour_math
-
-
-def tm_hour_numpy(d):
-    d = utc_naive(d)
-    dh = numpy.array(d, dtype='datetime64[h]')
-    dd = numpy.array(d, dtype='datetime64[D]')
-    return (dh - dd).astype('int')
-
-
-def tm_min_math(d):
-    return d.utctimetuple().tm_min
-
-tm_min = tm_min_math
-
-
-def tm_min_numpy(d):
-    d = utc_naive(d)
-    dm = numpy.array(d, dtype='datetime64[m]')
-    dh = numpy.array(d, dtype='datetime64[h]')
-    return (dm - dh).astype('int')
-
-
-def use_numpy():
-    """
-    Import required functions/constants from numpy
-    """
-    globals_import_from('numpy', 'degrees', 'degrees')
-    globals_import_from('numpy', 'cos', 'cos')
-    globals_import_from('numpy', 'sin', 'sin')
-    globals_import_from('numpy', 'radians', 'radians')
-    globals_import_from('numpy', 'tan', 'tan')
-    globals_import_from('numpy', 'pi', 'pi')
-    globals_import_from('numpy', 'arccos', 'acos')
-    globals_import_from('numpy', 'arctan', 'atan')
-    globals_import_from('numpy', 'arcsin', 'asin')
-    globals_import_from('numpy', 'arctan2', 'atan2')
-    globals_import_from('numpy', 'exp', 'exp')
-    globals_import_from('numpy', 'log', 'log')
-    globals_import_from('numpy', 'e', 'e')
-    globals_import_from('numpy', 'where', 'where')
-    globals()['tm_yday'] = tm_yday_numpy
-    globals()['tm_hour'] = tm_hour_numpy
-    globals()['tm_min'] = tm_min_numpy
-    globals()['current_mod'] = 'numpy'
-
-
-def use_math():
-    """
-    Import required functions/constants from builtins math module
-    """
-    globals_import_from('math', 'degrees', 'degrees')
-    globals_import_from('math', 'cos', 'cos')
-    globals_import_from('math', 'sin', 'sin')
-    globals_import_from('math', 'radians', 'radians')
-    globals_import_from('math', 'tan', 'tan')
-    globals_import_from('math', 'pi', 'pi')
-    globals_import_from('math', 'acos', 'acos')
-    globals_import_from('math', 'atan', 'atan')
-    globals_import_from('math', 'asin', 'asin')
-    globals_import_from('math', 'atan2', 'atan2')
-    globals_import_from('math', 'exp', 'exp')
-    globals_import_from('math', 'log', 'log')
-    globals_import_from('math', 'e', 'e')
-    globals()['where'] = where_math
-    globals()['tm_yday'] = tm_yday_math
-    globals()['tm_hour'] = tm_hour_math
-    globals()['tm_min'] = tm_min_math
-    globals()['current_mod'] = 'math'
-
-
-try:
-    import numpy
-    use_numpy()
-except ImportError:
-    pass
+
+#    Copyright François Steinmetz
+#
+#    This file is part of Pysolar.
+#
+#    Pysolar is free software; you can redistribute it and/or modify
+#    it under the terms of the GNU General Public License as published by
+#    the Free Software Foundation; either version 3 of the License, or
+#    (at your option) any later version.
+#
+#    Pysolar is distributed in the hope that it will be useful,
+#    but WITHOUT ANY WARRANTY; without even the implied warranty of
+#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#    GNU General Public License for more details.
+#
+#    You should have received a copy of the GNU General Public License along
+#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
+
+
+"""
+Import math functions from either numpy (in order to vectorize operations) or
+builtins math module.
+
+By default, use numpy when available.
+
+To force builtins math module usage when numpy is available:
+    import pysolar
+    pysolar.use_math()
+"""
+
+import datetime
+from math import degrees, cos, sin, radians, tan, pi
+from math import acos, atan, asin, atan2, exp, log, e
+
+current_mod = 'math'
+
+
+def globals_import_from(module, name, name_as):
+    """
+    Does "from <module> import <name> as <name_as>" (globally)
+    """
+    module = __import__(module, fromlist=[name])
+    globals()[name_as] = getattr(module, name)
+
+
+def where_math(condition, x, y):
+    """ scalar version of numpy.where """
+    if condition:
+        return x
+    else:
+        return y
+
+where = where_math
+
+
+def tm_yday_math(d):
+    return d.utctimetuple().tm_yday
+
+tm_yday = tm_yday_math
+
+
+def utc_naive(d):
+    """
+    The UTC fields of an aware datetime, as a naive one; anything else unchanged.
+    (numpy does not support aware datetimes: it warns and drops the seconds of the UTC offset)
+    """
+    if isinstance(d, datetime.datetime) and d.tzinfo is not None:
+        d = d.astimezone(datetime.timezone.utc).replace(tzinfo=None)
+    return d
+
+
+def tm_yday_numpy(d):
+    d = utc_naive(d)
+    dd = numpy.array(d, dtype='datetime64[D]')
+    dy = numpy.array(d, dtype='datetime64[Y]')
+    return (dd - dy).astype('int') + 1
+
+
+def tm_hour_math(d):
+    return d.utctimetuple().tm_hour
+
+tm_hour = tm_hour_math
+
+
+def tm_hour_numpy(d):
+    d = utc_naive(d)
+    dh = numpy.array(d, dtype='datetime64[h]')
+    dd = numpy.array(d, dtype='datetime64[D]')
+    return (dh - dd).astype('int')
+
+
+def tm_min_math(d):
+    return d.utctimetuple().tm_min
+
+tm_min = tm_min_math
+
+
+def tm_min_numpy(d):
+    d = utc_naive(d)
+    dm = numpy.array(d, dtype='datetime64[m]')
+    dh = numpy.array(d, dtype='datetime64[h]')
+    return (dm - dh).astype('int')
+
+
+def use_numpy():
+    """
+    Import required functions/constants from numpy
+    """
+    globals_import_from('numpy', 'degrees', 'degrees')
+    globals_import_from('numpy', 'cos', 'cos')
+    globals_import_from('numpy', 'sin', 'sin')
+    globals_import_from('numpy', 'radians', 'radians')
+    globals_import_from('numpy', 'tan', 'tan')
+    globals_import_from('numpy', 'pi', 'pi')
+    globals_import_from('numpy', 'arccos', 'acos')
+    globals_import_from('numpy', 'arctan', 'atan')
+    globals_import_from('numpy', 'arcsin', 'asin')
+    globals_import_from('numpy', 'arctan2', 'atan2')
+    globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'log', 'log')
+    globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'where', 'where')
+    globals()['tm_yday'] = tm_yday_numpy
+    globals()['tm_hour'] = tm_hour_numpy
+    globals()['tm_min'] = tm_min_numpy
+    globals()['current_mod'] = 'numpy'
+
+
+def use_math():
+    """
+    Import required functions/constants from builtins math module
+    """
+    globals_import_from('math', 'degrees', 'degrees')
+    globals_import_from('math', 'cos', 'cos')
+    globals_import_from('math', 'sin', 'sin')
+    globals_import_from('math', 'radians', 'radians')
+    globals_import_from('math', 'tan', 'tan')
+    globals_import_from('math', 'pi', 'pi')
+    globals_import_from('math', 'acos', 'acos')
+    globals_import_from('math', 'atan', 'atan')
+    globals_import_from('math', 'asin', 'asin')
+    globals_import_from('math', 'atan2', 'atan2')
+    globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'log', 'log')
+    globals_import_from('math', 'e', 'e')
+    globals()['where'] = where_math
+    globals()['tm_yday'] = tm_yday_math
+    globals()['tm_hour'] = tm_hour_math
+    globals()['tm_min'] = tm_min_math
+    globals()['current_mod'] = 'math'
+
+
+try:
+    import numpy
+    use_numpy()
+except ImportError:
+    pass
-- 
2.43.0


From ca690b0a4102a4d4eb8c8cc4d5d4492a83620a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:33 +0000
Subject: [PATCH 21/28] fix: util.pyi declares the parameters of
 extraterrestrial_irrad, direct_underclear, global_irradiance_clear and
 clear_index in their order, and numpy types only

---
 pysolar/util.pyi | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysolar/util.pyi b/pysolar/util.pyi
index 5f333ca..732e9f7 100644
--- a/pysolar/util.pyi
+++ b/pysolar/util.pyi
@@ -16,15 +16,15 @@ def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.date
 def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
-def extraterrestrial_irrad(when:datetime.datetime, latitude_deg:float, longitude_deg:float, SC:float = ...) -> float: ...
+def extraterrestrial_irrad(latitude_deg:float, longitude_deg:float, when:datetime.datetime, SC:float = ...) -> float: ...
 def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
 def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
 def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def diffuse_transmittance(TL:float = ...) -> float: ...
 def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
 def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
-def global_irradiance_clear(DIRC, DIFFC, latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
+def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
-def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], when:datetime.datetime, latitude_deg:float, longitude_deg:float) -> float: ...
+def diffuse_ratio(DIFF_data:Union[numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.ndarray,numpy.generic,float,int]) -> float: ...
+def clear_index(ghi_data:Union[numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-- 
2.43.0


From 890feee0fc157c3e7fa2669461f08b9fdf0e9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 22/28] fix: the stub of the package declares use_numpy and
 use_math

---
 pysolar/__init__.pyi | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysolar/__init__.pyi b/pysolar/__init__.pyi
index 34d207e..7809111 100644
--- a/pysolar/__init__.pyi
+++ b/pysolar/__init__.pyi
@@ -1 +1,4 @@
 # Stubs for pysolar (Python 3.6)
+
+def use_numpy() -> None: ...
+def use_math() -> None: ...
-- 
2.43.0


From dfd48bba76affc3c2a45782705417f1d24fcbf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 23/28] fix: solar.pyi declares nutations as the dictionaries
 they are, get_coeff's tables and get_topocentric_position

---
 pysolar/solar.pyi | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index 93b1b92..ed2d652 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -1,18 +1,18 @@
 # Stubs for pysolar.solar (Python 3.6)
 
 import datetime
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 def solar_test() -> None: ...
 def equation_of_time(day:int) -> float: ...
 def get_aberration_correction(sun_earth_distance:float) -> float: ...
 def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_apparent_sidereal_time(jd:float, jme:float, nutation_float) -> float: ...
-def get_apparent_sun_longitude(geocentric_longitude:float, nutation:float, ab_correction:float) -> float: ...
+def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str,float]) -> float: ...
+def get_apparent_sun_longitude(geocentric_longitude:float, nutation:Dict[str,float], ab_correction:float) -> float: ...
 def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
 def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_coeff(jme:float, coeffs:List[List[float]]) -> float: ...
+def get_coeff(jme:float, coeffs:List[List[Tuple[float, float, float]]]) -> float: ...
 def get_declination(day:int) -> float: ...
 def get_equatorial_horizontal_parallax(sun_earth_distance:float) -> float: ...
 def get_flattened_latitude(latitude:float) -> float: ...
@@ -26,7 +26,7 @@ def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
 def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
 def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
 def get_mean_sidereal_time(jd:float) -> float: ...
-def get_nutation(jce:float) -> float: ...
+def get_nutation(jce:float) -> Dict[str,float]: ...
 def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
 def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
 def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
@@ -37,7 +37,8 @@ def get_solar_time(longitude_deg:float, when:datetime.datetime) -> float: ...
 def get_topocentric_azimuth_angle(topocentric_local_hour_angle:float, latitude:float, topocentric_sun_declination:float) -> float: ...
 def get_topocentric_elevation_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float) -> float: ...
 def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_ascension:float) -> float: ...
+def get_topocentric_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> Tuple[float, float]: ...
 def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
 def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
 def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
-def get_true_ecliptic_obliquity(jme:float, nutation:float) -> float: ...
+def get_true_ecliptic_obliquity(jme:float, nutation:Dict[str,float]) -> float: ...
-- 
2.43.0


From 2799658d4e8671c76f61ea10a67272c7f55f806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 24/28] fix: constants.pyi declares the aberration coefficients
 as the functions they are

---
 pysolar/constants.pyi | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysolar/constants.pyi b/pysolar/constants.pyi
index a6b8780..a3586ac 100644
--- a/pysolar/constants.pyi
+++ b/pysolar/constants.pyi
@@ -1,10 +1,10 @@
 # Stubs for pysolar.constants (Python 3.6)
 
-from typing import Dict, List, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 
-aberration_coeffs: Dict[str,float]
+aberration_coeffs: Optional[Dict[str,Callable[[float],float]]]
 
-def get_aberration_coeffs() -> Dict[str,float]: ...
+def get_aberration_coeffs() -> Dict[str,Callable[[float],float]]: ...
 
 earth_radius: float
 earth_axis_inclination: float
-- 
2.43.0


From 0ea1d20570b20fce1dec76ac72ba67eb19127e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 25/28] fix: solar.pyi declares radiation, which the
 documentation's example gets from solar

---
 pysolar/solar.pyi | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index ed2d652..c8ad29b 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -2,6 +2,7 @@
 
 import datetime
 from typing import Dict, List, Tuple
+from . import radiation as radiation
 
 def solar_test() -> None: ...
 def equation_of_time(day:int) -> float: ...
-- 
2.43.0


From 9c1cc8610b0260f5edb937613ea00c18fbbe7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:08 +0000
Subject: [PATCH 26/28] fix: check_aware_dt sees the parameters of a function
 which is decorated already

---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 7da747f..c7a75a9 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -74,7 +74,7 @@ def check_aware_dt(*argnames):
         we just checked the values of args from argnames before"""
       for argname in argnames:
         # first checking if argname is a valid arg name
-        full = inspect.getfullargspec(func)
+        full = inspect.getfullargspec(inspect.unwrap(func))
         if (argname in full.args or
             argname in full.kwonlyargs):
           # getting value given for argname
-- 
2.43.0


From 877b55d37f8ecffe4f838f05a24f28208eca5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:42 +0000
Subject: [PATCH 27/28] fix: check_aware_dt refuses datetimes whose zone has no
 offset, and times of day

---
 pysolar/tzinfo_check.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index c7a75a9..ef4a7a2 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -86,11 +86,11 @@ def check_aware_dt(*argnames):
             dt = kwargs[argname]
           # checking if dt is timezone-aware
           if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
-            if not hasattr(dt, 'tzinfo'):
+            if not hasattr(dt, 'utctimetuple'): # neither a date nor a time of day has it
               raise ValueError(
                 "Expected a 'datetime.datetime' object \
     for arg '%s', got %s instead" % (argname, dt))
-            if dt.tzinfo is None:
+            if dt.utcoffset() is None: # no tzinfo, or one without an offset: naive either way
               raise NoTimeZoneInfoError(argname, dt)
       return func(*args, **kwargs)
     return func_with_check
-- 
2.43.0


From 9ca08f0e527e70b43a6b75d949eee8217f63ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:57 +0000
Subject: [PATCH 28/28] fix: NoTimeZoneInfoError can be copied and pickled, so
 that it arrives from other processes

---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index ef4a7a2..18dff18 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -7,7 +7,7 @@ class NoTimeZoneInfoError(ValueError):
   def __init__(self, argname, dt, *args):
     self.argname = argname
     self.dt = dt
-    super().__init__(*args)
+    super().__init__(argname, dt, *args)
 
   def __str__(self):
     return """datetime value '{dt}' given for arg '{argname}' \
-- 
2.43.0

