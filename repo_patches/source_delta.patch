From 0648aa2fc38bd1e5620be4ac6f4ac784d94aea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 01/22] fix: keep the time zone of zoneinfo, fixed-offset and
 dateutil aware times

Sunpos only honoured pytz time zones. With any other tzinfo (the pandas 3
default is zoneinfo) the local wall clock was relabelled as UTC, so times_utc,
true_solar_time, sunrise, sunset and incidence referred to a wrong instant.
pytz times within a DST fold raised an error.
---
 src/sunwhere/_base.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..4df2821 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -53,23 +53,22 @@ class Sunpos:
         # when dealing with timezone-aware times. Hence, first I use
         # pd.to_datetime to retain the timezone of the input times (if
         # timezone-aware) or assume UTC if the input times are naive. Then, I
-        # convert to a numpy array of datetime64[ns] with ndmin=1, but de-localizing
-        # the times to prevent numpy complains. Afterwards, I convert back to
-        # pandas using again pd.to_datetime and localize
+        # convert to UTC, where the wall clock is never ambiguous, and de-localize
+        # to make a numpy array of datetime64[ns] with ndmin=1. Afterwards, I
+        # convert back to pandas using again pd.to_datetime, localize to UTC and
+        # recover the original timezone
         _times = pd.to_datetime(times)
+        _timezone = 'UTC' if _times.tz is None else _times.tz
 
-        if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
+        if _times.tz is not None:
+            _times = _times.tz_convert('UTC').tz_localize(None)
 
-        self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
+        self._times_utc = pd.to_datetime(
+            np.array(_times, ndmin=1, dtype='datetime64[ns]')
+        ).tz_localize('UTC')
 
-        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
+        self._times = self._times_utc.tz_convert(_timezone)
+        self._timezone = str(self._times.tz)
 
         self._latitude = np.array(latitude, ndmin=1)
         self._longitude = np.array(longitude, ndmin=1)
-- 
2.43.0


From d6ec9a803ec87417fe3f9b345fc332075adef68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 02/22] fix: sunset angle in deg and rad raised
 UnboundLocalError

---
 src/sunwhere/_base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 4df2821..abc234c 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -516,11 +516,9 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        else:
+            # the sunset hour angle is symmetric to the sunrise hour angle
+            wss = -self.sunrise(units)
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From a4e5effcedcfe57d8b80d0c9b97b7ea3c7ea1710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 03/22] fix: raise the documented ValueError for unknown
 sunrise/sunset units

---
 src/sunwhere/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index abc234c..5b69fc5 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -440,7 +440,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units `{units}`')
 
         tanlat = np.tan(np.radians(self.latitude))
         tandec = np.tan(np.radians(self.declination))
@@ -509,7 +510,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units `{units}`')
 
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise(units)
-- 
2.43.0


From 858daff141928973987a98a526fe5e76f3e8d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 04/22] fix: equation of time lookup in the true solar time
 conversions

evaluate returns a dict: universal_time_coordinated and true_solar_time
always raised AttributeError.
---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From 54e90b2d13f888d0ef04ffacafc2ccb3a8a324e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 05/22] fix: empty or all-NaT times with the nrel algorithm

---
 src/sunwhere/_core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index 155328c..fb28274 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -156,7 +156,12 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
     logger.debug(f'running simulation with funtion {namespace}')
-    result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    if n_times > 0:
+        result = spa_func(times_nonat, lons_nonat, lats_nonat, *spa_args)
+    else:  # there are no valid times (empty, or all NaT): nothing to compute
+        result = {'zenith': np.empty(out_shape), 'azimuth': np.empty(out_shape),
+                  'ecf': np.empty(n_times), 'eot': np.empty(n_times),
+                  'declination': np.empty(n_times)}
 
     # fill with NaN where times is NaT...
     nonat = ~np.isnat(times_utc)
-- 
2.43.0


From a6fbbd7cdd9a8ca14ca0b0c654415ddf4aec2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 06/22] fix: truthy refraction values other than True were
 ignored

The algorithms test `with_refraction is True`, so numpy booleans (or 1)
silently disabled the refraction correction.
---
 src/sunwhere/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_core.py b/src/sunwhere/_core.py
index fb28274..409d037 100644
--- a/src/sunwhere/_core.py
+++ b/src/sunwhere/_core.py
@@ -151,7 +151,7 @@ def evaluate(times, latitude, longitude, algorithm='psa', ndim=1,
 
     # load function to compute solar position...
     spa_func = __ALGORITHMS__.get(algorithm).get(engine).sunpos
-    spa_args = [ndim, refraction]
+    spa_args = [ndim, bool(refraction)]
 
     # ... and call it
     namespace = spa_func.__module__ + '.' + spa_func.__name__
-- 
2.43.0


From c06757e63f3dbe15d18d6f1eb4fcaf595cc0364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:33 +0000
Subject: [PATCH 07/22] fix: nutation coefficients scale with the ephemeris
 century in SPA

---
 src/sunwhere/libspa/ne_nrel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 4d0c475..8351c9d 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -86,6 +86,7 @@ def time_dependent_calculations(unixtime):
 
     # julian ephemeris century
     jce = nex('(jde - 2451545) / 36525')
+    jce_ = jce[None, :]
 
     # julian ephemeris millenium
     jme = nex('jce / 10')
@@ -132,7 +133,7 @@ def time_dependent_calculations(unixtime):
     # longitude nutation
     delta_psi = np.sum(
         nex(
-            '(C_NUT_A + C_NUT_B*jme_)*'
+            '(C_NUT_A + C_NUT_B*jce_)*'
             'sin('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
@@ -144,7 +145,7 @@ def time_dependent_calculations(unixtime):
     # obliquity nutation
     delta_eps = np.sum(
         nex(
-            '(C_NUT_C + C_NUT_D*jme_)*'
+            '(C_NUT_C + C_NUT_D*jce_)*'
             'cos('
             '  (C_NUT_Y_0*x0_ + C_NUT_Y_1*x1_ + '
             '   C_NUT_Y_2*x2_ + C_NUT_Y_3*x3_ + '
-- 
2.43.0


From ba5473a3943641a0a7e6cae33675f9e2e69bbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 08/22] fix: NaN zenith when round-off pushes the cosine out of
 [-1, 1]

With the sun at zenith or nadir, arccos/arcsin received values slightly out
of bounds.
---
 src/sunwhere/libspa/ne_iqbal.py    | 12 +++++++++---
 src/sunwhere/libspa/ne_nrel.py     | 12 +++++++++---
 src/sunwhere/libspa/ne_psa.py      | 12 +++++++++---
 src/sunwhere/libspa/ne_soltrack.py |  9 ++++++---
 src/sunwhere/libspa/py_iqbal.py    | 12 +++++++++---
 src/sunwhere/libspa/py_soltrack.py |  9 ++++++---
 6 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..4f957e4 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosZen = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    sza_rad = nex('arccos(where(cosZen > 1., 1., where(cosZen < -1., -1., cosZen)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +205,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosZen = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    sza_rad = nex('arccos(where(cosZen > 1., 1., where(cosZen < -1., -1., cosZen)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +269,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    cosZen = nex('sinDecl*sinLat + cosDecl*cosLat*cosHour')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    sza_rad = nex('arccos(where(cosZen > 1., 1., where(cosZen < -1., -1., cosZen)))')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 8351c9d..6c24385 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -228,7 +228,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp))')
+    sin_e = nex('sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp)')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    e = nex('arcsin(where(sin_e > 1., 1., where(sin_e < -1., -1., sin_e)))')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -281,7 +283,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    e = nex('arcsin(where(sin_e > 1., 1., where(sin_e < -1., -1., sin_e)))')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -334,7 +338,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    sin_e = nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    e = nex('arcsin(where(sin_e > 1., 1., where(sin_e < -1., -1., sin_e)))')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index e5ba0f3..fb172f3 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -127,7 +127,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(delta)')
     tandec = nex('tan(delta)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = nex('coslat*coshour*cosdec + sindec*sinlat')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    zenith = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -169,7 +171,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')  # radians
+    cosz = nex('coslat*coshour*cosdec + sindec*sinlat')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    zenith = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -211,7 +215,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    cosz = nex('coslat*coshour*cosdec + sindec*sinlat')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    zenith = nex('arccos(where(cosz > 1., 1., where(cosz < -1., -1., cosz)))')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..b099112 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -147,7 +147,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    alt_uncorr = nex('arcsin(where(sin_alt > 1., 1., where(sin_alt < -1., -1., sin_alt)))')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')      # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -182,7 +183,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    alt_uncorr = nex('arcsin(where(sin_alt > 1., 1., where(sin_alt < -1., -1., sin_alt)))')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
@@ -218,7 +220,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
-    alt_uncorr = nex('arcsin(sin_alt)')
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    alt_uncorr = nex('arcsin(where(sin_alt > 1., 1., where(sin_alt < -1., -1., sin_alt)))')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..8e73ec8 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    cosZen = sinDecl*sinLat + cosDecl*cosLat*cosHour
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    sza_rad = np.arccos(np.clip(cosZen, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +200,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    cosZen = sinDecl*sinLat + cosDecl*cosLat*cosHour
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    sza_rad = np.arccos(np.clip(cosZen, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +263,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    cosZen = sinDecl*sinLat + cosDecl*cosLat*cosHour
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    sza_rad = np.arccos(np.clip(cosZen, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..0190113 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +189,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +238,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From ad0c9f81fb2871426af2e2ea42e6a77ee35c344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 09/22] fix: zenith of psa-numpy was quantized by rounding its
 cosine

Rounding cos(zenith) to 6 decimals, used to avoid arccos out of domain, shifts
the zenith angle by up to 0.08 degrees when the sun is close to zenith or nadir.
---
 src/sunwhere/libspa/py_psa.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/libspa/py_psa.py b/src/sunwhere/libspa/py_psa.py
index 87fc09c..12871b0 100644
--- a/src/sunwhere/libspa/py_psa.py
+++ b/src/sunwhere/libspa/py_psa.py
@@ -129,7 +129,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta)
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -173,7 +174,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
@@ -218,7 +220,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tandec = np.tan(delta[:, None, None])
 
     acos_zenith = coslat*coshour*cosdec + sindec*sinlat
-    zenith = np.arccos(np.round(acos_zenith, 6))  # radians
+    # round-off may exceed the bounds when the sun is at zenith or nadir
+    zenith = np.arccos(np.clip(acos_zenith, -1., 1.))  # radians
     zenith = zenith + EMRAU * np.sin(zenith)  # parallax correction
 
     if with_refraction is True:
-- 
2.43.0


From f2f0408bb532fc911159e5d59d5bf591952e2437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 10/22] fix: singular soltrack refraction with the sun below
 the horizon

Around 5 degrees below the horizon the refraction formula is singular and the
zenith angle became arbitrary, even out of [0, 180].
---
 src/sunwhere/libspa/ne_soltrack.py | 15 ++++++++++++---
 src/sunwhere/libspa/py_soltrack.py | 12 +++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index b099112..e5e0eed 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -153,7 +153,10 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # (Eq 27 is singular below the horizon: as in NREL's SPA, it is
+        # only applied when part of the sun's disk may be visible)
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
@@ -189,7 +192,10 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # (Eq 27 is singular below the horizon: as in NREL's SPA, it is
+        # only applied when part of the sun's disk may be visible)
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
@@ -226,7 +232,10 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # (Eq 27 is singular below the horizon: as in NREL's SPA, it is
+        # only applied when part of the sun's disk may be visible)
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 0190113..b3e2b2f 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -147,8 +147,10 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
+        # (Eq 27 is singular below the horizon: as in NREL's SPA, it is
+        # only applied when part of the sun's disk may be visible)
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -196,8 +198,10 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
+        # (Eq 27 is singular below the horizon: as in NREL's SPA, it is
+        # only applied when part of the sun's disk may be visible)
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -245,8 +249,10 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
+        # (Eq 27 is singular below the horizon: as in NREL's SPA, it is
+        # only applied when part of the sun's disk may be visible)
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From cc0367952c864a5389c9eae00b0d5ae22f39bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 11/22] fix: iqbal refraction with the sun below the horizon or
 at zenith

The correction reached 1.5 degrees below the horizon, where there is no
visible sun, and made the zenith angle exceed [0, 180] at zenith and nadir.
---
 src/sunwhere/libspa/ne_iqbal.py | 15 ++++++++++++---
 src/sunwhere/libspa/py_iqbal.py | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index 4f957e4..4451908 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -155,7 +155,10 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # (as in NREL's SPA, only applied when part of the sun's disk may be
+        # visible, and the sun is not lifted beyond the zenith)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -218,7 +221,10 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # (as in NREL's SPA, only applied when part of the sun's disk may be
+        # visible, and the sun is not lifted beyond the zenith)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -282,7 +288,10 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # (as in NREL's SPA, only applied when part of the sun's disk may be
+        # visible, and the sun is not lifted beyond the zenith)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index 8e73ec8..18e052d 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -151,7 +151,10 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # (as in NREL's SPA, only applied when part of the sun's disk may be
+        # visible, and the sun is not lifted beyond the zenith)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -212,7 +215,10 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # (as in NREL's SPA, only applied when part of the sun's disk may be
+        # visible, and the sun is not lifted beyond the zenith)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -275,7 +281,10 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # (as in NREL's SPA, only applied when part of the sun's disk may be
+        # visible, and the sun is not lifted beyond the zenith)
+        alpha = np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
+        sza_rad = HALFPI - alpha
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From ed0fca7252bdf095c23804b201e0ffa136bbd25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 12/22] fix: times out of the nanosecond range were silently
 wrapped

The nrel algorithm is documented for the years -2000 to 6000, but the times of
the outputs wrapped around the datetime64[ns] bounds (years 1678 to 2262).
Microseconds are used only when the times do not fit in nanoseconds.
---
 src/sunwhere/_base.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 5b69fc5..a9173db 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -56,15 +56,24 @@ class Sunpos:
         # convert to UTC, where the wall clock is never ambiguous, and de-localize
         # to make a numpy array of datetime64[ns] with ndmin=1. Afterwards, I
         # convert back to pandas using again pd.to_datetime, localize to UTC and
-        # recover the original timezone
+        # recover the original timezone. The resolution is ns, unless the times
+        # are out of its bounds (approx., the years 1678 to 2262)
         _times = pd.to_datetime(times)
         _timezone = 'UTC' if _times.tz is None else _times.tz
 
         if _times.tz is not None:
             _times = _times.tz_convert('UTC').tz_localize(None)
 
+        _times = pd.DatetimeIndex([_times] if np.ndim(_times) == 0 else _times)
+        try:
+            self._unit, self._ticks = 'ns', 1e9  # ticks per second
+            _times = _times.as_unit('ns')
+        except pd.errors.OutOfBoundsDatetime:
+            self._unit, self._ticks = 'us', 1e6
+            _times = _times.as_unit('us')
+
         self._times_utc = pd.to_datetime(
-            np.array(_times, ndmin=1, dtype='datetime64[ns]')
+            np.array(_times, ndmin=1, dtype=f'datetime64[{self._unit}]')
         ).tz_localize('UTC')
 
         self._times = self._times_utc.tz_convert(_timezone)
@@ -101,7 +110,7 @@ class Sunpos:
             assert self._zenith.shape == self._azimuth.shape == (n_times, n_lats)
             # xarray coordinates
             coords = {
-                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),
+                'time': np.array(self._times.tz_localize(None), dtype=f'datetime64[{self._unit}]'),
                 'location': range(n_lats),
                 'latitude': ('location', self._latitude),
                 'longitude': ('location', self._longitude)}
@@ -125,7 +134,7 @@ class Sunpos:
             assert self._zenith.shape == self._azimuth.shape == (n_times, n_lats, n_lons)
             # xarray coordinates
             coords = {
-                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),
+                'time': np.array(self._times.tz_localize(None), dtype=f'datetime64[{self._unit}]'),
                 'latitude': self._latitude, 'longitude': self._longitude}
             # xarray DataArrays
             kwargs = {'coords': {k: coords[k] for k in ['latitude']}, 'dims': ['latitude']}
@@ -149,7 +158,7 @@ class Sunpos:
             assert self._zenith.shape == self._azimuth.shape == (n_times,)
             # xarray coordinates
             coords = {
-                'time': np.array(self._times.tz_localize(None), dtype='datetime64[ns]'),
+                'time': np.array(self._times.tz_localize(None), dtype=f'datetime64[{self._unit}]'),
                 'latitude': ('time', self._latitude),
                 'longitude': ('time', self._longitude)}
             # xarray DataArrays
@@ -216,14 +225,14 @@ class Sunpos:
     @property
     def true_solar_time(self):
         """DataArray: True solar time, known also to as local apparent time."""
-        dt64 = np.datetime64(1, 'ns')
+        dt64 = np.datetime64(1, self._unit)
 
         utc_f = xr.DataArray(
             np.array(self._times_utc.tz_localize(None), dtype=dt64).astype('float64'),
             coords={'time': np.array(self._times.tz_localize(None), dtype=dt64)},
             dims=['time'])
 
-        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * 1e9  # nano-seconds
+        tst_f = utc_f + (self.eot + 4*self.longitude) * 60 * self._ticks
         return tst_f.astype(dt64).rename('true_solar_time').assign_attrs(
             description='True solar time (a.k.a. local apparent time, LAT)')
 
@@ -456,25 +465,25 @@ class Sunpos:
         if units in ('tst', 'utc', 'local'):
             wsr = 12. - (np.degrees(wsr)/15.)
             delta_ns = wsr.copy(
-                data=(wsr*3600*1e9).astype('timedelta64[ns]'))
+                data=(wsr*3600*self._ticks).astype(f'timedelta64[{self._unit}]'))
             tst_d = self.true_solar_time.copy(
                 # if I convert directly from self.true_solar_time (which is
                 # a DataArray) to `datetime64[D]` xarray complains. It raises
                 # a UserWarning because I am downgrading the resolution from
                 # ns to D. Hence, I use `to_numpy()` to convert to a numpy
-                # array, then cast to `datetime64[D]`, then to `datetime64[ns]`
-                # and the I create the DataArray tst_d. All this is only to
+                # array, then cast to `datetime64[D]`, then back to the original
+                # resolution, and then I create the DataArray tst_d. All this is only to
                 # prevent that annoying UserWarning !!
                 data=(self.true_solar_time.to_numpy()
                       .astype('datetime64[D]')
-                      .astype('datetime64[ns]'))
+                      .astype(f'datetime64[{self._unit}]'))
             )
             wsr = delta_ns + tst_d
 
             if units in ('utc', 'local'):
                 delta_hr = self.eot + 4*self.longitude
                 delta_ns = delta_hr.copy(
-                    data=(delta_hr*60*1e9).astype('timedelta64[ns]'))
+                    data=(delta_hr*60*self._ticks).astype(f'timedelta64[{self._unit}]'))
                 wsr = wsr - delta_ns
 
                 if units == 'local':
@@ -516,7 +525,7 @@ class Sunpos:
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise(units)
             dl_hr = self.daylight_length()
-            wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
+            wss = wsr + dl_hr.copy(data=(dl_hr*3600*self._ticks).astype(f'timedelta64[{self._unit}]'))
 
         else:
             # the sunset hour angle is symmetric to the sunrise hour angle
@@ -559,7 +568,7 @@ class Sunpos:
         tst = self.true_solar_time.to_numpy()
         hour = self.true_solar_time.copy(
             data=tst - tst.astype('datetime64[D]')
-        ).astype('float64') * 1e-9 / 3600
+        ).astype('float64') / self._ticks / 3600
         ha = hour.copy(data=15*(12-hour))
 
         fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
-- 
2.43.0


From e43f0c5455fe73be7f067cc569e28b9966e1d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 13/22] fix: the CLI failed where the sun does not rise or set

---
 src/sunwhere/_cli/position.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..ff6669b 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -37,6 +37,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     ts = pd.to_datetime(time).tz_localize(timezone)
 
+    def fmt_time(t):
+        # NaT if the sun does not rise or set (polar day or night)
+        return '--:--:--' if pd.isna(t) else f'{t.tz_localize(sw.timezone):%H:%M:%S}'
+
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
@@ -49,10 +53,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': fmt_time(sr_utc),
+            'Sunset(UTC)': fmt_time(ss_utc),
+            f'Sunrise({timezone})': fmt_time(sr_local),
+            f'Sunset({timezone})': fmt_time(ss_local),
             'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From e3e28fb7b996ad32264beca45b9db7925c771393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 14/22] fix: the CLI dropped the sign of the equation of time
 above -1 minute

---
 src/sunwhere/_cli/position.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ff6669b..47e21f7 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -32,7 +32,8 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
+    eot_sign = '-' if eot < 0 else ''  # int(eot) misses the sign if -1 < eot < 0
+    eot_min = int(abs(eot))
     eot_sec = 60*(abs(eot) % 1)
 
     ts = pd.to_datetime(time).tz_localize(timezone)
@@ -57,7 +58,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Sunset(UTC)': fmt_time(ss_utc),
             f'Sunrise({timezone})': fmt_time(sr_local),
             f'Sunset({timezone})': fmt_time(ss_local),
-            'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
+            'Equation of time': f'{eot_sign}{eot_min}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
 
-- 
2.43.0


From c91b80347cfbe808f02bee824d40baa43e7f81e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 15/22] fix: the CLI took the machine's wall clock as the time
 in --timezone

The default time 'now' was the local time of the machine relabelled to the
requested time zone (UTC by default).
---
 src/sunwhere/_cli/position.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 47e21f7..1240f7f 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,7 +1,5 @@
 
 import locale
-from datetime import datetime
-
 from tabulate import tabulate
 
 import numpy as np
@@ -19,7 +17,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        time = pd.Timestamp.now(tz=timezone).tz_localize(None)
 
     times = np.array(
         pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-- 
2.43.0


From 08277902a6708ac13381073bfe691c9b98c32c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 16/22] fix: load_jpl_ephemeris dropped a missing column and
 localized twice

---
 src/sunwhere/utils/jpl_horizons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/jpl_horizons.py b/src/sunwhere/utils/jpl_horizons.py
index 195f0ec..ae7a5f9 100644
--- a/src/sunwhere/utils/jpl_horizons.py
+++ b/src/sunwhere/utils/jpl_horizons.py
@@ -119,7 +119,7 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
                 filenames.append(out_filename)
                 logger.success('data downloaded')
             logger.info(f'loading high-res ephemeris from file {out_filename}')
-            data.append(read_jpl_ephemeris_file(out_filename).drop(columns='julian_day'))
+            data.append(read_jpl_ephemeris_file(out_filename))
         df = pd.concat(data, axis=0)
         df.insert(0, 'site_lat', site_lat)
         df.insert(0, 'site_lon', site_lon)
@@ -129,4 +129,4 @@ def load_jpl_ephemeris(year=2024, site_lon=-3.822, site_lat=36.949):
         for filename in filenames:
             filename.unlink()
 
-    return pd.read_parquet(whole_data_filename).tz_localize('UTC')
+    return pd.read_parquet(whole_data_filename)
-- 
2.43.0


From af451da65102b57cac134fca55638f4db2587a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 17/22] fix: the CLI failed if the sunrise or sunset clock fell
 in a DST gap

---
 src/sunwhere/_cli/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 1240f7f..17b397a 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -38,7 +38,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     def fmt_time(t):
         # NaT if the sun does not rise or set (polar day or night)
-        return '--:--:--' if pd.isna(t) else f'{t.tz_localize(sw.timezone):%H:%M:%S}'
+        return '--:--:--' if pd.isna(t) else f'{t:%H:%M:%S}'
 
     s = pd.Series(
         {
-- 
2.43.0


From 8b6a1e5c81dfcf32b7ad3993d28027b8d8df33ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 18/22] fix: cosine of the latitude lost its precision near the
 poles in soltrack-numpy

---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index b3e2b2f..1e68d0e 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -133,7 +133,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -184,7 +184,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -235,7 +235,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
-- 
2.43.0


From c01ad19f572e781b234d1b57ac45eeaa33b6be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 19/22] fix: incidence was a meaningless number where the
 longitude is missing

---
 src/sunwhere/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a9173db..87f0b2c 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -568,7 +568,7 @@ class Sunpos:
         tst = self.true_solar_time.to_numpy()
         hour = self.true_solar_time.copy(
             data=tst - tst.astype('datetime64[D]')
-        ).astype('float64') / self._ticks / 3600
+        ).astype('float64').where(~np.isnat(tst)) / self._ticks / 3600
         ha = hour.copy(data=15*(12-hour))
 
         fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
-- 
2.43.0


From 80ef9ea6ad8f8ee8396e796a1eddcac7bfbf3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 20/22] fix: the two passes of a repeated hour were mixed up in
 long lists of times

---
 src/sunwhere/_base.py          | 3 ++-
 src/sunwhere/usecases.py       | 6 +++---
 src/sunwhere/utils/validate.py | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 87f0b2c..5b4463f 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -58,7 +58,8 @@ class Sunpos:
         # convert back to pandas using again pd.to_datetime, localize to UTC and
         # recover the original timezone. The resolution is ns, unless the times
         # are out of its bounds (approx., the years 1678 to 2262)
-        _times = pd.to_datetime(times)
+        # (without its cache, that mixes up the two passes of a repeated hour)
+        _times = pd.to_datetime(times, cache=False)
         _timezone = 'UTC' if _times.tz is None else _times.tz
 
         if _times.tz is not None:
diff --git a/src/sunwhere/usecases.py b/src/sunwhere/usecases.py
index 325b260..8a65c69 100644
--- a/src/sunwhere/usecases.py
+++ b/src/sunwhere/usecases.py
@@ -81,7 +81,7 @@ def sites(times, latitude, longitude, algorithm='psa',
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times_utc = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
+        pd.to_datetime(times, utc=True, cache=False).tz_localize(None),  # naive datetime
         ndmin=1, dtype='datetime64[s]')
     sites_lats = np.array(latitude, ndmin=1, dtype=np.float64)
     sites_lons = np.array(longitude, ndmin=1, dtype=np.float64)
@@ -176,7 +176,7 @@ def regular_grid(times, latitude, longitude, algorithm='psa',
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times_utc = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
+        pd.to_datetime(times, utc=True, cache=False).tz_localize(None),  # naive datetime
         ndmin=1, dtype='datetime64[s]')
     grid_lats = np.array(latitude, ndmin=1, dtype=np.float64)
     grid_lons = np.array(longitude, ndmin=1, dtype=np.float64)
@@ -264,7 +264,7 @@ def transect(times, latitude, longitude, algorithm='psa',
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times_utc = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),
+        pd.to_datetime(times, utc=True, cache=False).tz_localize(None),
         ndmin=1, dtype='datetime64[s]')
     transect_lats = np.array(latitude, ndmin=1, dtype=np.float64)
     transect_lons = np.array(longitude, ndmin=1, dtype=np.float64)
diff --git a/src/sunwhere/utils/validate.py b/src/sunwhere/utils/validate.py
index 7446d4f..9a853f0 100644
--- a/src/sunwhere/utils/validate.py
+++ b/src/sunwhere/utils/validate.py
@@ -26,7 +26,7 @@ def check_timelatlon(times, latitude, longitude, ndim, dtype=None, dt64=None):
     #   the argument `utc` of pd.to_datetime "localizes" timezone-naive
     #   inputs as UTC, while timezone-aware inputs are "converted" to UTC
     times = np.array(
-        pd.to_datetime(times, utc=True).tz_localize(None),  # naive datetime
+        pd.to_datetime(times, utc=True, cache=False).tz_localize(None),  # naive datetime
         ndmin=1, dtype=dt64)
     if times.ndim > 1:
         raise ValueError(
-- 
2.43.0


From 078f2625b66af1cfd2fd4562110ff225e30e3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 21/22] fix: the solar time conversions wrapped times out of
 the nanosecond range

The shifted times wrapped silently around the datetime64[ns] bounds (years 1678
to 2262). As in Sunpos, microseconds are used only when nanoseconds do not fit.
---
 src/sunwhere/utils/datetime.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index 61c6974..7bc323d 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -1,11 +1,25 @@
 
 import numpy as np
+import pandas as pd
 
 from .._core import evaluate
 
 
+def _resolution(times):
+    # unit and ticks per second: ns, unless the times (or their shifted ones)
+    # are out of its bounds (approx., the years 1678 to 2262)
+    times = pd.to_datetime(times, utc=True, cache=False).as_unit('us')
+    try:
+        for days in (-1, 1):
+            (times + pd.Timedelta(days, 'D')).as_unit('ns')
+    except pd.errors.OutOfBoundsDatetime:
+        return 'us', 1e6
+    return 'ns', 1e9
+
+
 def true_solar_time(times_utc, longitude):
-    dt64 = 'datetime64[ns]'
+    unit, ticks = _resolution(times_utc)
+    dt64 = f'datetime64[{unit}]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
     eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
@@ -18,12 +32,13 @@ def true_solar_time(times_utc, longitude):
     )
     expanded_longitude = np.expand_dims(longitude, axis=0)
     utc_to_tst = 60 * (4 * expanded_longitude + expanded_eot)
-    times_tst = np.array(expanded_times_utc + 1e9 * utc_to_tst, dtype=dt64)
+    times_tst = np.array(expanded_times_utc + ticks * utc_to_tst, dtype=dt64)
     return np.squeeze(times_tst)
 
 
 def universal_time_coordinated(times_tst, longitude):
-    dt64 = 'datetime64[ns]'
+    unit, ticks = _resolution(times_tst)
+    dt64 = f'datetime64[{unit}]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
     eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
@@ -36,5 +51,5 @@ def universal_time_coordinated(times_tst, longitude):
     )
     expanded_longitude = np.expand_dims(longitude, axis=0)
     tst_to_utc = -60 * (4 * expanded_longitude + expanded_eot)
-    times_utc = np.array(expanded_times_tst + 1e9 * tst_to_utc, dtype=dt64)
+    times_utc = np.array(expanded_times_tst + ticks * tst_to_utc, dtype=dt64)
     return np.squeeze(times_utc)
-- 
2.43.0


From 8f7ae088f459cce1f262d8243bf17028b97c2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 22/22] fix: no solar time, sunrise or local time at the ends
 of the nanosecond range

Within a day of its bounds (1677-09-21 and 2262-04-11) the times fit in
datetime64[ns] but their solar and local times do not.
---
 src/sunwhere/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 5b4463f..05e23d0 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -68,6 +68,8 @@ class Sunpos:
         _times = pd.DatetimeIndex([_times] if np.ndim(_times) == 0 else _times)
         try:
             self._unit, self._ticks = 'ns', 1e9  # ticks per second
+            for days in (-3, 3):  # as well as their solar and local times
+                (_times.as_unit('us') + pd.Timedelta(days, 'D')).as_unit('ns')
             _times = _times.as_unit('ns')
         except pd.errors.OutOfBoundsDatetime:
             self._unit, self._ticks = 'us', 1e6
-- 
2.43.0

