From d273972cf7c06cd8a9a530bcaf97ab3a65c89b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 01/17] fix: clip the cosine of zenith so that rounding gives
 no NaN at the zenith and nadir

---
 src/sunwhere/libspa/ne_iqbal.py | 12 +++++++++---
 src/sunwhere/libspa/ne_nrel.py  | 12 +++++++++---
 src/sunwhere/libspa/ne_psa.py   | 12 +++++++++---
 src/sunwhere/libspa/py_iqbal.py |  9 ++++++---
 4 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index bbacc02..a08545a 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -142,7 +142,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    cosZenith = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosZenith)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -203,7 +205,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    cosZenith = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosZenith)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -265,7 +269,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = nex('(LAT - 12.)*15.*RAD')
     cosHour = nex('cos(hour_angle)')
 
-    sza_rad = nex('arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    cosZenith = np.clip(nex('sinDecl*sinLat + cosDecl*cosLat*cosHour'), -1., 1.)
+    sza_rad = nex('arccos(cosZenith)')
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 4d0c475..232e600 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -227,7 +227,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp))')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    sin_e = np.clip(nex('sin(latrad)*sin(deltap) + cos(latrad)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -280,7 +282,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    sin_e = np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
@@ -333,7 +337,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     Hp = nex('H - deltaa')
 
     # topocentric elevation angle without atmosphere, radians
-    e = nex('arcsin(sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp))')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    sin_e = np.clip(nex('sin(latrad_)*sin(deltap) + cos(latrad_)*cos(deltap)*cos(Hp)'), -1., 1.)
+    e = nex('arcsin(sin_e)')
 
     # topocentric elevation angle with refraction correction, radians
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/ne_psa.py b/src/sunwhere/libspa/ne_psa.py
index e5ba0f3..2caec87 100644
--- a/src/sunwhere/libspa/ne_psa.py
+++ b/src/sunwhere/libspa/ne_psa.py
@@ -127,7 +127,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(delta)')
     tandec = nex('tan(delta)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    cos_zenith = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cos_zenith)')
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -169,7 +171,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')  # radians
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    cos_zenith = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cos_zenith)')  # radians
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax correction
 
     if with_refraction is True:
@@ -211,7 +215,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     cosdec = nex('cos(decli)')
     tandec = nex('tan(decli)')
 
-    zenith = nex('arccos(coslat*coshour*cosdec + sindec*sinlat)')
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    cos_zenith = np.clip(nex('coslat*coshour*cosdec + sindec*sinlat'), -1., 1.)
+    zenith = nex('arccos(cos_zenith)')
     zenith = nex('zenith + EMRAU*sin(zenith)')  # ..parallax Correction
 
     if with_refraction is True:
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index c60aaa8..23d6b50 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -139,7 +139,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -198,7 +199,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
@@ -259,7 +261,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     hour_angle = (LAT - 12.)*15.*RAD
     cosHour = np.cos(hour_angle)
 
-    sza_rad = np.arccos(sinDecl*sinLat + cosDecl*cosLat*cosHour)
+    # clipped because rounding may exceed 1 with the sun at the zenith or the nadir
+    sza_rad = np.arccos(np.clip(sinDecl*sinLat + cosDecl*cosLat*cosHour, -1., 1.))
 
     if with_refraction is True:
         # Simple refraction correction from Rigollier et al. (2000),
-- 
2.43.0


From f8c5b2d1381c939690050b565a98927712243837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 02/17] fix: clip the sine of altitude in soltrack so that
 rounding gives no NaN at the zenith and nadir

---
 src/sunwhere/libspa/ne_soltrack.py | 3 +++
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index 27bd91b..d815e38 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -147,6 +147,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')      # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -182,6 +183,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -218,6 +220,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     azimuth = nex('arctan2(sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)')  # 0 <= solar azimth < 2pi, Eq 25
 
     # correct for parallax
+    sin_alt = np.clip(sin_alt, -1., 1.)
     alt_uncorr = nex('arcsin(sin_alt)')
     alt = nex('alt_uncorr - 4.2635e-5*cos(alt_uncorr)')  # horizontal parallax = 8.794" = 4.2635e-5 rad
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index afae171..d98d8ed 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -140,7 +140,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -188,7 +188,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
@@ -236,7 +236,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         sin_ha, cos_ha*sin_lat - tan_dec*cos_lat)
 
     # correct for parallax
-    alt_uncorr = np.arcsin(sin_alt)
+    alt_uncorr = np.arcsin(np.clip(sin_alt, -1., 1.))
     cos_alt = np.cos(alt_uncorr)
     alt = alt_uncorr - 4.2635e-5*cos_alt                 # horizontal parallax = 8.794" = 4.2635e-5 rad
 
-- 
2.43.0


From c6d19ebce37075cc784892b45aea461f5bf6b97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 03/17] fix: apply the soltrack refraction correction only
 above the horizon cut-off

---
 src/sunwhere/libspa/ne_soltrack.py | 12 +++++++++---
 src/sunwhere/libspa/py_soltrack.py |  9 ++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_soltrack.py b/src/sunwhere/libspa/ne_soltrack.py
index d815e38..81c6907 100644
--- a/src/sunwhere/libspa/ne_soltrack.py
+++ b/src/sunwhere/libspa/ne_soltrack.py
@@ -153,7 +153,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # the formula is singular well below the horizon, where it does not apply
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
@@ -189,7 +191,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # the formula is singular well below the horizon, where it does not apply
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
@@ -226,7 +230,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
-        alt = nex('alt + (2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2)))')
+        # the formula is singular well below the horizon, where it does not apply
+        dalt = nex('2.967e-4 / tan(alt + 3.1376e-3/(alt + 8.92e-2))')
+        alt = nex('where(alt >= -1.4545e-2, alt + dalt, alt)')
 
     zenith = HALFPI - alt
 
diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index d98d8ed..0a59b33 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -146,8 +146,9 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
+        # the formula is singular well below the horizon, where it does not apply
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -194,8 +195,9 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
+        # the formula is singular well below the horizon, where it does not apply
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
@@ -242,8 +244,9 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
 
     # correct for atmospheric refraction (ignore T and P), Eq 27
     if with_refraction is True:
+        # the formula is singular well below the horizon, where it does not apply
         dalt = (2.967e-4 / np.tan(alt + 3.1376e-3/(alt + 8.92e-2)))
-        alt = alt + dalt
+        alt = np.where(alt >= -1.4545e-2, alt + dalt, alt)
 
     # # convert the corrected horizontal coordinates back to equatorial coordinates
     # cos_az = np.cos(azimuth)
-- 
2.43.0


From e108c81faf75d08d40240f1ef16b425765c3e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 04/17] fix: apply the iqbal refraction correction only above
 the horizon cut-off

---
 src/sunwhere/libspa/ne_iqbal.py | 9 ++++++---
 src/sunwhere/libspa/py_iqbal.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index a08545a..a8ada8b 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -155,7 +155,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # the formula does not apply well below the horizon, where it grows without sense
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -218,7 +219,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # the formula does not apply well below the horizon, where it grows without sense
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -282,7 +284,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '0.061359*(0.1594+(1.1230*alpha)'
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
-        sza_rad = HALFPI - (alpha + refcor)
+        # the formula does not apply well below the horizon, where it grows without sense
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index 23d6b50..17156af 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -150,7 +150,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # the formula does not apply well below the horizon, where it grows without sense
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -210,7 +211,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # the formula does not apply well below the horizon, where it grows without sense
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -272,7 +274,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
         refcor = (0.061359*(0.1594+(1.1230*alpha)
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
-        sza_rad = HALFPI - (alpha + refcor)
+        # the formula does not apply well below the horizon, where it grows without sense
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From 8fd503a724ae58d5b00b6285efbb74c346ae56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 05/17] fix: compute the cosine of latitude directly in
 py_soltrack, the square root loses single precision near the poles

---
 src/sunwhere/libspa/py_soltrack.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/libspa/py_soltrack.py b/src/sunwhere/libspa/py_soltrack.py
index 0a59b33..5b84525 100644
--- a/src/sunwhere/libspa/py_soltrack.py
+++ b/src/sunwhere/libspa/py_soltrack.py
@@ -133,7 +133,7 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -182,7 +182,7 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
@@ -231,7 +231,7 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
     tan_dec = sin_dec / cos_dec
 
     sin_lat = np.sin(lat_rad)
-    cos_lat = np.sqrt(1. - sin_lat**2)
+    cos_lat = np.cos(lat_rad)
 
     sin_alt = sin_lat*sin_dec + cos_lat*cos_dec*cos_ha   # -pi/2 <= solar altitude <= pi/2, Eq 24
     azimuth = np.arctan2(                                # 0 <= solar azimth < 2pi, Eq 25
-- 
2.43.0


From 7c1ddd5215a87558374ef7a07ff44c9140c2c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 06/17] fix: keep the instants of times in zoneinfo,
 fixed-offset and daylight-saving zones

---
 src/sunwhere/_base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a0e3b18..dedd11e 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -53,23 +53,23 @@ class Sunpos:
         # when dealing with timezone-aware times. Hence, first I use
         # pd.to_datetime to retain the timezone of the input times (if
         # timezone-aware) or assume UTC if the input times are naive. Then, I
-        # convert to a numpy array of datetime64[ns] with ndmin=1, but de-localizing
-        # the times to prevent numpy complains. Afterwards, I convert back to
-        # pandas using again pd.to_datetime and localize
+        # convert to a numpy array of datetime64[ns] with ndmin=1, in UTC and
+        # naive to prevent numpy complains. Afterwards, I convert back to
+        # pandas using again pd.to_datetime, localize and convert
         _times = pd.to_datetime(times)
 
         if _times.tz is None:
-            self._timezone = 'UTC'
-        elif hasattr(_times.tz, 'zone'):
-            self._timezone = _times.tz.zone
-        else:
-            self._timezone = 'UTC'
+            _times = _times.tz_localize('UTC')
+
+        # pytz zones have the attribute `zone`, but zoneinfo's and fixed offsets do not
+        self._timezone = getattr(_times.tz, 'zone', None) or str(_times.tz)
 
-        self._times = pd.to_datetime(
-            np.array(_times.tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-        ).tz_localize(self._timezone, ambiguous='infer')
+        # the conversion goes through UTC, where no instant is ambiguous
+        self._times_utc = pd.to_datetime(
+            np.array(_times.tz_convert(None), ndmin=1, dtype='datetime64[ns]')
+        ).tz_localize('UTC')
 
-        self._times_utc = pd.to_datetime(self._times).tz_convert('UTC')
+        self._times = self._times_utc.tz_convert(_times.tz)
 
         self._latitude = np.array(latitude, ndmin=1)
         self._longitude = np.array(longitude, ndmin=1)
-- 
2.43.0


From e869b1cb9c7ee5094f16f2d5c9cc9e2a24ec271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 07/17] fix: sunset in angular units raised UnboundLocalError

---
 src/sunwhere/_base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index dedd11e..79bc4db 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -517,11 +517,8 @@ class Sunpos:
             dl_hr = self.daylight_length()
             wss = wsr + dl_hr.copy(data=(dl_hr*3600*1e9).astype('timedelta64[ns]'))
 
-        if units == 'deg':
-            wss = (12. - wss)*15
-
-        if units == 'rad':
-            wss = np.radians((12. - wss)*15)
+        if units in ('deg', 'rad'):
+            wss = -self.sunrise(units)
 
         return wss.rename('wss').assign_attrs(
             units={'deg': 'degrees', 'rad': 'radians', 'tst': 'TST',
-- 
2.43.0


From e573d9b6faa5cfc2d9a150cef30800d5e9fdf8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 08/17] fix: unknown sunrise and sunset units raise the
 documented ValueError

---
 src/sunwhere/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index 79bc4db..a4c12ae 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -441,7 +441,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         tanlat = np.tan(np.radians(self.latitude))
         tandec = np.tan(np.radians(self.declination))
@@ -510,7 +511,8 @@ class Sunpos:
             [1] Eq. (1.5.4) in Iqbal, M., An Introduction to Solar Radiation,
             Academic Press, 1983.
         """
-        assert units in ('rad', 'deg', 'tst', 'utc', 'local')
+        if units not in ('rad', 'deg', 'tst', 'utc', 'local'):
+            raise ValueError(f'unknown units {units}')
 
         if units in ('tst', 'utc', 'local'):
             wsr = self.sunrise(units)
-- 
2.43.0


From f5e8cd5b14366e1e15a4417db8307a29fbb88ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 09/17] fix: the true solar time helpers read the equation of
 time from evaluate's result

---
 src/sunwhere/utils/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/utils/datetime.py b/src/sunwhere/utils/datetime.py
index fd97acc..61c6974 100644
--- a/src/sunwhere/utils/datetime.py
+++ b/src/sunwhere/utils/datetime.py
@@ -8,7 +8,7 @@ def true_solar_time(times_utc, longitude):
     dt64 = 'datetime64[ns]'
     times_utc = np.array(times_utc, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_utc, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_utc, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
@@ -26,7 +26,7 @@ def universal_time_coordinated(times_tst, longitude):
     dt64 = 'datetime64[ns]'
     times_tst = np.array(times_tst, ndmin=1)
     longitude = np.array(longitude, ndmin=1)
-    eot = evaluate(times_tst, 0., 0.).eot  # eot, minutes
+    eot = evaluate(times_tst, 0., 0.)['eot']  # eot, minutes
     # for compat with numpy < 1.18.0, I use reshape instead of expand_dims
     new_shape = tuple(list(eot.shape) + [1]*longitude.ndim)
     expanded_eot = np.reshape(eot, new_shape)
-- 
2.43.0


From 33f860ed3d4ebfe34c18c47236546561d22a8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 10/17] fix: nrel raised when no input time is valid

---
 src/sunwhere/libspa/ne_nrel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sunwhere/libspa/ne_nrel.py b/src/sunwhere/libspa/ne_nrel.py
index 232e600..c2b8b35 100644
--- a/src/sunwhere/libspa/ne_nrel.py
+++ b/src/sunwhere/libspa/ne_nrel.py
@@ -40,6 +40,13 @@ def sunpos(unixtime, longitude, latitude, ndim=1, with_refraction=True):
     longitude = np.array(longitude, ndmin=1, dtype=np.float64).ravel()
     latitude = np.array(latitude, ndmin=1, dtype=np.float64).ravel()
 
+    if unixtime.size == 0:
+        # numexpr does not keep the shape of empty arrays
+        shape = (0, latitude.size, longitude.size)
+        shape = {0: (0,), 1: shape[:2], 2: shape}[ndim]
+        return {'zenith': np.empty(shape), 'azimuth': np.empty(shape),
+                'ecf': np.empty(0), 'eot': np.empty(0), 'declination': np.empty(0)}
+
     if ndim == 0:
 
         # -- one dimensional space: (n_locations,) == (n_times,)
-- 
2.43.0


From 30642756ea98026b7ac1182948f8e9401122a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 11/17] fix: iqbal refraction lifted the sun past the zenith,
 which gave negative zenith angles and missing air mass

---
 src/sunwhere/libspa/ne_iqbal.py | 9 ++++++---
 src/sunwhere/libspa/py_iqbal.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sunwhere/libspa/ne_iqbal.py b/src/sunwhere/libspa/ne_iqbal.py
index a8ada8b..b62a42c 100644
--- a/src/sunwhere/libspa/ne_iqbal.py
+++ b/src/sunwhere/libspa/ne_iqbal.py
@@ -156,7 +156,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
         # the formula does not apply well below the horizon, where it grows without sense
-        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
+        # and with the sun overhead it must not lift it past the zenith
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')
@@ -220,7 +221,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
         # the formula does not apply well below the horizon, where it grows without sense
-        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
+        # and with the sun overhead it must not lift it past the zenith
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None]
@@ -285,7 +287,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
             '+ (0.065656*alpha2))/(1.+(28.9344*alpha)'
             '+ (277.3971*alpha2))')
         # the formula does not apply well below the horizon, where it grows without sense
-        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
+        # and with the sun overhead it must not lift it past the zenith
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
 
     sinHour = nex('sin(hour_angle)')
     tanDecl = nex('tan(declination)')[:, None, None]
diff --git a/src/sunwhere/libspa/py_iqbal.py b/src/sunwhere/libspa/py_iqbal.py
index 17156af..fbaf898 100644
--- a/src/sunwhere/libspa/py_iqbal.py
+++ b/src/sunwhere/libspa/py_iqbal.py
@@ -151,7 +151,8 @@ def _sunpos_one_dimensional(unixtime, longitude, latitude, with_refraction):
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
         # the formula does not apply well below the horizon, where it grows without sense
-        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
+        # and with the sun overhead it must not lift it past the zenith
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -212,7 +213,8 @@ def _sunpos_two_dimensional(unixtime, longitude, latitude, with_refraction):
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
         # the formula does not apply well below the horizon, where it grows without sense
-        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
+        # and with the sun overhead it must not lift it past the zenith
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
@@ -275,7 +277,8 @@ def _sunpos_three_dimensional(unixtime, longitude, latitude, with_refraction):
                   + (0.065656*alpha2))/(1.+(28.9344*alpha)
                   + (277.3971*alpha2)))
         # the formula does not apply well below the horizon, where it grows without sense
-        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, alpha + refcor, alpha)
+        # and with the sun overhead it must not lift it past the zenith
+        sza_rad = HALFPI - np.where(alpha >= -1.4545e-2, np.minimum(alpha + refcor, HALFPI), alpha)
 
     dy = -np.sin(hour_angle)
     dx = tanDecl*cosLat - sinLat*cosHour
-- 
2.43.0


From 656d7ab73738c3164aead740a8b7cc9f033a28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 12/17] fix: incidence returned its dimensions out of order
 (latitude before time)

---
 src/sunwhere/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index a4c12ae..f57ebe6 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -572,5 +572,7 @@ class Sunpos:
         coss = ((sinlat*cosbeta - coslat*sinbeta*cosgamma)*sindec +
                 (coslat*cosbeta + sinlat*sinbeta*cosgamma)*cosdec*coshour +
                 cosdec*sinhour*sinbeta*singamma)
+        # latitude comes first in the sum, and so would its dimension
+        coss = coss.transpose('time', ...)
         return coss.rename('incidence').assign_attrs(
             units='-', description='cosine of the angle of incidence')
-- 
2.43.0


From 06213e8058b2304581b4078f11a0ba44114ebe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 13/17] fix: the command line dropped the sign of an equation
 of time within a minute below zero, and printed 60 seconds

---
 src/sunwhere/_cli/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index ef51f4f..c423a2f 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -32,8 +32,8 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     sr_local = pd.Timestamp(sw.sunrise(units="local").isel(time=0, location=0).item())
     ss_local = pd.Timestamp(sw.sunset(units="local").isel(time=0, location=0).item())
     eot = sw.eot.isel(time=0).item()
-    eot_min = int(eot)
-    eot_sec = 60*(abs(eot) % 1)
+    eot_sign = '-' if eot < 0 else ''
+    eot_min, eot_sec = divmod(round(60*abs(eot), 1), 60)
 
     ts = pd.to_datetime(time).tz_localize(timezone)
 
@@ -53,7 +53,7 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
             f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
             f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
-            'Equation of time': f'{eot_min}:{eot_sec:.1f} min'
+            'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
 
-- 
2.43.0


From 438b1f50e982048ca77dde1a277d1953fb52fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 14/17] fix: the command line failed where the sun does not
 rise or set

---
 src/sunwhere/_cli/position.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index c423a2f..1a88e8e 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -37,6 +37,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
 
     ts = pd.to_datetime(time).tz_localize(timezone)
 
+    def clock(t):
+        # NaT where the sun does not rise or set
+        return '--:--:--' if pd.isnull(t) else f'{t:%H:%M:%S}'
+
     s = pd.Series(
         {
             'Day of week': ts.strftime("%A").capitalize(),
@@ -49,10 +53,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': f'{sr_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            'Sunset(UTC)': f'{ss_utc.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunrise({timezone})': f'{sr_local.tz_localize(sw.timezone):%H:%M:%S}',
-            f'Sunset({timezone})': f'{ss_local.tz_localize(sw.timezone):%H:%M:%S}',
+            'Sunrise(UTC)': clock(sr_utc.tz_localize(sw.timezone)),
+            'Sunset(UTC)': clock(ss_utc.tz_localize(sw.timezone)),
+            f'Sunrise({timezone})': clock(sr_local.tz_localize(sw.timezone)),
+            f'Sunset({timezone})': clock(ss_local.tz_localize(sw.timezone)),
             'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 712da62be3860b1b18d0375e0a1eabf729a2f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 15/17] fix: the command line failed for sunrises and sunsets
 in UTC at clock times that do not exist in the time zone

---
 src/sunwhere/_cli/position.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index 1a88e8e..b65510b 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -53,10 +53,10 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
             'Zenith': f'{sw.sza.isel(time=0, location=0):.4f}\u00b0',
             'Elevation': f'{sw.elevation.isel(time=0, location=0):.4f}\u00b0',
             'Azimuth (0\u00b0 south)': f'{sw.saa.isel(time=0, location=0):.4f}\u00b0',
-            'Sunrise(UTC)': clock(sr_utc.tz_localize(sw.timezone)),
-            'Sunset(UTC)': clock(ss_utc.tz_localize(sw.timezone)),
-            f'Sunrise({timezone})': clock(sr_local.tz_localize(sw.timezone)),
-            f'Sunset({timezone})': clock(ss_local.tz_localize(sw.timezone)),
+            'Sunrise(UTC)': clock(sr_utc),
+            'Sunset(UTC)': clock(ss_utc),
+            f'Sunrise({timezone})': clock(sr_local),
+            f'Sunset({timezone})': clock(ss_local),
             'Equation of time': f'{eot_sign}{eot_min:.0f}:{eot_sec:.1f} min'
         }
     ).to_frame('ephemeris')
-- 
2.43.0


From 25acf3755c0012f4ed1c7f128105935ac4b7cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 16/17] fix: the command line took the present time of the
 machine's time zone for that of the requested one

---
 src/sunwhere/_cli/position.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sunwhere/_cli/position.py b/src/sunwhere/_cli/position.py
index b65510b..daff549 100644
--- a/src/sunwhere/_cli/position.py
+++ b/src/sunwhere/_cli/position.py
@@ -1,10 +1,8 @@
 
 import locale
-from datetime import datetime
 
 from tabulate import tabulate
 
-import numpy as np
 import pandas as pd
 
 import sunwhere
@@ -19,11 +17,11 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     # https://www.kso.ac.at/beobachtungen/ephem_api.php?date=20230715&time=12%3A00%3A00&lat=40.0000&lon=0.0000
 
     if time == 'now':
-        time = datetime.now()
+        ts = pd.Timestamp.now(tz=timezone)
+    else:
+        ts = pd.to_datetime(time).tz_localize(timezone)
 
-    times = np.array(
-        pd.to_datetime(time).tz_localize(None), ndmin=1, dtype='datetime64[ns]')
-    times = pd.to_datetime(times).tz_localize(timezone)
+    times = pd.DatetimeIndex([ts])
 
     sw = sunwhere.sites(times, lat, lon, algorithm=algorithm, refraction=refraction)
 
@@ -35,8 +33,6 @@ def calculate_position(time, lat, lon, algorithm, refraction, timezone):
     eot_sign = '-' if eot < 0 else ''
     eot_min, eot_sec = divmod(round(60*abs(eot), 1), 60)
 
-    ts = pd.to_datetime(time).tz_localize(timezone)
-
     def clock(t):
         # NaT where the sun does not rise or set
         return '--:--:--' if pd.isnull(t) else f'{t:%H:%M:%S}'
-- 
2.43.0


From 490108ae89681a77c2271a12a07eb49033e5d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:34 +0000
Subject: [PATCH 17/17] fix: incidence is missing where the longitude is

The true solar time is NaT there, which a cast to float64 turned into a number.
---
 src/sunwhere/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sunwhere/_base.py b/src/sunwhere/_base.py
index f57ebe6..7c02b67 100644
--- a/src/sunwhere/_base.py
+++ b/src/sunwhere/_base.py
@@ -558,8 +558,8 @@ class Sunpos:
         # hour angle...
         tst = self.true_solar_time.to_numpy()
         hour = self.true_solar_time.copy(
-            data=tst - tst.astype('datetime64[D]')
-        ).astype('float64') * 1e-9 / 3600
+            # the division, unlike a cast to float64, leaves missing times as NaN
+            data=(tst - tst.astype('datetime64[D]')) / np.timedelta64(1, 'h'))
         ha = hour.copy(data=15*(12-hour))
 
         fcirc = lambda a: (np.cos(np.radians(a)), np.sin(np.radians(a)))  # noqa: E731
-- 
2.43.0

