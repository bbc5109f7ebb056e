From 77ead60f7a3a667b2662b03e526e0e26c5efe6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:28 +0000
Subject: [PATCH 01/12] fix: apply a TAI-UTC value from the first day of its
 month, not the month after

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index e02c44c..93592bc 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -84,7 +84,7 @@ impl DeltaAt for GregorianDate {
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month < m)
+	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 794ae287509f097c5ba0e3b4a3328941e083f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:32 +0000
Subject: [PATCH 02/12] fix: do not overflow 32-bit arithmetic for far calendar
 dates and Julian dates

---
 crates/tofas/src/calendar.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f34a449..ecde49d 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -73,6 +73,7 @@ impl GregorianDate {
     /// Source: cal2jd.for
     pub fn to_julian(&self)->(R,R) {
 	let &Self{ year,month,day } = self;
+	let (year,month,day) = (year as i64,month as i64,day as i64);
 	let my = ( month - 14 ) / 12;
 	let iypmy = year + my;
 	let djm = ( 1461 * ( iypmy + 4800 ) ) / 4
@@ -106,7 +107,7 @@ impl GregorianDate {
 	    f += 1.0;
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
-	let jd = d as i32 + 1;
+	let jd = d as i64 + 1;
 
 	let l = jd + 68569;
 	let n = ( 4*l ) / 146097;
@@ -121,9 +122,9 @@ impl GregorianDate {
 	let fd = f;
 
 	Ok((Self {
-	    year:iy,
-	    month:im,
-	    day:id },
+	    year:iy as i32,
+	    month:im as i32,
+	    day:id as i32 },
 	    fd))
     }
 }
-- 
2.43.0


From 9635876cb0266aee7631ca56ca59f0a6c82d770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:37 +0000
Subject: [PATCH 03/12] fix: do not overflow when looking up TAI-UTC for far
 years

---
 crates/tofas/src/delta_at.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 93592bc..b754f1c 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -79,12 +79,12 @@ impl DeltaAt for GregorianDate {
 	    return Ok(None);
 	}
 
-	let m = 12*iy + im;
+	let m = 12*iy as i64 + im as i64;
 
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
+	    .rposition(|DatData { year,month,.. }| (12*year + month) as i64 <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 91773b59313798232c2c1d71e61e08407426e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:40 +0000
Subject: [PATCH 04/12] fix: anp must stay below a full turn for tiny negative
 angles

---
 crates/tofas/src/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 318334f..5a9d8f1 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -31,6 +31,10 @@ pub fn anp(a:R)->R {
     let mut w = a % TWO_PI;
     if w < 0.0 {
 	w += TWO_PI;
+	// A tiny negative angle rounds up to a full turn
+	if w >= TWO_PI {
+	    w = 0.0;
+	}
     }
     w
 }
-- 
2.43.0


From 18a4a54e4e42b3e6c6d5ac00f2222d5ace4e4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:44 +0000
Subject: [PATCH 05/12] fix: the angle between parallel vectors must not be NaN

---
 crates/tofas/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 5a9d8f1..434899e 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -88,7 +88,7 @@ impl Vector for Vec3 {
     }
 
     fn angle(self,b:Self)->R {
-	acos(self.normalize().dot(b.normalize()))
+	acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))
     }
 }
 
-- 
2.43.0


From 43b9d08861b550026f72e85d830fe7b1205396e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:49 +0000
Subject: [PATCH 06/12] fix: keep the North pole (and points next to it) at +90
 degrees

---
 crates/tofas/src/ellipsoid.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 78968b0..7caf81b 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,7 +54,14 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
-	let lat = (gd.phi/DEGREE + 90.0).rem_euclid(180.0) - 90.0;
+	let lat = gd.phi/DEGREE;
+	// Wrap only out-of-range latitudes: the North pole is +90, not -90
+	let lat =
+	    if abs(lat) <= 90.0 {
+		lat
+	    } else {
+		(lat + 90.0).rem_euclid(180.0) - 90.0
+	    };
 	debug_assert!(-180.0 <= lon && lon <= 180.0);
 	debug_assert!(-90.0 <= lat && lat <= 90.0);
 	Self {
-- 
2.43.0


From 8d09c0dad03b99d5d9be5d8a27d3f25492762bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:53 +0000
Subject: [PATCH 07/12] fix: refuse ellipsoids with zero, infinite or NaN
 radius or NaN flattening

---
 crates/tofas/src/ellipsoid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 7caf81b..660328b 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -132,11 +132,11 @@ impl EllipsoidConverter {
     pub fn new(ellipsoid:&Ellipsoid)->Result<Self,EllipsoidError> {
 	let &Ellipsoid{ a,f } = ellipsoid;
 
-	if f < 0.0 || f >= 1.0 {
+	if !(f >= 0.0 && f < 1.0) {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-	if a < 0.0 {
+	if !(a > 0.0 && a.is_finite()) {
 	    return Err(EllipsoidError::InvalidRadius);
 	}
 
-- 
2.43.0


From 9f91bcdcf406eeb90609c155b7416905af09cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:57 +0000
Subject: [PATCH 08/12] fix: from_julian must not return a whole day as the
 fraction of day

---
 crates/tofas/src/calendar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index ecde49d..a9f0387 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -105,6 +105,10 @@ impl GregorianDate {
 	let mut f = (f1 + f2) % 1.0;
 	if f < 0.0 {
 	    f += 1.0;
+	    // A tiny negative fraction rounds up to a whole day
+	    if f >= 1.0 {
+		f = 0.0;
+	    }
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
 	let jd = d as i64 + 1;
-- 
2.43.0


From 45e2ca13e6403359c59a17d6607fe9c79b8047eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:01 +0000
Subject: [PATCH 09/12] fix: refuse NaN as Julian date or fraction of day

---
 crates/tofas/src/calendar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index a9f0387..ff615d4 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -88,7 +88,7 @@ impl GregorianDate {
     /// Source: jd2cal.for
     pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {
 	let dj = dj1 + dj2;
-	if dj < DJ_MIN || dj > DJ_MAX {
+	if !(dj >= DJ_MIN && dj <= DJ_MAX) {
 	    return Err(CalendarError::BadJulian);
 	}
 
@@ -145,7 +145,7 @@ impl HMS {
     }
     
     pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {
-	if f < 0.0 || f > 1.0 {
+	if !(f >= 0.0 && f <= 1.0) {
 	    return Err(CalendarError::BadFract)
 	}
 	let s = 86400.0 * f;
-- 
2.43.0


From 14309b3d3a67c5c376202720e2f19ad1e811ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:04 +0000
Subject: [PATCH 10/12] fix: refuse NaN as fraction of day when looking up
 TAI-UTC

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index b754f1c..689d99a 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -71,7 +71,7 @@ impl DeltaAt for GregorianDate {
 	let iy = self.year;
 	let im = self.month;
 	
-	if fd < 0.0 || fd > 1.0 {
+	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
 	}
 
-- 
2.43.0


From a6f9357ca9805ccb3d6a72b6070727851e63ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:03 +0000
Subject: [PATCH 11/12] fix: keep longitudes in [-180,180[ when the reduction
 rounds to a full turn

---
 crates/tofas/src/ellipsoid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 660328b..cbc08a6 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,6 +54,8 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
+	// rem_euclid rounds up to a full turn just below a multiple of it
+	let lon = if lon >= 180.0 { -180.0 } else { lon };
 	let lat = gd.phi/DEGREE;
 	// Wrap only out-of-range latitudes: the North pole is +90, not -90
 	let lat =
-- 
2.43.0


From d2e8a3984c2890dde934ad48b8b6d0b9414b8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:14 +0000
Subject: [PATCH 12/12] fix: compute the Sun angle during a leap second instead
 of panicking

---
 crates/tofas_extras/src/sun_angle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tofas_extras/src/sun_angle.rs b/crates/tofas_extras/src/sun_angle.rs
index c214acb..4c4243b 100644
--- a/crates/tofas_extras/src/sun_angle.rs
+++ b/crates/tofas_extras/src/sun_angle.rs
@@ -128,7 +128,9 @@ impl SunAngleCalculator {
 
 	let fr = time.to_fraction_of_day();
 	let (jd0,jd1_date) = date.to_julian();
-	let dat = date.delta_at(fr).expect("Delta AT error").unwrap_or(0.0);
+	// In a leap second the fraction is past the end of the day, where the
+	// offset is still that of the day
+	let dat = date.delta_at(if fr > 1.0 { 1.0 } else { fr }).expect("Delta AT error").unwrap_or(0.0);
 
 	let wgs84 = EllipsoidConverter::new(&WGS84).expect("Invalid ellipsoid");
 	let p_gd : Geodetic = position.into();
-- 
2.43.0

