From f9ef0caca62eb4d898135660d595a5df0ca4679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 01/38] fix: close the satellites array before reporting an
 error from inside the TLE scan

---
 src/sat_skymap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 038ea04..4b8c4dd 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -695,6 +695,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
 	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+  	if ( !p.info_only && n_sats_found > 0 )
+  	  printf("],");  /* Close "satellites" array */
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(2);
     }
@@ -702,6 +704,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
 	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	if ( !p.info_only && n_sats_found > 0 )
+	  printf("],");  /* Close "satellites" array */
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(-2);
     }
@@ -752,6 +756,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
 		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    if ( !p.info_only && n_sats_found > 0 )
+		      printf("],");  /* Close "satellites" array */
 		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		    exit(1);
 		  }
@@ -782,6 +788,8 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
 		sprintf(errmsg, "Could not decode TLE data");
+		if ( !p.info_only && n_sats_found > 0 )
+		  printf("],");  /* Close "satellites" array */
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(1);
 	}
-- 
2.43.0


From 560e58b259cac3174f1adc96b701940040442f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 02/38] fix: close the satellite object when the altitude
 filter ends a pass

---
 src/sat_visibility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index d9d0e06..6242b6d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -871,6 +871,8 @@ int main(int argc, char **argv)
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
 	  sprintf(errmsg, "Satellite altitude out of requested range");
+	  if ( sunlit_start_found )
+	    printf("\"sat_end\": null}, ");  /* Close "satellite" object */
 	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	  exit(1);
 	}
-- 
2.43.0


From 3f9ef8a86b591b26d39554168c9366a7d31883b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 03/38] fix: fold right-ascension and longitude differences
 into half a turn on both sides

---
 src/sat_skymap.c     | 16 ++++------------
 src/sat_visibility.c |  4 +---
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 4b8c4dd..ed178a7 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -826,21 +826,15 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Approx or precise separation? */
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
-		d_ra = geo.lon * DEG2RAD - target_lon + TWOPI;
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);
 		d_dec = geo.lat - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-		d_ra = (ra - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra - target_ra, TWOPI);
 		d_dec = dec - target_dec;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
-		d_ra = (ra1 - target_ra + TWOPI);
-		if ( d_ra > PI )
-		  d_ra -= TWOPI;
+		d_ra = remainder(ra1 - target_ra, TWOPI);
 		d_dec = dec1 - target_dec;
 		ang_sep1 = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 	  }
@@ -874,9 +868,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, tle.intl_desig + 2);
 	  }
 
-	  d_ra = (ra1 - ra + TWOPI);
-	  if ( d_ra > PI )
-		d_ra -= TWOPI;
+	  d_ra = remainder(ra1 - ra, TWOPI);
 	  d_ra *= cos(dec);
 	  d_dec = dec1 - dec;
 	  posn_ang_of_motion = atan2(d_ra, d_dec);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 6242b6d..7ead3a5 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -523,9 +523,7 @@ void get_sat_PA_and_speed(double t_since) {
 	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
-	d_ra = (ra1 - sat.ra + TWOPI);
-	if ( d_ra > PI )
-		d_ra -= TWOPI;
+	d_ra = remainder(ra1 - sat.ra, TWOPI);
 	d_ra *= cos(sat.dec);
 	d_dec = dec1 - sat.dec;
 	sat.parang = atan2(d_ra, d_dec);
-- 
2.43.0


From 99f0e416c905331450b284dfb9d6adc20dcaa0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 04/38] fix: convert the sub-satellite latitude to radians in
 the plain separation from a geodetic reference

---
 src/sat_skymap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index ed178a7..2b067e0 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -827,7 +827,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	if ( !p.haversine ) {
 	  if ( p.geoloc_reference ) {
 		d_ra = remainder(geo.lon * DEG2RAD - target_lon, TWOPI);
-		d_dec = geo.lat - target_lat;
+		d_dec = geo.lat * DEG2RAD - target_lat;
 		ang_sep = sqrt(d_ra * d_ra + d_dec * d_dec) * RAD2DEG;
 		ang_sep1 = 2 * ang_sep;  // dummy
 	  } else {
-- 
2.43.0


From c8505a45c12bb7a1cc310e906fb204dff7793bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 05/38] fix: single-satellite mode reports only the requested
 satellite when a filter rejects it

---
 src/sat_skymap.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 2b067e0..bac5e98 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -725,10 +725,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("NORAD:->%s\n", norad_name);
 
 	 char intl_desig[12] = {"none"};
+	 bool sat_matched = false;  /* this one is the requested single satellite */
 	 if ( p.single_sat_n ) {
 		int norad_name_n = strtol(norad_name, &endptr, 10);
 		if ( norad_name_n == p.norad_n )
-			single_sat_found = true;
+			sat_matched = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, 10, "%s%.2s-%s",
@@ -736,14 +737,14 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			tle.intl_desig, tle.intl_desig + 2);
 
 		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
-		  single_sat_found = true;
+		  sat_matched = true;
 	} else if ( p.satname_filter ) {
 		if ( memcmp(sat_name, p.satname, len_satname) )
 		continue;
 	}
  
 /* Single satellite requested? */
-	if ( single_sat && !single_sat_found )
+	if ( single_sat && !sat_matched )
 		continue;
 /* Add a , to make it unique, and skip any previously met satellite */
 	strcat(norad_name, ",");
@@ -902,6 +903,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Speed is displayed in arcminutes/second (== degrees/minute) */
 	  }
 	  n_sats_found++;
+	  single_sat_found = sat_matched;
 
 	  if ( is_sunlit )
 		n_sunlit_sats++;
-- 
2.43.0


From 21a1a49821288a59be731d813a6fc4c9e18ae65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 06/38] fix: bring GMST into the 0-24 h range before J2000 too

---
 src/lmst_hr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lmst_hr.c b/src/lmst_hr.c
index 789b91e..18ca82c 100644
--- a/src/lmst_hr.c
+++ b/src/lmst_hr.c
@@ -43,6 +43,8 @@ double lmst_hr(const double jd, double longit, double *gmst)
   *gmst *= 24.;
   while (*gmst > 24.)
 	*gmst -= 24.;
+  while (*gmst < 0.)
+	*gmst += 24.;
 
   sid_int = sid_g;
   sid_g = (sid_g - (double)sid_int) * 24.;
-- 
2.43.0


From 989db075778707b951f97d47e64f99b3b09fa8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:33 +0000
Subject: [PATCH 07/38] fix: azimuth and parallactic angle of a target crossing
 the meridian south of the zenith

---
 src/dechalat2alt.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index c2cde5a..f061b6a 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -20,15 +20,15 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
   double cosdec = cos(dec), sindec = sin(dec), coslat = cos(lat);
 
 
-/* Manage peculiar cases and calculate Azimuth */
-  if ( ha == 0. ) {
-	*az = 0.;
+/* Calculate Azimuth */
+  if ( ha == 0. ) {  /* on the meridian: due north or due south of the zenith */
+	*az = (dec < lat ? 180. : 0.);
 	cosha = 1.;
-	cosaz = 1.;
+	cosaz = (dec < lat ? -1. : 1.);
 	sinha = 0.;
 	sinaz = 0.;
 	sinp  = 0.;
-	cosp = -1;
+	cosp = -cosaz;
 	sinlat = sin(lat);
   } else {
 	ha = ha * 15 * DEG2RAD;
-- 
2.43.0


From e7b9712b4a3d0b85d7c93159f2afd6e78b4af0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 08/38] fix: azimuth and parallactic angle seen from the poles

---
 src/dechalat2alt.c | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index f061b6a..3819dcb 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -34,32 +34,19 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
 	ha = ha * 15 * DEG2RAD;
 	cosha = cos(ha);
 	sinha = sin(ha);
-	if (coslat < 1e-6) {  /* very close to a pole: assume +/- 90 deg */
-	  coslat = 0.;
-	  if (lat < 0.)
-	    sinlat = -1.;
-	  else
-	    sinlat = 1.;
-          *az = ha;
-	  sinaz = sinha;
-	  cosaz = cosha;
-	  sinp  = 0.;
-	  cosp  = -1. * cosha*cosha - sinha*sinha;
-	} else {
-	  sinlat = sin(lat);
+	sinlat = sin(lat);
 
-          *az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
+	*az = atan2(-1. * cosdec*sinha, sindec*coslat - cosdec*cosha*sinlat);  /* due east, due north comp. */
 
-	  sinaz = sin(*az);
-	  cosaz = cos(*az);
+	sinaz = sin(*az);
+	cosaz = cos(*az);
 
-	  *az *= RAD2DEG;  /* done with taking trig functions of it ... */
-          if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
-          if (*az >= 360.) *az -= 360.;
-          if (cosdec != 0.) { /* protect divide by zero ... */
-	    sinp = -1. * sinaz * coslat / cosdec;
-	    cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
-	  }
+	*az *= RAD2DEG;  /* done with taking trig functions of it ... */
+	if (*az < 0.) *az += 360.;  /* force 0 -> 360 */
+	if (*az >= 360.) *az -= 360.;
+	if (cosdec != 0.) { /* protect divide by zero ... */
+	  sinp = -1. * sinaz * coslat / cosdec;
+	  cosp = -1. * cosaz * cosha - sinaz * sinha * sinlat;
 	}
   }
 
-- 
2.43.0


From cddd85ce31289effc71858050e505b47eb082d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 09/38] fix: altitude is 90 degrees only at the zenith, not
 wherever the declination equals the latitude

---
 src/dechalat2alt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dechalat2alt.c b/src/dechalat2alt.c
index 3819dcb..531d406 100644
--- a/src/dechalat2alt.c
+++ b/src/dechalat2alt.c
@@ -61,8 +61,8 @@ void dechalat2alt(double dec, double ha, double lat, double *alt, double *az, do
    }
 
 /* Altitude */
-  if ( fabs(dec - lat) < 1e-6 )
+  if ( ha == 0. && fabs(dec - lat) < 1e-6 )
 	*alt = 90.;
   else
-	*alt = RAD2DEG * asin(cosdec*cosha*coslat + sindec*sinlat);
+	*alt = RAD2DEG * asin(fmax(-1., fmin(1., cosdec*cosha*coslat + sindec*sinlat)));
 }
-- 
2.43.0


From 3357078401f56c183f79e2fcc872075f246ad0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 10/38] fix: separation of antipodal directions cannot round to
 NaN

---
 src/skysep_h.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skysep_h.c b/src/skysep_h.c
index a93a565..d5bf7f4 100644
--- a/src/skysep_h.c
+++ b/src/skysep_h.c
@@ -21,6 +21,6 @@ double skysep_h(const double theta1, const double phi1, const double theta2, con
   sin2a *= sin2a;
   sin2d = sin((phi2-phi1)/2.);
   sin2d *= sin2d;
-  return (2 * asin( sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a) ) * RAD2DEG);
+  return (2 * asin( fmin(1., sqrt(sin2d + cos(phi1)*cos(phi2)*sin2a)) ) * RAD2DEG);
 }
 
-- 
2.43.0


From f53fd7eb3441f76390161d33b95fc743d67dc325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 11/38] fix: keep the ORBIT_WITHIN_EARTH warning instead of
 overwriting it with PERIGEE_WITHIN_EARTH

---
 src/common.c | 2 +-
 src/sgp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index a6586b6..7baa15a 100644
--- a/src/common.c
+++ b/src/common.c
@@ -184,7 +184,7 @@ int sxpx_posn_vel( const double xnode, const double a, const double ecc,
       return( rval);
    if( a * (1. - ecc) < 1. && a * (1. + ecc) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
-   if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
+   else if( a * (1. - ecc) < 1. || a * (1. + ecc) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
   /* Solve Kepler's' Equation */
    for( i = 0; i < MAX_KEPLER_ITER; i++)
diff --git a/src/sgp.c b/src/sgp.c
index 5f83f2d..194580a 100644
--- a/src/sgp.c
+++ b/src/sgp.c
@@ -96,7 +96,7 @@ int DLL_FUNC SGP( const double tsince, const tle_t *tle, const double *params,
    a = ao * pow( tle->xno / a, two_thirds);
    if( a * (1. - e) < 1. && a * (1. + e) < 1.)   /* entirely within earth */
       rval = SXPX_WARN_ORBIT_WITHIN_EARTH;     /* remember, e can be negative */
-   if( a * (1. - e) < 1. || a * (1. + e) < 1.)   /* perigee within earth */
+   else if( a * (1. - e) < 1. || a * (1. + e) < 1.)   /* perigee within earth */
       rval = SXPX_WARN_PERIGEE_WITHIN_EARTH;
    if (a > qo) e = 1.-qo/a;
    p = a*(1.-e*e);
-- 
2.43.0


From 791eebc000a8dd80cf7d171f11929e8f245eded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 12/38] fix: -S matches its string anywhere in the satellite
 name, as documented

---
 src/sat_skymap.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index bac5e98..d586e26 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -351,7 +351,7 @@ int main(int argc, char **argv)
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_intl_desig = 0, len_satname = 0;
+	 len_intl_desig = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -512,7 +512,6 @@ int main(int argc, char **argv)
 		break;
           case 'S':
 		strcpy(p.satname, argv[i] + par_pos);
-		len_satname = strlen(p.satname);
 		p.satname_filter = true;
 		break;
           case 't':
@@ -739,7 +738,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
 		  sat_matched = true;
 	} else if ( p.satname_filter ) {
-		if ( memcmp(sat_name, p.satname, len_satname) )
+		if ( strstr(sat_name, p.satname) == NULL )
 		continue;
 	}
  
-- 
2.43.0


From 8bbb16b019564e62bce1c1fda4048a60ce17a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 13/38] fix: compare the complete international designator in
 -i, multi-letter pieces included

---
 src/sat_skymap.c     | 12 ++++++------
 src/sat_visibility.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index d586e26..2b6c8a1 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -350,8 +350,7 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[200], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
-  int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0,
-	 len_intl_desig = 0;
+  int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0;
   bool in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
@@ -460,7 +459,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		strcpy(p.intl_desig, argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -731,11 +729,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 			sat_matched = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		trimend(intl_desig);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(intl_desig, p.intl_desig) )
 		  sat_matched = true;
 	} else if ( p.satname_filter ) {
 		if ( strstr(sat_name, p.satname) == NULL )
@@ -863,9 +862,10 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 	  if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		trimend(intl_desig);
 	  }
 
 	  d_ra = remainder(ra1 - ra, TWOPI);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 7ead3a5..5a8bcc4 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -542,8 +542,7 @@ int main(int argc, char **argv)
 	sat_name[25], tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
-  int i, par_pos, status = 0, n_sats_found = 0,
-	 len_intl_desig = 0;
+  int i, par_pos, status = 0, n_sats_found = 0;
   bool in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -620,7 +619,6 @@ int main(int argc, char **argv)
 		break;
           case 'i':
 		strcpy(p.intl_desig, argv[i] + par_pos);
-		len_intl_desig = strlen(p.intl_desig);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		break;
@@ -771,11 +769,12 @@ int main(int argc, char **argv)
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		trimend(intl_desig);
 
-		if ( !memcmp(intl_desig, p.intl_desig, len_intl_desig) )
+		if ( !strcmp(intl_desig, p.intl_desig) )
 		  single_sat_found = true;
 	}
  
@@ -944,9 +943,10 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 
 	if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-		  snprintf( intl_desig, 10, "%s%.2s-%s",
+		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
 			tle.intl_desig, tle.intl_desig + 2);
+		trimend(intl_desig);
 	}
 
 	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-- 
2.43.0


From 61057bd39516f8af6071ae8718c936caf1004043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 14/38] fix: -d and -D take precedence over -j and -T in any
 order, as documented

---
 src/sat_skymap.c     | 10 +++++++---
 src/sat_visibility.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 2b6c8a1..f12394c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -351,7 +351,8 @@ int main(int argc, char **argv)
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0;
-  bool in_region = false,  /* used for single satellite request */
+  bool in_date = false, in_tledir = false,  /* -d and -D take precedence over -j and -T */
+	in_region = false,  /* used for single satellite request */
 	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
@@ -450,12 +451,13 @@ int main(int argc, char **argv)
 		p.geoloc_requested = true;
 		break;
           case 'd':
+		in_date = true;
 		strcpy(p.date, argv[i] + par_pos);
 		date2mjd_nf(argv[i] + par_pos, &p.mjd);
 		break;
  	  case 'D':
 		strcpy(tle_path, argv[i] + par_pos);
-		p.use_deftledir = false;
+		in_tledir = true;
 		break;
           case 'i':
 		strcpy(p.intl_desig, argv[i] + par_pos);
@@ -464,6 +466,8 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'j':
+		if ( in_date )
+			break;
 		p.mjd = atof(argv[i] + par_pos);
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
@@ -527,7 +531,7 @@ int main(int argc, char **argv)
   jd = JD_OFF + p.mjd;  // From MJD to JD
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !in_tledir )
 	strcpy(tle_path, DEF_TLEDIR);
 
   if ( !in_geopos ) {
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 5a8bcc4..930cf45 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -543,7 +543,8 @@ int main(int argc, char **argv)
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
-  bool in_geopos = false,  /* make sure Geo location is passed */
+  bool in_date = false, in_tledir = false,  /* -d and -D take precedence over -j and -T */
+	in_geopos = false,  /* make sure Geo location is passed */
 	input_list = false;  /* if the input file is in fact a TLEs list */
 
 
@@ -609,13 +610,14 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
+		in_date = true;
 		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
 		date2mjd_nf(p.date[0], &p.mjd[0]);
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
  	  case 'D':
 		strcpy(tle_path, argv[i] + par_pos);
-		p.use_deftledir = false;
+		in_tledir = true;
 		break;
           case 'i':
 		strcpy(p.intl_desig, argv[i] + par_pos);
@@ -627,6 +629,8 @@ int main(int argc, char **argv)
 			Usage();
 		        exit(0);
 		}
+		if ( in_date )
+			break;
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
@@ -668,7 +672,7 @@ int main(int argc, char **argv)
   jd[1] = JD_OFF + p.mjd[1];
 
 /* Use default TLE repository dir. ? */
-  if ( p.use_deftledir )
+  if ( p.use_deftledir && !in_tledir )
 	strcpy(tle_path, DEF_TLEDIR);
 
   if ( !in_geopos ) {
-- 
2.43.0


From 11cfc9e56c1b3959e46719ecf3abf2b0c142a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 15/38] fix: -a after -s or -i does not bring the altitude
 filter back for a single satellite

---
 src/sat_skymap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f12394c..f698ac7 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -594,6 +594,7 @@ int main(int argc, char **argv)
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
 	p.geoloc_requested = true;
+	p.altrng_requested = false;  /* No altitude filter, also if -a follows -s or -i */
   }
 
 /* Local Mean Sidereal Time & GMST */
-- 
2.43.0


From eca25e2d344674f44465e3092db449f3b583b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 16/38] fix: sat_visibility applies the -a altitude range
 whether it precedes or follows -s or -i

---
 src/sat_visibility.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 930cf45..a1d6f74 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -622,7 +622,6 @@ int main(int argc, char **argv)
           case 'i':
 		strcpy(p.intl_desig, argv[i] + par_pos);
 		p.single_sat_i = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 'j':
 		if ( strchr(argv[i] + par_pos, '-') != NULL ) {  // A minimal check
@@ -654,7 +653,6 @@ int main(int argc, char **argv)
           case 's':
 		p.norad_n = strtol(argv[i] + par_pos, &endptr, 10);
 		p.single_sat_n = true;
-		p.altrng_requested = false;  // No altitude filter
 		break;
           case 't':
 		p.delta_time = atof(argv[i] + par_pos);
-- 
2.43.0


From a04e977a0be94beee578d9525282d5e77970b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 17/38] fix: -s selects by the decoded catalogue number,
 Alpha-5 and Super-5 included

---
 src/sat_skymap.c     | 3 +--
 src/sat_visibility.c | 8 ++------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index f698ac7..e30ae11 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -729,8 +729,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	 char intl_desig[12] = {"none"};
 	 bool sat_matched = false;  /* this one is the requested single satellite */
 	 if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			sat_matched = true;
 	 } else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index a1d6f74..ac36b94 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -683,7 +683,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
   const short fname_len = 64;
-  char row[fname_len], norad_name[7], tle_list_file[200];
+  char row[fname_len], tle_list_file[200];
   FILE *lisfile, *ifile = NULL;
 
   open_json();
@@ -762,12 +762,8 @@ int main(int argc, char **argv)
 
       if ( !parse_elements(line1, line2, &tle) ) { /* TLE found */
 /* First check if we have processed this sat already */
-	strncpy(norad_name, line1+2, 5);  /* this is tle.norad_number */
-	norad_name[5] = '\0';
-
 	if ( p.single_sat_n ) {
-		int norad_name_n = strtol(norad_name, &endptr, 10);
-		if ( norad_name_n == p.norad_n )
+		if ( tle.norad_number == p.norad_n )
 			single_sat_found = true;
 	} else if ( p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
-- 
2.43.0


From b693cea7fdb17039f5fc339cca7041032713e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 18/38] fix: exit code agrees with the reported status; usage
 message has no line break inside its JSON string

---
 src/sat_skymap.c     | 6 +++---
 src/sat_visibility.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index e30ae11..3c0ff2e 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -359,9 +359,9 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	sprintf(errmsg, "Example usage: %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
-	exit(0);
+	exit(1);
   }
 
 
@@ -794,7 +794,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 		if ( !p.info_only && n_sats_found > 0 )
 		  printf("],");  /* Close "satellites" array */
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
-		exit(1);
+		exit(2);
 	}
 
 /* For single satellite also report its geo Lat, Lon, Alt, theta...
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index ac36b94..7150517 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -550,9 +550,9 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage:\n %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	sprintf(errmsg, "Example usage: %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
-	exit(0);
+	exit(1);
   }
 
 
@@ -869,7 +869,7 @@ int main(int argc, char **argv)
 	  if ( sunlit_start_found )
 	    printf("\"sat_end\": null}, ");  /* Close "satellite" object */
 	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
-	  exit(1);
+	  exit(2);
 	}
     }
 
-- 
2.43.0


From c485f983056ddbdf7844e6d3990f5f0c2ca1246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 19/38] fix: an option without its argument, or a lone "-", no
 longer reads past the argument list

---
 src/sat_skymap.c     | 10 ++++++++--
 src/sat_visibility.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 3c0ff2e..fd4f7a3 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -402,10 +402,16 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt == 0 || argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		  if ( i == argc && strchr("EGHITVh", opt) == NULL ) {
+			open_json();
+			sprintf(errmsg, "Missing argument of command-line option '-%c'", opt);
+			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+			exit(-2);
+		  }
 		}
 	switch( opt )
 	{
@@ -521,7 +527,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		sprintf(errmsg, "Unrecognized command-line option '-%.1s'", &opt);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 7150517..86cb1d8 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -575,10 +575,16 @@ int main(int argc, char **argv)
     if ( argv[i][0] == '-' ) {
 		opt = argv[i][1];
 		par_pos = 2;
-		if ( argv[i][2] == 0 ) {  /* blank after option */
+		if ( opt == 0 || argv[i][2] == 0 ) {  /* blank after option */
 //if ( argv[i+1][0] != '-' )  /* No, because of possible negative numbers after the param */
 		  ++i;
 		  par_pos = 0;
+		  if ( i == argc && strchr("NTh", opt) == NULL ) {
+			open_json();
+			sprintf(errmsg, "Missing argument of command-line option '-%c'", opt);
+			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
+			exit(-2);
+		  }
 		}
 	switch( opt )
 	{
@@ -659,7 +665,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '%s'", argv[i]);
+		sprintf(errmsg, "Unrecognized command-line option '-%.1s'", &opt);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
-- 
2.43.0


From 9d4000fe49c3ea7d200b06570b48ac5c07175803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 20/38] fix: a switch followed by other characters (-GH) no
 longer loops forever

---
 src/sat_skymap.c     | 18 ++++++++++++------
 src/sat_visibility.c |  6 ++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index fd4f7a3..0cbc0c1 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -422,27 +422,33 @@ int main(int argc, char **argv)
  	  case 'E':
 		p.geoloc_reference = true;
 		p.geoloc_requested = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
  	  case 'G':
 		p.geoloc_requested = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
  	  case 'H':
 		p.haversine = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
  	  case 'I':
 		p.info_only = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
  	  case 'V':
 		p.sunlit_only = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
 
 	  /* Parameters */
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 86cb1d8..f9847d4 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -594,11 +594,13 @@ int main(int argc, char **argv)
 		exit(0);
  	  case 'N':
 		p.skip_daytime = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
  	  case 'T':
 		p.use_deftledir = true;
-		i--;
+		if ( par_pos == 0 )
+		  i--;
 		break;
 
 	  /* Parameters */
-- 
2.43.0


From 1c9bf144e21a083079f690a7d1f7e431461cb7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 21/38] fix: run_command repeats the arguments as given when
 the @list is not the first one

---
 src/sat_skymap.c     | 11 +++--------
 src/sat_visibility.c | 11 +++--------
 2 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 0cbc0c1..77bab9f 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -229,14 +229,9 @@ void add_satlatlon_json(Geoloc geo) {
 }
 
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found, int n_sats, int n_sunlit_sats) {
-  int iarg = 1;
   printf(" \"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
 
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d, \"n_sats\": %d,"
@@ -573,7 +568,7 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		sprintf(errmsg, "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -601,7 +596,7 @@ int main(int argc, char **argv)
 
   sbuff[0] = '\0';
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( p.single_sat_n || p.single_sat_i ) {
 	single_sat = true;
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f9847d4..f72d31c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -384,14 +384,9 @@ void add_sundata_json(char *label) {
 }
 
 void close_stat_json(int argc, char **argv, bool input_list, int status, char *errmsg, int n_sats_found) {
-  int iarg = 1;
   printf("\"run_command\": \"%s", progname);
-  if ( input_list ) {
-	printf (" @%s", argv[1]);
-	iarg++;
-  }
 
-  for ( int i = iarg; i < argc; i++ ) {
+  for ( int i = 1; i < argc; i++ ) {
 	printf (" %s", argv[i]);
   }
   printf("\", \"status\": %d, \"errmsg\": \"%s\", \"n_sats_found\": %d"
@@ -704,7 +699,7 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, ++argv[iarg]);
+	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
 		sprintf(errmsg, "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
@@ -712,7 +707,7 @@ int main(int argc, char **argv)
 	}
   }
 
-  p.tle_file_name = argv[iarg];
+  p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
 	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
-- 
2.43.0


From 604b753fec27627fab5d2bb8e0c38ba81743f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 22/38] fix: seconds of a date keep their fraction and are no
 longer rounded to 1e-5 days

---
 src/date2mjd_nf.c    | 11 +++++------
 src/sat_visibility.c |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/date2mjd_nf.c b/src/date2mjd_nf.c
index 695a0ee..e055837 100644
--- a/src/date2mjd_nf.c
+++ b/src/date2mjd_nf.c
@@ -1,5 +1,5 @@
 /*
-  From DATE in the form "2020-08-07T12:15:11" to MJD.
+  From DATE in the form "2020-08-07T12:15:11[.sss]" to MJD.
 
   Return 0 un success.
 
@@ -16,10 +16,11 @@ static const double JD_OFF = 2400000.5;
 
 int date2mjd_nf(const char *date, double *mjd) {
 
-  int nr, y, m, d, h, mm, s;
+  int nr, y, m, d, h, mm;
+  double s;
   long a,b;
 
-  nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%2d", &y, &m, &d, &h, &mm, &s);
+  nr = sscanf( date, "%4d-%2d-%2dT%2d:%2d:%lf", &y, &m, &d, &h, &mm, &s);
 
   if ( nr == 6 ) {
     if ( m<=2 ) {
@@ -30,10 +31,8 @@ int date2mjd_nf(const char *date, double *mjd) {
     b = 2 - a + a/4;
     *mjd = b + floor(365.25 * y) + floor(30.6001 * (m + 1)) + d + 1720994.5;
 //printf("mjd 1: %lf\n", *mjd);
-//printf("%f\n", roundf((s + 60 * (mm + 60 * h)) / 86400. * 100000)/100000);
-    *mjd += roundf((s + 60 * (mm + 60 * h)) / 86400. * 100000) / 100000;
-
     *mjd -= JD_OFF;
+    *mjd += (s + 60 * (mm + 60 * h)) / 86400.;
 
     return 0;
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f72d31c..be0b587 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -614,7 +614,7 @@ int main(int argc, char **argv)
 		        exit(0);
 		}
 		in_date = true;
-		sscanf(argv[i] + par_pos, "%19s,%19s", p.date[0], p.date[1]);
+		sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]);
 		date2mjd_nf(p.date[0], &p.mjd[0]);
 		date2mjd_nf(p.date[1], &p.mjd[1]);
 		break;
-- 
2.43.0


From 4b92d66412ef48adbf0fffcb01a68f17d50c6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 23/38] fix: an unreadable date or an MJD outside the calendar
 range is reported instead of taken as MJD 0 or crashing

---
 src/sat_skymap.c     | 13 ++++++++++++-
 src/sat_visibility.c | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 77bab9f..1e02e0a 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -460,7 +460,12 @@ int main(int argc, char **argv)
           case 'd':
 		in_date = true;
 		strcpy(p.date, argv[i] + par_pos);
-		date2mjd_nf(argv[i] + par_pos, &p.mjd);
+		if ( date2mjd_nf(argv[i] + par_pos, &p.mjd) )  {
+		  open_json();
+		  sprintf(errmsg, "Date must be in the form yyyy-mm-ddThh:mm:ss[.sss]");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
  	  case 'D':
 		strcpy(tle_path, argv[i] + par_pos);
@@ -476,6 +481,12 @@ int main(int argc, char **argv)
 		if ( in_date )
 			break;
 		p.mjd = atof(argv[i] + par_pos);
+		if ( mjd2date(p.mjd) == NULL )  {
+		  open_json();
+		  sprintf(errmsg, "MJD out of range");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		strcpy(p.date, mjd2date(p.mjd));
 		break;
           case 'l':
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index be0b587..df519c8 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -615,8 +615,12 @@ int main(int argc, char **argv)
 		}
 		in_date = true;
 		sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]);
-		date2mjd_nf(p.date[0], &p.mjd[0]);
-		date2mjd_nf(p.date[1], &p.mjd[1]);
+		if ( date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) )  {
+		  open_json();
+		  sprintf(errmsg, "Dates must be in the form yyyy-mm-ddThh:mm:ss[.sss]");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
  	  case 'D':
 		strcpy(tle_path, argv[i] + par_pos);
@@ -634,6 +638,12 @@ int main(int argc, char **argv)
 		if ( in_date )
 			break;
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
+		if ( mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )  {
+		  open_json();
+		  sprintf(errmsg, "MJD out of range");
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		strcpy(p.date[0], mjd2date(p.mjd[0]));
 		strcpy(p.date[1], mjd2date(p.mjd[1]));
 		break;
-- 
2.43.0


From d0b9ecabeeccf18e3026a60ca8ed98a946d84743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 24/38] fix: long arguments, file names and dates no longer
 overrun their buffers

---
 src/mjd2date.c       |  4 ++--
 src/sat_skymap.c     | 54 ++++++++++++++++++++++----------------------
 src/sat_visibility.c | 54 ++++++++++++++++++++++----------------------
 3 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/src/mjd2date.c b/src/mjd2date.c
index 8105fd2..b9b807b 100644
--- a/src/mjd2date.c
+++ b/src/mjd2date.c
@@ -67,7 +67,7 @@ char *mjd2date(double mjd)
   f -= mm/1440.;
   s = (int)(f*86400);
 
-  sprintf(date, "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d", iy, im, id, h, mm, s);
+  snprintf(date, sizeof(date), "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d", iy, im, id, h, mm, s);
 
   return date;
 }
@@ -123,7 +123,7 @@ char *mjd2datef(double mjd)
   f -= s/86400.;
   fs = (int)(f*8.64e7);
 
-  sprintf(date, "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d.%3.3d", iy, im, id, h, mm, s, fs);
+  snprintf(date, sizeof(date), "%4d-%2.2d-%2.2dT%2.2d:%2.2d:%2.2d.%3.3d", iy, im, id, h, mm, s, fs);
 
   return date;
 }
diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 1e02e0a..4f96c23 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -342,7 +342,7 @@ void sat_geoLocation(double gmst, double *pos,  Geoloc *geo) {
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+	sat_name[25] = {""}, tle_path_file[200], opt, *endptr;
   double jd, rho_sin_phi, rho_cos_phi, observer_loc[3], observer_loc2[3],
 	 target_ra, target_dec, target_lon = 0, target_lat = 0;
   int i, par_pos, status = 0, n_sats_found = 0, n_sats = 0, n_sunlit_sats = 0;
@@ -354,7 +354,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage: %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage: %s default.tle -l-29.25627,-70.73805,2400 -p90.5,-30.3 -j58861.5 -r20", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(1);
   }
@@ -403,7 +403,7 @@ int main(int argc, char **argv)
 		  par_pos = 0;
 		  if ( i == argc && strchr("EGHITVh", opt) == NULL ) {
 			open_json();
-			sprintf(errmsg, "Missing argument of command-line option '-%c'", opt);
+			snprintf(errmsg, sizeof(errmsg), "Missing argument of command-line option '-%c'", opt);
 			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 			exit(-2);
 		  }
@@ -459,20 +459,20 @@ int main(int argc, char **argv)
 		break;
           case 'd':
 		in_date = true;
-		strcpy(p.date, argv[i] + par_pos);
+		snprintf(p.date, sizeof(p.date), "%s", argv[i] + par_pos);
 		if ( date2mjd_nf(argv[i] + par_pos, &p.mjd) )  {
 		  open_json();
-		  sprintf(errmsg, "Date must be in the form yyyy-mm-ddThh:mm:ss[.sss]");
+		  snprintf(errmsg, sizeof(errmsg), "Date must be in the form yyyy-mm-ddThh:mm:ss[.sss]");
 		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
 		in_tledir = true;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		p.single_sat_i = true;
 		p.altrng_requested = false;  // No altitude filter
 		in_region = false;
@@ -483,11 +483,11 @@ int main(int argc, char **argv)
 		p.mjd = atof(argv[i] + par_pos);
 		if ( mjd2date(p.mjd) == NULL )  {
 		  open_json();
-		  sprintf(errmsg, "MJD out of range");
+		  snprintf(errmsg, sizeof(errmsg), "MJD out of range");
 		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
-		strcpy(p.date, mjd2date(p.mjd));
+		snprintf(p.date, sizeof(p.date), "%s", mjd2date(p.mjd));
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -496,7 +496,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -509,13 +509,13 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.ra_deg, &p.de_deg);
 		if ( p.ra_deg < 0. || p.ra_deg > 360. )  {
 		  open_json();
-		  sprintf(errmsg, "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
+		  snprintf(errmsg, sizeof(errmsg), "RA must be in the range [0, 360[ degrees. Read '%lf'", p.ra_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
 		if ( p.de_deg < -90. || p.de_deg > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
+		  snprintf(errmsg, sizeof(errmsg), "Dec must be in the range [-90, +90] degrees. Read '%lf'", p.de_deg);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		  exit(-1);
 		}
@@ -531,7 +531,7 @@ int main(int argc, char **argv)
 		in_region = false;
 		break;
           case 'S':
-		strcpy(p.satname, argv[i] + par_pos);
+		snprintf(p.satname, sizeof(p.satname), "%s", argv[i] + par_pos);
 		p.satname_filter = true;
 		break;
           case 't':
@@ -539,7 +539,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '-%.1s'", &opt);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '-%.1s'", &opt);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(-2);
 		break;
@@ -550,7 +550,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir && !in_tledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	snprintf(tle_path, sizeof(tle_path), "%s", DEF_TLEDIR);
 
   if ( !in_geopos ) {
 	Usage();
@@ -579,9 +579,9 @@ int main(int argc, char **argv)
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
 	//tle_list_file = ++argv[1];
-	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 		exit(2);
 	}
@@ -600,7 +600,7 @@ int main(int argc, char **argv)
   bool single_sat = false, single_sat_found = false, read_tle_list = true;
 
   if ( (sbuff = (char *)malloc(max_satbuff)) == NULL ) {
-	sprintf(errmsg, "Could not allocate required buffer memory");
+	snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
   	close_stat_json(argc, argv, input_list, 3, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 	exit(3);
   }
@@ -693,9 +693,9 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -709,12 +709,12 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
 //printf("\ntle_path_file: %s\n\n", tle_path_file);
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	if ( !p.info_only && n_sats_found > 0 )
   	  printf("],");  /* Close "satellites" array */
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -723,7 +723,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	if ( !p.info_only && n_sats_found > 0 )
 	  printf("],");  /* Close "satellites" array */
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -772,11 +772,11 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 //printf("Found string '%s' at index = %ld ... skipping.\n", norad_name, s - sbuff);
 		continue;
 	} else {
-		if ( use_bufflen >= cur_bufflen ) {
+		if ( use_bufflen + 7 > cur_bufflen ) {
 		  cur_bufflen += extra_satbuff;
 //printf("\nRealloc extra bytes. Now %d \n", cur_bufflen);
 		  if ( (sbuff = (char *)realloc(sbuff, cur_bufflen)) == NULL ) {
-		    sprintf(errmsg, "Could not allocate required buffer memory");
+		    snprintf(errmsg, sizeof(errmsg), "Could not allocate required buffer memory");
 		    if ( !p.info_only && n_sats_found > 0 )
 		      printf("],");  /* Close "satellites" array */
 		    close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -808,7 +808,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 
 /* For malformed or partial tle (e.g. Bepi-Colombo) this could happen */
 	if ( isnan(ra) || isnan(dec) ) {
-		sprintf(errmsg, "Could not decode TLE data");
+		snprintf(errmsg, sizeof(errmsg), "Could not decode TLE data");
 		if ( !p.info_only && n_sats_found > 0 )
 		  printf("],");  /* Close "satellites" array */
 		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found, n_sats, n_sunlit_sats);
@@ -960,7 +960,7 @@ end_checking:
 
 /* For single satellite request report failure but do not rise an error flag */
   if ( single_sat && !single_sat_found )
-	sprintf(errmsg, "Requested satellite not found in TLE file");
+	snprintf(errmsg, sizeof(errmsg), "Requested satellite not found in TLE file");
 
   close_stat_json(argc, argv, input_list, status, errmsg, n_sats_found, n_sats, n_sunlit_sats);
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index df519c8..f88f3b9 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -534,7 +534,7 @@ void get_sat_PA_and_speed(double t_since) {
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25], tle_path_file[200], opt, *endptr;
+	sat_name[25] = {""}, tle_path_file[200], opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
@@ -545,7 +545,7 @@ int main(int argc, char **argv)
 
   if ( argc < 2 ) {
 	open_json();
-	sprintf(errmsg, "Example usage: %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
+	snprintf(errmsg, sizeof(errmsg), "Example usage: %s stations.txt -l-29.25627,-70.73805,2400 -j58941.72,58941.73 -s 25544", progname);
  	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
@@ -576,7 +576,7 @@ int main(int argc, char **argv)
 		  par_pos = 0;
 		  if ( i == argc && strchr("NTh", opt) == NULL ) {
 			open_json();
-			sprintf(errmsg, "Missing argument of command-line option '-%c'", opt);
+			snprintf(errmsg, sizeof(errmsg), "Missing argument of command-line option '-%c'", opt);
 			close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 			exit(-2);
 		  }
@@ -617,17 +617,17 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%23[^,],%23s", p.date[0], p.date[1]);
 		if ( date2mjd_nf(p.date[0], &p.mjd[0]) || date2mjd_nf(p.date[1], &p.mjd[1]) )  {
 		  open_json();
-		  sprintf(errmsg, "Dates must be in the form yyyy-mm-ddThh:mm:ss[.sss]");
+		  snprintf(errmsg, sizeof(errmsg), "Dates must be in the form yyyy-mm-ddThh:mm:ss[.sss]");
 		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
 		break;
  	  case 'D':
-		strcpy(tle_path, argv[i] + par_pos);
+		snprintf(tle_path, sizeof(tle_path), "%s", argv[i] + par_pos);
 		in_tledir = true;
 		break;
           case 'i':
-		strcpy(p.intl_desig, argv[i] + par_pos);
+		snprintf(p.intl_desig, sizeof(p.intl_desig), "%s", argv[i] + par_pos);
 		p.single_sat_i = true;
 		break;
           case 'j':
@@ -640,12 +640,12 @@ int main(int argc, char **argv)
 		sscanf(argv[i] + par_pos, "%lf,%lf", &p.mjd[0], &p.mjd[1]);
 		if ( mjd2date(p.mjd[0]) == NULL || mjd2date(p.mjd[1]) == NULL )  {
 		  open_json();
-		  sprintf(errmsg, "MJD out of range");
+		  snprintf(errmsg, sizeof(errmsg), "MJD out of range");
 		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
-		strcpy(p.date[0], mjd2date(p.mjd[0]));
-		strcpy(p.date[1], mjd2date(p.mjd[1]));
+		snprintf(p.date[0], sizeof(p.date[0]), "%s", mjd2date(p.mjd[0]));
+		snprintf(p.date[1], sizeof(p.date[1]), "%s", mjd2date(p.mjd[1]));
 		break;
           case 'l':
 		sscanf(argv[i] + par_pos, "%lf,%lf,%lf", &p.lat, &p.lon, &p.ht_in_meters);
@@ -654,7 +654,7 @@ int main(int argc, char **argv)
 		  p.lon += 360;
 		if ( p.lat < -90. || p.lat > 90. )  {
 		  open_json();
-		  sprintf(errmsg, "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
+		  snprintf(errmsg, sizeof(errmsg), "Latitude must be in the range [-90, +90] degrees. Read '%lf'", p.lat);
   		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
 		  exit(-1);
 		}
@@ -672,7 +672,7 @@ int main(int argc, char **argv)
 		break;
           default:
 		open_json();
-		sprintf(errmsg, "Unrecognized command-line option '-%.1s'", &opt);
+		snprintf(errmsg, sizeof(errmsg), "Unrecognized command-line option '-%.1s'", &opt);
   		close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 		exit(-2);
 		break;
@@ -684,7 +684,7 @@ int main(int argc, char **argv)
 
 /* Use default TLE repository dir. ? */
   if ( p.use_deftledir && !in_tledir )
-	strcpy(tle_path, DEF_TLEDIR);
+	snprintf(tle_path, sizeof(tle_path), "%s", DEF_TLEDIR);
 
   if ( !in_geopos ) {
 	Usage();
@@ -709,9 +709,9 @@ int main(int argc, char **argv)
 
   if ( *argv[iarg] == '@' ) {
 	input_list = true;
-	sprintf(tle_list_file, "%s/%s", tle_path, argv[iarg] + 1);
+	snprintf(tle_list_file, sizeof(tle_list_file), "%s/%s", tle_path, argv[iarg] + 1);
 	if ( !(lisfile = fopen(tle_list_file, "rb")) ) {
-		sprintf(errmsg, "Could not open input file %s", tle_list_file);
+		snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_list_file);
   		close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 		exit(2);
 	}
@@ -720,7 +720,7 @@ int main(int argc, char **argv)
   p.tle_file_name = argv[iarg] + (input_list ? 1 : 0);
 
   if ( !p.single_sat_n && !p.single_sat_i ) {
-	sprintf(errmsg, "Need to input a NORAD ID or an international designator.");
+	snprintf(errmsg, sizeof(errmsg), "Need to input a NORAD ID or an international designator.");
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
   }
@@ -737,9 +737,9 @@ int main(int argc, char **argv)
     char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
-	  sprintf(tle_path_file, "%s/%s", tle_path, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
 	else
-	  strcpy(tle_path_file, p.tle_file_name);
+	  snprintf(tle_path_file, sizeof(tle_path_file), "%s", p.tle_file_name);
 	read_tle_list = false;
     } else {
 
@@ -753,17 +753,17 @@ int main(int argc, char **argv)
 	  *lastchar = (char) 0;
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
-	sprintf(tle_path_file, "%s/%s", tle_path, tle_file_name);
+	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
     }
  
     if ( !(ifile = fopen(tle_path_file, "rb")) ) {  /* Report error message and stop */
-	sprintf(errmsg, "Could not open input file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not open input file %s", tle_path_file);
   	close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
 	exit(2);
     }
 
     if ( !fgets( line1, sizeof(line1), ifile) ) {
-	sprintf(errmsg, "Could not read first TLE line from file %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Could not read first TLE line from file %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, -2, errmsg, n_sats_found);
 	exit(-2);
     }
@@ -810,7 +810,7 @@ int main(int argc, char **argv)
   fclose(ifile);
 
   if ( !single_sat_found ) {
-	sprintf(errmsg, "Satellite not found in %s", tle_path_file);
+	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
 	exit(1);
   }
@@ -878,7 +878,7 @@ int main(int argc, char **argv)
 
 /* If altitude filter requested */
 	if ( geo.alt < p.alt_min || geo.alt > p.alt_max ) {
-	  sprintf(errmsg, "Satellite altitude out of requested range");
+	  snprintf(errmsg, sizeof(errmsg), "Satellite altitude out of requested range");
 	  if ( sunlit_start_found )
 	    printf("\"sat_end\": null}, ");  /* Close "satellite" object */
 	  close_stat_json(argc, argv, input_list, 2, errmsg, n_sats_found);
@@ -938,7 +938,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
 	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
-	  strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	  snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	  epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -973,7 +973,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_satlatlon_json("geoloc_start");
 	add_sundata_json("sun_start");
 	sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
-	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -994,7 +994,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
 	sat.cur_mjd = mjd_sunlit_end;
-	strcpy(sat.cur_date, mjd2date(sat.cur_mjd));
+	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1031,7 +1031,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
-	strcpy(sat.cur_date, mjd2date(mjd_sunlit_mid));
+	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(mjd_sunlit_mid));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1067,7 +1067,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
-	strcpy(sat.cur_date, mjd2date(t - JD_OFF));
+	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(t - JD_OFF));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0


From bd9de8b98d72eb02edd1fbbfc4ca466c9bc5bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 25/38] fix: file lists with CR LF line ends

---
 src/sat_skymap.c     | 5 +----
 src/sat_visibility.c | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 4f96c23..22ba78c 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -690,7 +690,6 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 /* Loop on list of tle files or simple open of single input file */
   while ( read_tle_list ) {
 
-    char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
 	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
@@ -704,9 +703,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	row[strcspn(row, "\r\n")] = '\0';  /* Drop linefeeds, CR, ... */
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index f88f3b9..9256d78 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -734,7 +734,6 @@ int main(int argc, char **argv)
 /* Loop on list of tle files or simple open of single input file */
   while ( read_tle_list ) {
 
-    char *lastchar;
     if ( !input_list ) {
 	if ( strchr(p.tle_file_name, '/') == NULL )
 	  snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, p.tle_file_name);
@@ -748,9 +747,7 @@ int main(int argc, char **argv)
 	  break;
 	if ( row[0] == '#' )  /* Skip lines with comments */
 	  continue;
-	lastchar = tle_file_name + strlen(tle_file_name) - 1;  /* Drop linefeeds, CR, ... */
-	if (*lastchar < 32)
-	  *lastchar = (char) 0;
+	row[strcspn(row, "\r\n")] = '\0';  /* Drop linefeeds, CR, ... */
 	if ( strlen(row) == 0 )  /* Skip empty lines */
 	  continue;
 	snprintf(tle_path_file, sizeof(tle_path_file), "%s/%s", tle_path, tle_file_name);
-- 
2.43.0


From b881445e4afdd98e966ea24321880fecbe0f8d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 26/38] fix: names that begin with 1 or 2 (1KUNS-PF) were not
 recognised as names

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 22ba78c..4bdfeca 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -934,7 +934,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {
 	  strncpy(sat_name, line2, 23);
 	  trimend(sat_name);
       }
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 9256d78..304f48c 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -793,7 +793,7 @@ int main(int argc, char **argv)
       }  // end TLE found
 
       strcpy(line1, line2);
-      if ( line2[0] != '1' && line2[0] != '2' ) {
+      if ( (line2[0] != '1' && line2[0] != '2') || line2[1] != ' ' ) {
 	strncpy(sat_name, line2, 23);
 	trimend(sat_name);
       }
-- 
2.43.0


From fa2217d124f69aedd71448134a0baef3ed33e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 27/38] fix: sat_visibility reported sidereal times and region
 RA before computing them

---
 src/sat_visibility.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 304f48c..e98832b 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -827,6 +827,9 @@ int main(int argc, char **argv)
   p.de_deg = p.lat;
   target_dec_rad = p.lat * DEG2RAD;
 
+  p.lmst = lmst_hr(jd[0], p.lon, &p.gmst);
+  p.ra_deg = p.lmst * 15.;
+
   add_geofieldsdesc_json();
 /* Alt, Az, Parang from Dec, HA, Lat */
   dechalat2alt(target_dec_rad, hazenith, p.lat, &p.alt, &p.az, &p.parang);
-- 
2.43.0


From 090e1b5b72aebe52ff9c590d6f7360cb7d027d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 28/38] fix: MJD of sat_mid and sat_max was that of sat_end

---
 src/sat_visibility.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index e98832b..88c3cab 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -1031,7 +1031,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_mid");
 	add_sundata_json("sun_mid");
-	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(mjd_sunlit_mid));
+	sat.cur_mjd = mjd_sunlit_mid;
+	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
@@ -1067,7 +1068,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	add_satlatlon_json("geoloc_max");
 	add_sundata_json("sun_max");
-	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(t - JD_OFF));
+	sat.cur_mjd = t - JD_OFF;
+	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
-- 
2.43.0


From 4aa9f8612b52f18b2fd231b829f44560409b1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 29/38] fix: start and end of visibility were one time step
 late, except for an end outside the region

---
 src/sat_visibility.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 88c3cab..388bed9 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -818,7 +818,7 @@ int main(int argc, char **argv)
   double t_since, t_min_ang_dist = 0, min_ang_sep = 181, parang_sat,
 	mjd_sunlit_start = 0, mjd_sunlit_mid = 0, mjd_sunlit_end = 0,
 	pos[3],  /* Satellite position vector */
-	t = jd[0],
+	t = jd[0], t_cur,
 	eray[2];  /* Sun-Earth ray intersection radius */
 
   bool is_t_start = true, sunlit_start_found = false, sunlit_end_found = false;
@@ -855,6 +855,7 @@ int main(int argc, char **argv)
   }
 
   while (t <= jd[1]) {  // Final t is approx
+    t_cur = t;
 
 /* Local Mean Sidereal Time & GMST */
     p.lmst = lmst_hr(t, p.lon, &p.gmst);
@@ -933,15 +934,15 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite no longer sunlit */
 	if ( !sunlit_end_found ) {
 	  sunlit_end_found = true;
-	  mjd_sunlit_end = t - JD_OFF;
+	  mjd_sunlit_end = t_cur - JD_OFF;
 	  sat_geoLocation(pos);
 	  add_satlatlon_json("geoloc_end");
 	  add_sundata_json("sun_end");
-	  sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
+	  sat.cur_mjd = t_cur - JD_OFF;
 	  snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	  epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
+	  epoch_of_date_to_j2000(t_cur, &sat.ra, &sat.dec);  /* Approx precession */
 	  add_satdata_json("sat_end");
 	  break;
       }
@@ -950,7 +951,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* First time the satellite is sunlit */
     if ( !sunlit_start_found ) {
 	sunlit_start_found = true;
-	mjd_sunlit_start = t - JD_OFF;
+	mjd_sunlit_start = t_cur - JD_OFF;
 
 	if ( !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
@@ -972,11 +973,11 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_start");
 	add_sundata_json("sun_start");
-	sat.cur_mjd = t - JD_OFF - p.delta_time / SEC_IN_DAY;
+	sat.cur_mjd = t_cur - JD_OFF;
 	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
+	epoch_of_date_to_j2000(t_cur, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_start");
 	  n_sats_found++;
 
-- 
2.43.0


From c47a5449f12e22ccc9c3e331c6fd897069cb7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 30/38] fix: sun_end was one time step old when the satellite
 left the region

---
 src/sat_visibility.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 388bed9..61c5067 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -991,6 +991,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 /* Still sunlit at the end of the requested time range */
   if ( sunlit_start_found && !sunlit_end_found ) {
 	mjd_sunlit_end = t - JD_OFF;
+	get_sun_data(t, target_ra_rad, target_dec_rad, false);
 	sat_geoLocation(pos);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
-- 
2.43.0


From a5a45e3c8a3d6743e194d1004845436795105e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 31/38] fix: PA and Speed of sat_end, sat_mid and sat_max were
 those of sat_start, seen from a site that did not rotate

---
 src/sat_visibility.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 61c5067..b8da9c9 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -504,10 +504,13 @@ void get_sun_data(double t, double target_ra_rad, double target_dec_rad, bool ge
 }
 
 
-/* Compute posn_ang_of_motion and speed given initial coords and a time > t_initial */
+/* Compute posn_ang_of_motion and speed given initial coords and their time; the second position is delta_time later */
 
-void get_sat_PA_and_speed(double t_since) {
-	double pos[3], ra1, dec1, d_ra, d_dec, dist_to_satellite;
+void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
+	double pos[3], observer_loc[3], ra1, dec1, d_ra, d_dec, dist_to_satellite, t_since;
+
+	t += p.delta_time / SEC_IN_DAY;
+	t_since = (t - tle.epoch) * 1440.;
 	if ( sat.is_deep ) {
 	  SDP4_init(sat_params, &tle);
 	  SDP4(t_since, &tle, sat_params, pos, NULL);
@@ -515,7 +518,8 @@ void get_sat_PA_and_speed(double t_since) {
 	  SGP4_init(sat_params, &tle);
 	  SGP4(t_since, &tle, sat_params, pos, NULL);
 	}
-	get_satellite_ra_dec_delta(geo.observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
+	observer_cartesian_coords(t, p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc);
+	get_satellite_ra_dec_delta(observer_loc, pos, &ra1, &dec1, &dist_to_satellite);  /* Returned RA, Dec in radians */
 	//-- epoch_of_date_to_j2000(t, &ra1, &dec1);  /* Do not apply precession */
 
 	d_ra = remainder(ra1 - sat.ra, TWOPI);
@@ -896,7 +900,7 @@ int main(int argc, char **argv)
 /* Compute initial speed to be used to accelerate visibility search (TODO) */
     if ( is_t_start ) {
 	is_t_start = false;
-	get_sat_PA_and_speed(t_since);
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
     }
 
 /*
@@ -942,6 +946,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	  snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	  sat.ha = p.lmst - sat.ra * RAD2HRS;
 	  dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	  get_sat_PA_and_speed(t_cur, rho_cos_phi, rho_sin_phi);
 	  epoch_of_date_to_j2000(t_cur, &sat.ra, &sat.dec);  /* Approx precession */
 	  add_satdata_json("sat_end");
 	  break;
@@ -961,10 +966,6 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 		trimend(intl_desig);
 	}
 
-	t_since += p.delta_time * 1440. / SEC_IN_DAY;
-
-	get_sat_PA_and_speed(t_since);
-
 	add_fieldsdesc_json();
 	printf(" \"satellite\": ");
 	printf("{\"name\": \"%s\", \"intl_desig\": \"%s\", \"norad_n\": %d, ",
@@ -977,6 +978,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	get_sat_PA_and_speed(t_cur, rho_cos_phi, rho_sin_phi);
 	epoch_of_date_to_j2000(t_cur, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_start");
 	  n_sats_found++;
@@ -999,6 +1001,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_end");
   }
@@ -1037,6 +1040,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_mid");
 //printf("\n\nMid: %lf, %lf, %lf, %lf\n", sat.ha, sat.alt, sat.az, parang_sat);
@@ -1074,6 +1078,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
+	get_sat_PA_and_speed(t, rho_cos_phi, rho_sin_phi);
 	epoch_of_date_to_j2000(t, &sat.ra, &sat.dec);  /* Approx precession */
 	add_satdata_json("sat_max");
 
-- 
2.43.0


From c23bc974cd4fa88cd16a8533a1e41c689b306105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 32/38] fix: element files of a list were not closed, and an
 empty list closed a NULL stream

---
 src/sat_visibility.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index b8da9c9..0ca569f 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -538,7 +538,7 @@ void get_sat_PA_and_speed(double t, double rho_cos_phi, double rho_sin_phi) {
 int main(int argc, char **argv)
 {
   char errmsg[128] = {""}, tle_path[128] = {"."}, line1[100], line2[100],
-	sat_name[25] = {""}, tle_path_file[200], opt, *endptr;
+	sat_name[25] = {""}, tle_path_file[200] = {""}, opt, *endptr;
   double jd[2], rho_sin_phi, rho_cos_phi,
 	 target_ra_rad, target_dec_rad;
   int i, par_pos, status = 0, n_sats_found = 0;
@@ -701,7 +701,7 @@ int main(int argc, char **argv)
  
   const short fname_len = 64;
   char row[fname_len], tle_list_file[200];
-  FILE *lisfile, *ifile = NULL;
+  FILE *lisfile, *ifile;
 
   open_json();
 
@@ -803,13 +803,13 @@ int main(int argc, char **argv)
       }
     }  // end while fgets(line2 ...
 
+    fclose(ifile);
+
     if ( single_sat_found )
 	break;
 
   }  // end while read_tle_list
 
-  fclose(ifile);
-
   if ( !single_sat_found ) {
 	snprintf(errmsg, sizeof(errmsg), "Satellite not found in %s", tle_path_file);
 	close_stat_json(argc, argv, input_list, 1, errmsg, n_sats_found);
-- 
2.43.0


From d906ea38239cf24920e92e8646e2b84e68b122fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 33/38] fix: sat_visibility: end of pass at the first sunlit
 sample was precessed twice

---
 src/sat_visibility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0ca569f..15e7138 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -998,6 +998,8 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	add_satlatlon_json("geoloc_end");
 	add_sundata_json("sun_end");
 	sat.cur_mjd = mjd_sunlit_end;
+	/* Coordinates of date again: those of the start event may be J2000 already */
+	get_satellite_ra_dec_delta(geo.observer_loc, pos, &sat.ra, &sat.dec, &sat.d_km);
 	snprintf(sat.cur_date, sizeof(sat.cur_date), "%s", mjd2date(sat.cur_mjd));
 	sat.ha = p.lmst - sat.ra * RAD2HRS;
 	dechalat2alt(sat.dec, sat.ha, p.lat, &sat.alt, &sat.az, &parang_sat);
-- 
2.43.0


From 93dc0aa854358c1885ee0ecf79ba274a27838347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 34/38] fix: report the international designator also when both
 -s and -i are given

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 4bdfeca..66bb038 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -879,7 +879,7 @@ printf("Sun HA, AZ, Alt, PA: %lf %lf %lf %lf (h, deg, deg, deg)\n", sun.ha, sun.
 	  if ( p.sunlit_only && ! is_sunlit )
 		continue;
 
-	  if ( !p.single_sat_i ) {
+	  if ( p.single_sat_n || !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi( tle.intl_desig) > 57000 ? "19" : "20"),
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 15e7138..a7dab4a 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -958,7 +958,7 @@ printf("raj2000, decj2000: %lf, %lf\n", ra_tmp*RAD2DEG, de_tmp*RAD2DEG);
 	sunlit_start_found = true;
 	mjd_sunlit_start = t_cur - JD_OFF;
 
-	if ( !p.single_sat_i ) {
+	if ( p.single_sat_n || !p.single_sat_i ) {
 		if ( tle.intl_desig[0] != ' ' )
 		  snprintf( intl_desig, sizeof(intl_desig), "%s%.2s-%s",
 			(atoi(tle.intl_desig) > 57000 ? "19" : "20"),
-- 
2.43.0


From 6c8025ff17c9c774fb85168e9e761bfd19735d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 35/38] fix: recognise high-orbit state vectors (type 'H', as
 the reader and SDP4 do) when choosing the model

---
 src/basics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basics.c b/src/basics.c
index ebd3b88..319729b 100644
--- a/src/basics.c
+++ b/src/basics.c
@@ -37,7 +37,7 @@ double FMod2p( const double x)
 #define EPHEM_TYPE_SDP4       '3'
 #define EPHEM_TYPE_SGP8       '4'
 #define EPHEM_TYPE_SDP8       '5'
-#define EPHEM_TYPE_HIGH       'h'
+#define EPHEM_TYPE_HIGH       'H'
 
 /*------------------------------------------------------------------*/
 
-- 
2.43.0


From 122d44be7f22231ed739706029180ed2b614a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:39 +0000
Subject: [PATCH 36/38] fix: sidereal time coefficients were cut to single
 precision (0.2 s per century)

---
 src/zenith_site_ra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zenith_site_ra.c b/src/zenith_site_ra.c
index b95c5c8..5cc4527 100644
--- a/src/zenith_site_ra.c
+++ b/src/zenith_site_ra.c
@@ -34,13 +34,13 @@ void ut2gmst(double ut1, double *gmst)
   T0 = (jd0 - JD2000)/36525.0;
 
 /* Greenwich Mean Sidereal Time at 0h UT of date */
-  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063F)*T0
-          + 24110.54841F;
+  *gmst = (((-2.0e-6*T0 - 3.e-7)*T0 + 9.27701e-2)*T0 + 8640184.7942063)*T0
+          + 24110.54841;
 #ifdef DEBUG
 printf("GMST0: %lf\n", *gmst);
 #endif
   msday = (((-(4. * 2.0e-6)*T0 - (3. * 3.e-7))*T0 + (2. * 9.27701e-2))*T0
-          + 8640184.7942063F)/(SEC_IN_DAY*36525.) + 1.0;
+          + 8640184.7942063)/(SEC_IN_DAY*36525.) + 1.0;
 
 /* GMST at this UT (in hours) */
   *gmst += msday*secs;
-- 
2.43.0


From 5301cebf5905a15c88329db3d98c3fa483e0d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 37/38] fix: list lines of 64 characters or more were taken as
 two file names

---
 src/sat_skymap.c     | 2 +-
 src/sat_visibility.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 66bb038..0c86584 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -564,7 +564,7 @@ int main(int argc, char **argv)
   observer_cartesian_coords(jd + p.delta_time / SEC_IN_DAY,
 	p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, observer_loc2);
  
-  const short fname_len = 64;
+  const short fname_len = 512;
   char *s, row[fname_len], norad_name[7], tle_list_file[200];
   FILE *lisfile, *ifile;
 
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index a7dab4a..0781300 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -699,7 +699,7 @@ int main(int argc, char **argv)
   earth_lat_alt_to_parallax(p.lat * DEG2RAD, p.ht_in_meters, &rho_cos_phi, &rho_sin_phi);
   observer_cartesian_coords(jd[0], p.lon * DEG2RAD, rho_cos_phi, rho_sin_phi, geo.observer_loc);
  
-  const short fname_len = 64;
+  const short fname_len = 512;
   char row[fname_len], tle_list_file[200];
   FILE *lisfile, *ifile;
 
-- 
2.43.0


From b7e8e6ce68b367f14e1743a50ebc55d652f299c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 38/38] fix: a time step below one second ran forever or
 divided by zero

---
 src/sat_skymap.c     | 6 ++++++
 src/sat_visibility.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/sat_skymap.c b/src/sat_skymap.c
index 0c86584..34cd80d 100644
--- a/src/sat_skymap.c
+++ b/src/sat_skymap.c
@@ -536,6 +536,12 @@ int main(int argc, char **argv)
 		break;
           case 't':
 		p.delta_time = atof(argv[i] + par_pos);
+		if ( p.delta_time < 1 )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Time step must be at least 1 second. Read '%d'", p.delta_time);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found, n_sats, n_sunlit_sats);
+		  exit(-1);
+		}
 		break;
           default:
 		open_json();
diff --git a/src/sat_visibility.c b/src/sat_visibility.c
index 0781300..fb6ab5d 100644
--- a/src/sat_visibility.c
+++ b/src/sat_visibility.c
@@ -673,6 +673,12 @@ int main(int argc, char **argv)
 		break;
           case 't':
 		p.delta_time = atof(argv[i] + par_pos);
+		if ( p.delta_time < 1 )  {
+		  open_json();
+		  snprintf(errmsg, sizeof(errmsg), "Time step must be at least 1 second. Read '%d'", p.delta_time);
+		  close_stat_json(argc, argv, input_list, -1, errmsg, n_sats_found);
+		  exit(-1);
+		}
 		break;
           default:
 		open_json();
-- 
2.43.0

