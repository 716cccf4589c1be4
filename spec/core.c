/* Specifications of the coordinate, time and observer functions, written from their published definitions
   (Astronomical Almanac, Meeus, USNO, haversine), independent of the library's own text.
   C(name) is the value the library computes, S(name) the value it should be. */
#include <math.h>
#include <stddef.h>
#include "norad.h"
#include "observe.h"
double lmst_hr(const double, double, double *);
void dechalat2alt(double, double, double, double *, double *, double *);
double skysep_h(const double, const double, const double, const double);
void lpsun_radec(double, double *, double *);
int zenith_site_ra(double, double, double *);

#define C(name) double code_##name
#define S(name) double spec_##name
#define PI_ 3.14159265358979323846
#define D (PI_ / 180.)

/* ---- sidereal time: Aoki et al. 1982, GMST at 0h UT in seconds, advanced by 1.00273790934 per UT day */
static double gmst_h(double jd)          /* hours, not reduced */
{
   double n = (double)(long)jd, f = jd - n;
   double mid = f < .5 ? n - .5 : n + .5;          /* preceding 0h UT */
   double T = (mid - 2451545.) / 36525.;
   double s = 24110.54841 + 8640184.812866 * T + 0.093104 * T * T - 6.2e-6 * T * T * T;
   return s / 3600. + 24. * 1.00273790934 * (jd - mid);
}
C(gmst)(double jd, double lon) { double g; lmst_hr(jd, lon, &g); return g; }
S(gmst)(double jd, double lon) { return gmst_h(jd); }
C(lmst)(double jd, double lon) { double g; return lmst_hr(jd, lon, &g); }
S(lmst)(double jd, double lon) { return gmst_h(jd) + lon / 15.; }

/* ---- horizon */
C(az)(double dec, double ha, double lat) { double a, z, p; dechalat2alt(dec, ha, lat, &a, &z, &p); return z; }
S(az)(double dec, double ha, double lat) { double H = ha * 15 * D, f = lat * D;
   if (ha == 0) return dec < f ? 180. : 0.;
   double z = atan2(-sin(H) * cos(dec), sin(dec) * cos(f) - cos(dec) * cos(H) * sin(f)) / D;
   if (z < 0) z += 360;
   if (z >= 360) z -= 360;
   return z; }
C(alt)(double dec, double ha, double lat) { double a, z, p; dechalat2alt(dec, ha, lat, &a, &z, &p); return a; }
S(alt)(double dec, double ha, double lat) { double H = ha * 15 * D, f = lat * D;
   if (ha == 0 && fabs(dec - f) < 1e-6) return 90.;
   if (ha == 0) H = 0;
   return asin(fmax(-1., fmin(1., sin(dec) * sin(f) + cos(dec) * cos(f) * cos(H)))) / D; }
C(parang)(double dec, double ha, double lat) { double a, z, p; dechalat2alt(dec, ha, lat, &a, &z, &p); return p; }
S(parang)(double dec, double ha, double lat) { double H = ha * 15 * D, f = lat * D;
   if (cos(dec) == 0) return f >= 0 ? 180. : 0.;
   if (ha == 0) return atan2(0., dec < f ? 1. : -1.) / D;
   double A = atan2(-sin(H) * cos(dec), sin(dec) * cos(f) - cos(dec) * cos(H) * sin(f));
   /* sine rule and cosine rule in the triangle pole-zenith-object */
   return atan2(-sin(A) * cos(f) / cos(dec), -cos(A) * cos(H) - sin(A) * sin(H) * sin(f)) / D; }

/* ---- haversine separation in degrees */
C(skysep)(double a1, double d1, double a2, double d2) { return skysep_h(a1, d1, a2, d2); }
S(skysep)(double a1, double d1, double a2, double d2) { double x1 = a1 < 0 ? a1 + 2 * PI_ : a1;
   double x2 = a2 < 0 ? a2 + 2 * PI_ : a2;
   double da = fabs(x1 - x2);
   if (da > PI_) da = 2 * PI_ - da;
   double h = sin((d1 - d2) / 2) * sin((d1 - d2) / 2) + cos(d1) * cos(d2) * sin(da / 2) * sin(da / 2);
   return 2 * asin(fmin(1., sqrt(h))) / D; }

/* ---- Sun: Astronomical Almanac p. C24 */
static double lsun(double jd) { double n = jd - 2451545.;
   double g = (357.528 + 0.9856003 * n) * D;
   return (280.460 + 0.9856474 * n + 1.915 * sin(g) + 0.020 * sin(2 * g)) * D; }
static double esun(double jd) { return (23.439 - 4e-7 * (jd - 2451545.)) * D; }
C(sunra)(double jd) { double r, d; lpsun_radec(jd, &r, &d); return r; }
S(sunra)(double jd) { double x = cos(lsun(jd)), y = cos(esun(jd)) * sin(lsun(jd)), t;
   if (x == 0) t = y > 0 ? PI_ / 2 : y < 0 ? 3 * PI_ / 2 : 0;
   else t = atan(y / x) + (x < 0 ? PI_ : 0);
   return t < 0 ? t + 2 * PI_ : t; }
C(sundec)(double jd) { double r, d; lpsun_radec(jd, &r, &d); return d; }
S(sundec)(double jd) { return asin(sin(esun(jd)) * sin(lsun(jd))); }

/* ---- observer: geocentric latitude on the ellipsoid, axes 6378140 m and 6356755 m */
#define RATIO (6356755. / 6378140.)
static double ulat(double lat) { return atan(RATIO * sin(lat) / cos(lat)); }
C(rhocos)(double lat, double h) { double c, s; earth_lat_alt_to_parallax(lat, h, &c, &s); return c; }
S(rhocos)(double lat, double h) { return cos(ulat(lat)) + h / 6378140. * cos(lat); }
C(rhosin)(double lat, double h) { double c, s; earth_lat_alt_to_parallax(lat, h, &c, &s); return s; }
S(rhosin)(double lat, double h) { return RATIO * sin(ulat(lat)) + h / 6378140. * sin(lat); }
static double theta(double jd) { double ut = fmod(jd + .5, 1.), T = (jd - ut - 2451545.) / 36525.;
   double g = fmod(24110.54841 + 8640184.812866 * T + 0.093104 * T * T - 6.2e-6 * T * T * T + 86400. * 1.00273790934 * ut, 86400.);
   if (g < 0) g += 86400.;
   return g / 86400. * 2 * PI_; }
C(obsx)(double jd, double lon, double rc, double rs) { double v[3]; observer_cartesian_coords(jd, lon, rc, rs, v); return v[0]; }
S(obsx)(double jd, double lon, double rc, double rs) { return 6378.140 * rc * cos(lon + theta(jd)); }
C(obsy)(double jd, double lon, double rc, double rs) { double v[3]; observer_cartesian_coords(jd, lon, rc, rs, v); return v[1]; }
S(obsy)(double jd, double lon, double rc, double rs) { return 6378.140 * rc * sin(lon + theta(jd)); }
C(obsz)(double jd, double lon, double rc, double rs) { double v[3]; observer_cartesian_coords(jd, lon, rc, rs, v); return v[2]; }
S(obsz)(double jd, double lon, double rc, double rs) { return 6378.140 * rs; }
/* ---- topocentric direction */
#define SX double ob[3] = {ox, oy, oz}, st[3] = {sx, sy, sz}, r, d, q; get_satellite_ra_dec_delta(ob, st, &r, &d, &q)
#define NORM sqrt((sx - ox) * (sx - ox) + (sy - oy) * (sy - oy) + (sz - oz) * (sz - oz))
C(topora)(double ox, double oy, double oz, double sx, double sy, double sz) { SX; return r; }
S(topora)(double ox, double oy, double oz, double sx, double sy, double sz) { double a = atan2(sy - oy, sx - ox); return a < 0 ? a + 2 * PI_ : a; }
C(topodec)(double ox, double oy, double oz, double sx, double sy, double sz) { SX; return d; }
S(topodec)(double ox, double oy, double oz, double sx, double sy, double sz) { return asin((sz - oz) / NORM); }
C(topodist)(double ox, double oy, double oz, double sx, double sy, double sz) { SX; return q; }
S(topodist)(double ox, double oy, double oz, double sx, double sy, double sz) { return NORM; }
/* ---- approximate precession (Meeus), seconds of time per year -> radians per year */
static double mrate(double T) { return (3.07496 + 0.00186 * T / 2) / 240. * D; }
static double nrate(double T) { return (1.33621 - 0.00057 * T / 2) / 240. * D; }
C(precra)(double jd, double ra, double dec) { epoch_of_date_to_j2000(jd, &ra, &dec); return ra; }
S(precra)(double jd, double ra, double dec) { double T = (jd - 2451545.) / 36525.;
   double a = ra - 100 * T * (mrate(T) + nrate(T) * sin(ra) * tan(dec));
   return a < 0 ? a + 2 * PI_ : a >= 2 * PI_ ? a - 2 * PI_ : a; }
C(precdec)(double jd, double ra, double dec) { epoch_of_date_to_j2000(jd, &ra, &dec); return dec; }
S(precdec)(double jd, double ra, double dec) { double T = (jd - 2451545.) / 36525.;
   return dec - 100 * T * nrate(T) * cos(ra); }
