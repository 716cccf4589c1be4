/* Specification of the right ascension of the zenith of a site, and of the sidereal times it is made of. */
#include <math.h>
void ut2gmst(double ut1, double *gmst);
void ut2gast(double ut1, double *gast);
void ut2last(double ut1, double lon, double *last);
int zenith_site_ra(double ut1, double lon, double *radeg);
int zenith_site_ra_last(double ut1, double lon, double *radeg);
void earthtilt(double tjd, double *mobl, double *tobl, double *eq, double *dpsi, double *deps);
void sph2v(const double ra, const double dec, double v[3]);
void slaDh2e(double az, double el, double phi, double *ha, double *dec);
#define C(name) double code_##name
#define S(name) double spec_##name
C(gmst)(double jd) { double g; ut2gmst(jd, &g); return g; }
S(gmst)(double jd) {
   /* midnight before, and the seconds since */
   double day = floor(jd), rest = jd - day, T, s, rate;
   if (rest < .5) { day -= .5; rest += .5; } else { day += .5; rest -= .5; }
   T = (day - 2451545.0) / 36525;
   s = 24110.54841 + 8640184.7942063 * T + .0927701 * T * T - 3e-7 * T * T * T - 2e-6 * T * T * T * T;
   rate = 1 + (8640184.7942063 + 2 * .0927701 * T - 9e-7 * T * T - 8e-6 * T * T * T) / (36525. * 86400);
   return (s + rate * rest * 86400) / 3600;        /* modulo 24 h */
}
C(gast)(double jd) { double g; ut2gast(jd, &g); return g; }
S(gast)(double jd) { double g, a, b, e, c, d; ut2gmst(jd, &g); earthtilt(jd, &a, &b, &e, &c, &d); return g + e / 3600; }
C(last)(double jd, double lon) { double g; ut2last(jd, lon, &g); return g; }
S(last)(double jd, double lon) { double g; ut2gast(jd, &g); return g + lon / 15; }
C(ra)(double mjd, double lon) { double g; zenith_site_ra(mjd, lon, &g); return g; }
S(ra)(double mjd, double lon) { double g; ut2gmst(mjd + 2400000.5, &g); return 15 * g + lon; }
C(ra_last)(double mjd, double lon) { double g; zenith_site_ra_last(mjd, lon, &g); return g; }
S(ra_last)(double mjd, double lon) { double g; ut2gast(mjd + 2400000.5, &g); return 15 * g + lon; }
