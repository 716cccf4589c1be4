/* Specification of the calendar conversions. */
#include <stdio.h>
#include <math.h>
#include <stddef.h>
int date2mjd_nf(const char *date, double *mjd);
#define C(name) double code_##name
#define S(name) double spec_##name

/* ---- ISO 8601 date and time to MJD (Meeus, Astronomical Algorithms, ch. 7, Gregorian calendar) */
C(status)(const char *date) { double m; return date2mjd_nf(date, &m); }
S(status)(const char *date) { int y, m, d, h, n; double s; return sscanf(date, "%4d-%2d-%2dT%2d:%2d:%lf", &y, &m, &d, &h, &n, &s) == 6 ? 0 : -1; }
C(mjd)(const char *date) { double m; date2mjd_nf(date, &m); return m; }
S(mjd)(const char *date) {
   int y, m, d, h, n;
   double s;
   if (sscanf(date, "%4d-%2d-%2dT%2d:%2d:%lf", &y, &m, &d, &h, &n, &s) != 6) return 0;
   if (m < 3) { y -= 1; m += 12; }
   int c = y / 100;
   return floor(365.25 * y) + floor(30.6001 * (m + 1)) + d + (2 - c + c / 4) - 679006. + h / 24. + n / 1440. + s / 86400.;
}
/* ---- MJD to the calendar (Fliegel & Van Flandern 1968): to the nearest second, or cut to the millisecond; no date
   outside the days the formula is valid for */
#define VD(name, v, w) \
   S(name)(double mjd) { double t = mjd + (w), f; long l, n, i, k, y, m, d; int H, M, S; \
      l = (long) floor(t) + 2400001 + 68569; f = t - floor(t); \
      n = 4 * l / 146097; l = l - (146097 * n + 3) / 4; i = 4000 * (l + 1) / 1461001; l = l - 1461 * i / 4 + 31; \
      k = 80 * l / 2447; d = l - 2447 * k / 80; l = k / 11; m = k + 2 - 12 * l; y = 100 * (n - 49) + i + l; \
      H = (int)(f * 24); f -= H / 24.; M = (int)(f * 1440); f -= M / 1440.; S = (int)(f * 86400); f -= S / 86400.; \
      return v; }
#define HALF (.5 / 86400)
#define OUT(mjd) (mjd + 2400000.5 < -68569.5 || mjd + 2400000.5 > 1e9)
S(none)(double mjd) { return OUT(mjd); }
VD(date_0, (int) y, HALF)
VD(datef_0, (int) y, 0)
VD(date_1, (int) m, HALF)
VD(datef_1, (int) m, 0)
VD(date_2, (int) d, HALF)
VD(datef_2, (int) d, 0)
VD(date_3, H, HALF)
VD(datef_3, H, 0)
VD(date_4, M, HALF)
VD(datef_4, M, 0)
VD(date_5, S, HALF)
VD(datef_5, S, 0)
VD(datef_6, (int)(f * 1000 * 86400), 0)
