/* Specification of the choice between the near-Earth and the deep-space model (period limit 225 minutes). */
#include <math.h>
#include "norad.h"
#define C(name) double code_##name
#define S(name) double spec_##name
C(model)(const tle_t *t) { return select_ephemeris(t); }
S(model)(const tle_t *t) {
   char e = t->ephemeris_type;
   double n = t->xno, c = cos(t->xincl), x, a1, a0, d;
   if (e == 'H') return 1;
   if (!(n > 0) || t->eo < 0 || t->eo > 1) return -1;
   if (e == '2' || e == '4') return 0;
   if (e == '3' || e == '5') return 1;
   /* mean motion without the J2 perturbation (Spacetrack Report #3, WGS-72) */
   x = .75 * 1.082616e-3 * (3 * c * c - 1) / ((1 - t->eo * t->eo) * sqrt(1 - t->eo * t->eo));
   a1 = pow(.0743669161331734132 / n, 2. / 3);
   d = x / (a1 * a1);
   a0 = a1 * (1 - d / 3 - d * d - d * d * d * 134 / 81);
   return 2 * 3.141592653589793238 / (n / (1 + x / (a0 * a0))) >= 225;
}
