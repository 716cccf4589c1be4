/* SGP4 (Hoots & Roehrich, Spacetrack Report #3, with the report's later corrections as carried by the Dundee/Project
   Pluto edition: eccentricity floor 1e-6, cosine/sine terms recomputed from the inclination passed to the short-period
   step, second-order Newton solution of Kepler's equation with a limited first step, and the error/warning codes).
   C(name): what the library computes through SGP4_init + SGP4; S(name): the report's equations. */
#include <math.h>
#include <stddef.h>
#include "norad.h"
#define C(name) double code_##name
#define S(name) double spec_##name

#include "orbit.h"

static out_t sgp4(double t, const tle_t *tle)
{
   double n0, a0, i = tle->xincl, e = tle->eo, w0 = tle->omegao, M0 = tle->xmo, B = tle->bstar;
   recover(tle, &n0, &a0);
   double th = cos(i), si = sin(i), b2 = 1 - e * e, Md, wd, Od, C1, C4, nodecf;
   drag_t r = rates(tle, n0, a0, &Md, &wd, &Od, &C1, &C4, &nodecf);
   double s = r.s, xi = r.xi, eta = r.eta, co = r.co, co1 = r.co1, eta2 = eta * eta, ee = e * eta;
   double Mdf = M0 + Md * t, wdf = w0 + wd * t, node = tle->xnodeo + Od * t + nodecf * t * t;
   double M = Mdf, w = wdf, ta = 1 - C1 * t, te = B * C4 * t, tl = 1.5 * C1 * t * t;
   if (!(a0 * (1 - e) < 220 / XKMPER + 1)) {
      double C3 = co * xi * A3OVK2 * n0 * si / e;
      double D2 = 4 * a0 * xi * C1 * C1;
      double D3 = 4. / 3 * a0 * xi * xi * (17 * a0 + s) * C1 * C1 * C1;
      double D4 = 2. / 3 * a0 * a0 * xi * xi * xi * (221 * a0 + 31 * s) * C1 * C1 * C1 * C1;
      double C5 = 2 * co1 * a0 * b2 * (1 + 2.75 * eta2 + 2.75 * ee + ee * eta2);
      double dw = 0, dM = 0;
      if (!(e < 1e-4)) {
         double x = 1 + eta * cos(Mdf), x0 = 1 + eta * cos(M0);
         dw = B * C3 * cos(w0) * t;
         dM = -2. / 3 * co * B / ee * (x * x * x - x0 * x0 * x0);
      }
      M += dw + dM;
      w -= dw + dM;
      ta -= D2 * t * t + D3 * t * t * t + D4 * t * t * t * t;
      te += B * C5 * (sin(M) - sin(M0));
      tl += (D2 + 2 * C1 * C1) * t * t * t + .25 * (3 * D3 + 12 * C1 * D2 + 10 * C1 * C1 * C1) * t * t * t * t
          + .2 * (3 * D4 + 12 * C1 * D3 + 6 * D2 * D2 + 30 * C1 * C1 * D2 + 15 * C1 * C1 * C1 * C1) * t * t * t * t * t;
   }
   double a = a0 * ta * ta, ec = e - te;
   if (ta < 0) a = -a;
   if (ec < 1e-6) ec = 1e-6;
   return shortperiod(node, a, ec, th, si, i, w, M + w + node + n0 * tl);
}

#define RUN double par[N_SAT_PARAMS], x[3], v[3]; SGP4_init(par, tle); int rc = SGP4(t, tle, par, x, v)
#define P6(n, code, sp) C(n)(double t, const tle_t *tle) { RUN; return code; } S(n)(double t, const tle_t *tle) { out_t o = sgp4(t, tle); return sp; }
C(x)(double t, const tle_t *tle) { RUN; return x[0]; }
S(x)(double t, const tle_t *tle) { return sgp4(t, tle).x[0]; }
C(y)(double t, const tle_t *tle) { RUN; return x[1]; }
S(y)(double t, const tle_t *tle) { return sgp4(t, tle).x[1]; }
C(z)(double t, const tle_t *tle) { RUN; return x[2]; }
S(z)(double t, const tle_t *tle) { return sgp4(t, tle).x[2]; }
C(vx)(double t, const tle_t *tle) { RUN; return v[0]; }
S(vx)(double t, const tle_t *tle) { return sgp4(t, tle).v[0]; }
C(vy)(double t, const tle_t *tle) { RUN; return v[1]; }
S(vy)(double t, const tle_t *tle) { return sgp4(t, tle).v[1]; }
C(vz)(double t, const tle_t *tle) { RUN; return v[2]; }
S(vz)(double t, const tle_t *tle) { return sgp4(t, tle).v[2]; }
C(rc)(double t, const tle_t *tle) { RUN; return rc; }
S(rc)(double t, const tle_t *tle) { return sgp4(t, tle).rc; }
