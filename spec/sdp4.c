/* SDP4 (Spacetrack Report #3 with the deep-space lunar/solar and resonance terms, as carried by the Dundee/Project Pluto
   edition: perturbations added directly, Lyddane modification below 0.2 rad, second-order integration in steps of at
   most 720 minutes restarted from the epoch when that is nearer).
   C(name): what the library computes through SDP4_init + SDP4; S(name): the report's equations. */
#include <math.h>
#include <stddef.h>
#include "norad.h"
#define C(name) double code_##name
#define S(name) double spec_##name
#include "orbit.h"

#define ZNS 1.19459e-5
#define ZNL 1.5835218e-4
#define ZES 0.01675
#define ZEL 0.05490
#define THDT 4.37526908801129966e-3

static double mod2p(double x) { double r = fmod(x, PI2); return r < 0 ? r + PI2 : r; }

/* Greenwich sidereal time at the epoch */
static double gst(double jd)
{
   double ut = fmod(jd + .5, 1.), T = (jd - ut - 2451545.) / 36525.;
   double g = 24110.54841 + 8640184.812866 * T + 0.093104 * T * T - 6.2e-6 * T * T * T;
   double turns = fmod(g / 86400. + 1.00273790934 * ut, 1.);
   return PI2 * (turns < 0 ? turns + 1 : turns);
}

/* secular rates and periodic coefficients raised by one body */
typedef struct { double e, i, l, gh, h, e2, e3, i2, i3, l2, l3, l4, g2, g3, g4, h2, h3; } body_t;

static body_t body(const tle_t *t, double n, double cg, double sg, double ci, double si, double ch, double sh, double c,
                   double zn, double ze)
{
   body_t o;
   double co = cos(t->xincl), so = sin(t->xincl), cw = cos(t->omegao), sw = sin(t->omegao), e = t->eo, q = e * e, b2 = 1 - q;
   double a1 = cg * ch + sg * ci * sh, a3 = cg * ci * sh - sg * ch, a7 = sg * ci * ch - cg * sh, a8 = sg * si;
   double a9 = sg * sh + cg * ci * ch, a10 = cg * si;
   double a2 = co * a7 + so * a8, a4 = co * a9 + so * a10, a5 = co * a8 - so * a7, a6 = co * a10 - so * a9;
   double x1 = a1 * cw + a2 * sw, x2 = a3 * cw + a4 * sw, x3 = a2 * cw - a1 * sw, x4 = a4 * cw - a3 * sw;
   double x5 = a5 * sw, x6 = a6 * sw, x7 = a5 * cw, x8 = a6 * cw;
   double z31 = 12 * x1 * x1 - 3 * x3 * x3, z32 = 24 * x1 * x2 - 6 * x3 * x4, z33 = 12 * x2 * x2 - 3 * x4 * x4;
   double z1 = 3 * (a1 * a1 + a2 * a2) + z31 * q, z2 = 6 * (a1 * a3 + a2 * a4) + z32 * q, z3 = 3 * (a3 * a3 + a4 * a4) + z33 * q;
   double z11 = -6 * a1 * a5 - q * (24 * x1 * x7 + 6 * x3 * x5);
   double z12 = -6 * (a1 * a6 + a3 * a5) - q * (24 * (x2 * x7 + x1 * x8) + 6 * (x3 * x6 + x4 * x5));
   double z13 = -6 * a3 * a6 - q * (24 * x2 * x8 + 6 * x4 * x6);
   double z21 = 6 * a2 * a5 + q * (24 * x1 * x5 - 6 * x3 * x7);
   double z22 = 6 * (a4 * a5 + a2 * a6) + q * (24 * (x2 * x5 + x1 * x6) - 6 * (x4 * x7 + x3 * x8));
   double z23 = 6 * a4 * a6 + q * (24 * x2 * x6 - 6 * x4 * x8);
   z1 = 2 * z1 + b2 * z31; z2 = 2 * z2 + b2 * z32; z3 = 2 * z3 + b2 * z33;
   double s3 = c / n, s2 = -s3 / (2 * sqrt(b2)), s4 = s3 * sqrt(b2), s1 = -15 * e * s4;
   double s5 = x1 * x3 + x2 * x4, s6 = x2 * x3 + x1 * x4, s7 = x2 * x4 - x1 * x3;
   o.e = s1 * zn * s5;
   o.i = s2 * zn * (z11 + z13);
   o.l = -zn * s3 * (z1 + z3 - 14 - 6 * q);
   o.gh = s4 * zn * (z31 + z33 - 6);
   o.h = t->xincl < PI2 / 120 ? 0 : -zn * s2 * (z21 + z23);
   o.e2 = 2 * s1 * s6; o.e3 = 2 * s1 * s7;
   o.i2 = 2 * s2 * z12; o.i3 = 2 * s2 * (z13 - z11);
   o.l2 = -2 * s3 * z2; o.l3 = -2 * s3 * (z3 - z1); o.l4 = 2 * s3 * (21 + 9 * q) * ze;
   o.g2 = 2 * s4 * z32; o.g3 = 2 * s4 * (z33 - z31); o.g4 = -18 * s4 * ze;
   o.h2 = -2 * s2 * z22; o.h3 = -2 * s2 * (z23 - z21);
   return o;
}

/* everything fixed at the epoch */
typedef struct {
   double n0, a0, Md, wd, Od, C1, C4, nodecf;
   double de, di, dl, dg, dh;                   /* lunisolar secular rates */
   double th0, zmos, zmol;
   body_t S, L;
   int res;                                     /* 0 none, 1 half-day, 2 one-day */
   double lam0, lamd;                           /* resonance longitude and its rate without the mean motion */
   double del1, del2, del3, D[10];
} init_s;

static double cubic(double e, double a, double b, double c, double d) { return a + b * e + c * e * e + d * e * e * e; }

static init_s setup(const tle_t *t)
{
   init_s s;
   double i = t->xincl, e = t->eo, q = e * e;
   recover(t, &s.n0, &s.a0);
   rates(t, s.n0, s.a0, &s.Md, &s.wd, &s.Od, &s.C1, &s.C4, &s.nodecf);
   double co = cos(i), so = sin(i), sO = sin(t->xnodeo), cO = cos(t->xnodeo);
   s.th0 = gst(t->epoch);
   double d = t->epoch - 2415020.;
   /* Moon: node, inclination and perigee referred to the equator */
   double node = 4.5236020 - 9.2422029e-4 * d, cn = cos(node), sn = sin(node);
   double cil = 0.91375164 - 0.03568096 * cn, sil = sqrt(1 - cil * cil);
   double shl = 0.089683511 * sn / sil, chl = sqrt(1 - shl * shl);
   double gam = atan2(0.39785416 * sn / sil, chl * cn + 0.91744867 * shl * sn) + 5.8351514 + 0.0019443680 * d - node;
   s.zmol = mod2p(0.228027132 * d - 1.1151842);
   s.zmos = mod2p(6.2565837 + 0.017201977 * d);
   s.S = body(t, s.n0, 0.1945905, -0.98088458, 0.91744867, 0.39785416, cO, sO, 2.9864797e-6, ZNS, ZES);
   s.L = body(t, s.n0, cos(gam), sin(gam), cil, sil, chl * cO + shl * sO, sO * chl - cO * shl, 4.7968065e-7, ZNL, ZEL);
   s.de = s.S.e + s.L.e;
   s.di = s.S.i + s.L.i;
   s.dl = s.S.l + s.L.l;
   s.dh = so != 0 ? (s.S.h + s.L.h) / so : 0;
   s.dg = s.S.gh + s.L.gh - co * s.dh;
   double k = 3 * s.n0 * s.n0 / (s.a0 * s.a0);
   if (s.n0 >= 0.00826 && s.n0 <= 0.00924 && e >= 0.5) {
      double g201 = -0.306 - (e - 0.64) * 0.440, g211, g310, g322, g410, g422, g520, g533, g521, g532, s2 = so * so;
      if (e <= 0.65) {
         g211 = 3.616 - 13.247 * e + 16.290 * q;
         g310 = cubic(e, -19.302, 117.390, -228.419, 156.591);
         g322 = cubic(e, -18.9068, 109.7927, -214.6334, 146.5816);
         g410 = cubic(e, -41.122, 242.694, -471.094, 313.953);
         g422 = cubic(e, -146.407, 841.880, -1629.014, 1083.435);
         g520 = cubic(e, -532.114, 3017.977, -5740.032, 3708.276);
      } else {
         g211 = cubic(e, -72.099, 331.819, -508.738, 266.724);
         g310 = cubic(e, -346.844, 1582.851, -2415.925, 1246.113);
         g322 = cubic(e, -342.585, 1554.908, -2366.899, 1215.972);
         g410 = cubic(e, -1052.797, 4758.686, -7193.992, 3651.957);
         g422 = cubic(e, -3581.69, 16178.11, -24462.77, 12422.52);
         g520 = e <= 0.715 ? 1464.74 - 4664.75 * e + 3763.64 * q : cubic(e, -5149.66, 29936.92, -54087.36, 31324.56);
      }
      if (e < 0.7) {
         g533 = cubic(e, -919.2277, 4988.61, -9064.77, 5542.21);
         g521 = cubic(e, -822.71072, 4568.6173, -8491.4146, 5337.524);
         g532 = cubic(e, -853.666, 4690.25, -8624.77, 5341.4);
      } else {
         g533 = cubic(e, -37995.78, 161616.52, -229838.2, 109377.94);
         g521 = cubic(e, -51752.104, 218913.95, -309468.16, 146349.42);
         g532 = cubic(e, -40023.88, 170470.89, -242699.48, 115605.82);
      }
      double c2 = co * co;
      double f220 = .75 * (1 + 2 * co + c2), f221 = 1.5 * s2, f321 = 1.875 * so * (1 - 2 * co - 3 * c2);
      double f322 = -1.875 * so * (1 + 2 * co - 3 * c2), f441 = 35 * s2 * f220, f442 = 39.3750 * s2 * s2;
      double f522 = 9.84375 * so * (s2 * (1 - 2 * co - 5 * c2) + 0.33333333 * (-2 + 4 * co + 6 * c2));
      double f523 = so * (4.92187512 * s2 * (-2 - 4 * co + 10 * c2) + 6.56250012 * (1 + 2 * co - 3 * c2));
      double f542 = 29.53125 * so * (2 - 8 * co + c2 * (-12 + 8 * co + 10 * c2));
      double f543 = 29.53125 * so * (-2 - 8 * co + c2 * (12 + 8 * co - 10 * c2));
      double r22 = 1.7891679e-6, r32 = 3.7393792e-7, r44 = 7.3636953e-9, r52 = 1.1428639e-7, r54 = 2.1765803e-9;
      double a = s.a0;
      s.res = 1;
      s.D[0] = k * r22 * f220 * g201;              s.D[1] = k * r22 * f221 * g211;
      s.D[2] = k / a * r32 * f321 * g310;          s.D[3] = k / a * r32 * f322 * g322;
      s.D[4] = 2 * k / a / a * r44 * f441 * g410;  s.D[5] = 2 * k / a / a * r44 * f442 * g422;
      s.D[6] = k / a / a / a * r52 * f522 * g520;  s.D[7] = k / a / a / a * r52 * f523 * g532;
      s.D[8] = 2 * k / a / a / a * r54 * f542 * g521; s.D[9] = 2 * k / a / a / a * r54 * f543 * g533;
      s.lam0 = t->xmo + 2 * t->xnodeo - 2 * s.th0;
      s.lamd = s.Md + 2 * s.Od - 2 * THDT + s.dl + 2 * s.dh - s.n0;
   } else if (s.n0 < 1.2 * PI2 / 1440 && s.n0 > .8 * PI2 / 1440) {
      double p = 1 + co, g200 = 1 - 2.5 * q + .8125 * q * q, g310 = 1 + 2 * q, g300 = 1 - 6 * q + 6.60937 * q * q;
      double f220 = .75 * p * p, f311 = .9375 * so * so * (1 + 3 * co) - .75 * p, f330 = 1.875 * p * p * p;
      s.res = 2;
      s.del1 = k / s.a0 * f311 * g310 * 2.1460748e-6;
      s.del2 = 2 * k * f220 * g200 * 1.7891679e-6;
      s.del3 = 3 * k / s.a0 * f330 * g300 * 2.2123015e-7;
      s.lam0 = t->xmo + t->xnodeo + t->omegao - s.th0;
      s.lamd = s.Md + s.wd + s.Od - THDT + s.dl + s.dg + s.dh - s.n0;
   } else
      s.res = 0;
   return s;
}

/* sine/cosine of sums, from the sines and cosines of the parts */
typedef struct { double s, c; } ang;
static ang mk(double x) { ang r = { sin(x), cos(x) }; return r; }
static ang plus(ang a, ang b) { ang r = { a.s * b.c + a.c * b.s, a.c * b.c - a.s * b.s }; return r; }
static ang minus(ang a, ang b) { b.s = -b.s; return plus(a, b); }

/* second-order integration of the resonance equations from state to t */
typedef struct { double at, l, n; } res_t;
static res_t integrate(const init_s *s, const tle_t *tle, res_t r, double t)
{
   if (fabs(t) < fabs(t - r.at)) { r.at = 0; r.l = s->lam0; r.n = s->n0; }
   for (;;) {
      double h = t - r.at, ndot, nddot, ldot = r.n + s->lamd;
      int last = h <= 720 && h >= -720;
      ang l = mk(r.l), l2 = plus(l, l), l3 = plus(l2, l);
      if (h > 720) h = 720; else if (h < -720) h = -720;
      if (s->res == 2) {
         ang p1 = minus(l, mk(0.1313091)), p2 = minus(l2, mk(2 * 2.8843198)), p3 = minus(l3, mk(3 * 0.3744809));
         ndot = s->del1 * p1.s + s->del2 * p2.s + s->del3 * p3.s;
         nddot = s->del1 * p1.c + 2 * s->del2 * p2.c + 3 * s->del3 * p3.c;
      } else {
         ang w = mk(tle->omegao + s->wd * r.at), w2 = plus(w, w);
         ang g22 = mk(5.7686396), g32 = mk(0.95240898), g44 = mk(1.8014998), g52 = mk(1.0508330), g54 = mk(4.4108898);
         ang A[10] = { minus(plus(w2, l), g22), minus(l, g22), minus(plus(w, l), g32), minus(minus(l, w), g32),
                       minus(plus(w2, l2), g44), minus(l2, g44), minus(plus(w, l), g52), minus(minus(l, w), g52),
                       minus(plus(w, l2), g54), minus(minus(l2, w), g54) };
         const double *D = s->D;
         ndot = D[0] * A[0].s + D[1] * A[1].s + D[2] * A[2].s + D[3] * A[3].s + D[4] * A[4].s + D[5] * A[5].s
              + D[6] * A[6].s + D[7] * A[7].s + D[8] * A[8].s + D[9] * A[9].s;
         nddot = D[0] * A[0].c + D[1] * A[1].c + D[2] * A[2].c + D[3] * A[3].c + D[6] * A[6].c + D[7] * A[7].c
               + 2 * (D[4] * A[4].c + D[5] * A[5].c + D[8] * A[8].c + D[9] * A[9].c);
      }
      r.l += ldot * h + ndot * h * h / 2;
      r.n += ndot * h + nddot * ldot * h * h / 2;
      r.at += h;
      if (last) break;
   }
   return r;
}

typedef struct { double e, i, l, g, h; } per_t;
static void add(per_t *p, const body_t *b, double m, double ec)
{
   double f = m + 2 * ec * sin(m), s = sin(f), f2 = s * s / 2 - .25, f3 = -s * cos(f) / 2;
   p->e += b->e2 * f2 + b->e3 * f3;
   p->i += b->i2 * f2 + b->i3 * f3;
   p->l += b->l2 * f2 + b->l3 * f3 + b->l4 * s;
   p->g += b->g2 * f2 + b->g3 * f3 + b->g4 * s;
   p->h += b->h2 * f2 + b->h3 * f3;
}
static per_t periodics(const init_s *s, double t)
{
   per_t p = {0, 0, 0, 0, 0};
   add(&p, &s->S, s->zmos + ZNS * t, ZES);
   add(&p, &s->L, s->zmol + ZNL * t, ZEL);
   return p;
}

/* state at t given the state of the integrator and the instant the periodics are taken at; pos and vel keep OUT's
   earlier content when the mean motion is negative */
static out_t at(const init_s *s, const tle_t *tle, double t, res_t r, double tp, out_t keep)
{
   double w = tle->omegao + s->wd * t + s->dg * t, O = tle->xnodeo + s->Od * t + s->nodecf * t * t + s->dh * t;
   double M = tle->xmo + s->Md * t + s->dl * t, e = tle->eo + s->de * t, i = tle->xincl + s->di * t, n = s->n0;
   if (s->res) {
      double tt = -O + s->th0 + t * THDT;
      n = r.n;
      M = s->res == 2 ? r.l + tt - w : r.l + 2 * tt;
   }
   if (n < 0) { keep.rc = SXPX_ERR_NEGATIVE_XN; return keep; }
   double ta = 1 - s->C1 * t, a = pow(KE / n, 2. / 3) * ta * ta;
   e -= tle->bstar * s->C4 * t;
   M += s->n0 * 1.5 * s->C1 * t * t;
   per_t p = periodics(s, tp);
   i += p.i; e += p.e; M += p.l; w += p.g;
   if (tle->xincl >= 0.2) {
      w -= cos(i) * p.h / sin(i);
      O += p.h / sin(i);
   } else {
      double sn = sin(O), cn = cos(O), b = p.i * cos(i) + sin(i);
      double d = atan2(p.h * cn + b * sn, b * cn - p.h * sn) - O;
      if (d < -PI2 / 2) d += PI2; else if (d > PI2 / 2) d -= PI2;
      w += -O * sin(i) * p.i - cos(i) * d;
      O += d;
   }
   return shortperiod(O, a, e, cos(i), sin(i), i, w, M + w + O);
}

static out_t sdp4(double t, const tle_t *tle)
{
   init_s s = setup(tle);
   res_t r = {0, s.lam0, s.n0};
   out_t none = {{-1, -2, -3}, {-4, -5, -6}, 0};
   if (s.res) r = integrate(&s, tle, r, t);
   return at(&s, tle, t, r, t, none);
}

/* second call on the same parameters: resonance integration continues from where the first stopped, the periodics are
   those of the first instant when less than 30 minutes away */
static out_t twice(double t1, double t2, const tle_t *tle)
{
   init_s s = setup(tle);
   res_t r = {0, s.lam0, s.n0};
   out_t none = {{-1, -2, -3}, {-4, -5, -6}, 0};
   double tp = t1;
   if (s.res) { r = integrate(&s, tle, r, t1); if (r.n < 0) tp = 1e20; r = integrate(&s, tle, r, t2); }
   return at(&s, tle, t2, r, fabs(tp - t2) >= 30 ? t2 : tp, none);
}

/* any set but the state-vector kind ('H', decided on its own) */
#define NOTHIGH tle_t w_ = *in; w_.ephemeris_type = '0'; const tle_t *tle = &w_
#define RUN double par[N_SAT_PARAMS], x[3] = {-1, -2, -3}, v[3] = {-4, -5, -6}; SDP4_init(par, tle); int rc = SDP4(t, tle, par, x, v)
#define RUN2 double par[N_SAT_PARAMS], x[3], v[3]; SDP4_init(par, tle); SDP4(t1, tle, par, x, v); \
   x[0] = -1; x[1] = -2; x[2] = -3; v[0] = -4; v[1] = -5; v[2] = -6; SDP4(t2, tle, par, x, v)
C(x)(double t, const tle_t *in) { NOTHIGH; RUN; return x[0]; }
S(x)(double t, const tle_t *in) { NOTHIGH; return sdp4(t, tle).x[0]; }
C(y)(double t, const tle_t *in) { NOTHIGH; RUN; return x[1]; }
S(y)(double t, const tle_t *in) { NOTHIGH; return sdp4(t, tle).x[1]; }
C(z)(double t, const tle_t *in) { NOTHIGH; RUN; return x[2]; }
S(z)(double t, const tle_t *in) { NOTHIGH; return sdp4(t, tle).x[2]; }
C(vx)(double t, const tle_t *in) { NOTHIGH; RUN; return v[0]; }
S(vx)(double t, const tle_t *in) { NOTHIGH; return sdp4(t, tle).v[0]; }
C(vy)(double t, const tle_t *in) { NOTHIGH; RUN; return v[1]; }
S(vy)(double t, const tle_t *in) { NOTHIGH; return sdp4(t, tle).v[1]; }
C(vz)(double t, const tle_t *in) { NOTHIGH; RUN; return v[2]; }
S(vz)(double t, const tle_t *in) { NOTHIGH; return sdp4(t, tle).v[2]; }
C(rc)(double t, const tle_t *in) { NOTHIGH; RUN; return rc; }
S(rc)(double t, const tle_t *in) { NOTHIGH; return sdp4(t, tle).rc; }
C(x2)(double t1, double t2, const tle_t *in) { NOTHIGH; RUN2; return x[0]; }
S(x2)(double t1, double t2, const tle_t *in) { NOTHIGH; return twice(t1, t2, tle).x[0]; }
C(z2)(double t1, double t2, const tle_t *in) { NOTHIGH; RUN2; return x[2]; }
S(z2)(double t1, double t2, const tle_t *in) { NOTHIGH; return twice(t1, t2, tle).x[2]; }
