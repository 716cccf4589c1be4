/* Parts of the SGP4/SDP4 equations shared by both models: element recovery, atmosphere, secular rates, and the
   long/short-period step with Kepler's equation (Spacetrack Report #3). */
static const double KE = 0.0743669161331734132, J2 = 1.082616e-3, J3 = -2.53881e-6, J4 = -1.65597e-6, XKMPER = 6378.135,
                    QOMS2T = 1.880279159015270643865e-9, PI2 = 2 * 3.14159265358979323846;
#define CK2 (J2 / 2)
#define CK4 (-3. * J4 / 8)
#define A3OVK2 (-J3 / CK2)

typedef struct { double x[3], v[3]; int rc; } out_t;

/* recovered mean motion and semimajor axis */
static void recover(const tle_t *t, double *n0, double *a0)
{
   double c = cos(t->xincl), e2 = t->eo * t->eo, b = sqrt(1 - e2);
   double k = 3. / 2 * CK2 * (3 * c * c - 1) / (b * (1 - e2));
   double a1 = pow(KE / t->xno, 2. / 3), d1 = k / (a1 * a1);
   double ap = a1 * (1 - d1 / 3 - d1 * d1 - 134. / 81 * d1 * d1 * d1), dp = k / (ap * ap);
   *n0 = t->xno / (1 + dp);
   *a0 = ap / (1 - dp);
}

static out_t shortperiod(double node, double a, double e, double ci, double si, double inc, double om, double xl)
{
   out_t o = {{0, 0, 0}, {0, 0, 0}, 0};
   int k;
   double axn = e * cos(om), p0 = 1 / (a * (1 - e * e));
   double ayn = e * sin(om) + p0 * A3OVK2 * si / 4;
   double xlt = xl + p0 * (A3OVK2 * si / 8) * (3 + 5 * ci) / (1 + ci) * axn;
   double e2 = axn * axn + ayn * ayn;
   double m = fmod(xlt - node, PI2), w, sw = 0, cw = 0, ec = 0, es = 0;
   if (m > PI2 / 2) m -= PI2; else if (m < -PI2 / 2) m += PI2;
   if (e2 > 1 - 1e-6) { o.rc = SXPX_ERR_NEARLY_PARABOLIC; return o; }
   if (a < 0) { o.rc = SXPX_ERR_NEGATIVE_MAJOR_AXIS; return o; }
   int lo = a * (1 - e) < 1, hi = a * (1 + e) < 1;
   o.rc = lo && hi ? SXPX_WARN_ORBIT_WITHIN_EARTH : lo || hi ? SXPX_WARN_PERIGEE_WITHIN_EARTH : 0;
   w = m;
   int done = 0;
   for (k = 0; k < 10; k++) {
      double f, d, s;
      sw = sin(w); cw = cos(w);
      ec = axn * cw + ayn * sw;
      es = axn * sw - ayn * cw;
      f = m - w + es;
      if (fabs(f) < 1e-12) { done = 1; break; }
      d = f / (1 - ec);
      s = f / (1 - ec + d * es / 2);
      if (k == 0) {
         double mx = 1.25 * fabs(e);
         w += d > mx ? mx : d < -mx ? -mx : s;
      } else
         w += s;
   }
   if (!done) { o.rc = SXPX_ERR_CONVERGENCE_FAIL; return o; }
   double pl = a * (1 - e2), r = a * (1 - ec), be = sqrt(1 - e2), q = es / (1 + be);
   double cu = a / r * (cw - axn + ayn * q), su = a / r * (sw - ayn - axn * q), u = atan2(su, cu);
   double s2 = 2 * su * cu, c2 = 2 * cu * cu - 1;
   double k1 = CK2 / pl, k2 = CK2 / (pl * pl);
   double x31 = 3 * ci * ci - 1, x1m = 1 - ci * ci, x7 = 7 * ci * ci - 1;
   double rk = r * (1 - 1.5 * k2 * be * x31) + .5 * k1 * x1m * c2;
   double uk = u - .25 * k2 * x7 * s2;
   double ok = node + 1.5 * k2 * ci * s2;
   double ik = inc + 1.5 * k2 * ci * si * c2;
   double ux = -sin(ok) * cos(ik) * sin(uk) + cos(ok) * cos(uk);
   double uy = cos(ok) * cos(ik) * sin(uk) + sin(ok) * cos(uk);
   double uz = sin(ik) * sin(uk);
   double vx = -sin(ok) * cos(ik) * cos(uk) - cos(ok) * sin(uk);
   double vy = cos(ok) * cos(ik) * cos(uk) - sin(ok) * sin(uk);
   double vz = sin(ik) * cos(uk);
   double n = KE / (a * sqrt(a));
   double rd = KE * sqrt(a) * es / r - n * k1 * x1m * s2;
   double rf = KE * sqrt(pl) / r + n * k1 * (x1m * c2 + 1.5 * x31);
   o.x[0] = rk * ux * XKMPER; o.x[1] = rk * uy * XKMPER; o.x[2] = rk * uz * XKMPER;
   o.v[0] = (rd * ux + rf * vx) * XKMPER; o.v[1] = (rd * uy + rf * vy) * XKMPER; o.v[2] = (rd * uz + rf * vz) * XKMPER;
   return o;
}


/* atmosphere, drag coefficients and secular rates */
typedef struct { double s, xi, eta, co, co1; } drag_t;
static drag_t rates(const tle_t *tle, double n0, double a0, double *Md, double *wd, double *Od, double *C1, double *C4, double *nodecf)
{
   drag_t r;
   double e = tle->eo, w0 = tle->omegao;
   double th = cos(tle->xincl), th2 = th * th, th4 = th2 * th2, b2 = 1 - e * e, b = sqrt(b2);
   /* atmospheric s and (q0-s)^4 with the perigee corrections */
   double per = (a0 * (1 - e) - 1) * XKMPER, s = 1 + 78 / XKMPER, q4 = QOMS2T;
   if (per < 156) {
      double h = per <= 98 ? 20 : per - 78;
      q4 = pow((120 - h) / XKMPER, 4);
      s = h / XKMPER + 1;
   }
   double xi = 1 / (a0 - s), eta = a0 * e * xi, eta2 = eta * eta, ee = e * eta, psi = fabs(1 - eta2);
   double co = q4 * xi * xi * xi * xi, co1 = co / pow(psi, 3.5);
   double C2 = co1 * n0 * (a0 * (1 + 1.5 * eta2 + 4 * ee + ee * eta2)
             + .75 * CK2 * xi / psi * (3 * th2 - 1) * (8 + 24 * eta2 + 3 * eta2 * eta2));
   *C1 = tle->bstar * C2;
   *C4 = 2 * n0 * co1 * a0 * b2 * (2 * eta + .5 * eta * eta2 + .5 * e + 2 * e * eta2
             - 2 * CK2 * xi / (a0 * psi) * (3 * (1 - 3 * th2) * (1 + 1.5 * eta2 - 2 * ee - .5 * ee * eta2)
             + .75 * (1 - th2) * (2 * eta2 - ee - ee * eta2) * cos(2 * w0)));
   double p2 = 1 / (a0 * b2 * a0 * b2), p4 = p2 * p2;
   *Md = n0 + 3 * CK2 * p2 * n0 * b * (3 * th2 - 1) / 2 + 3 * CK2 * CK2 * p4 * n0 * b * (13 - 78 * th2 + 137 * th4) / 16;
   *wd = -3 * CK2 * p2 * n0 * (1 - 5 * th2) / 2 + 3 * CK2 * CK2 * p4 * n0 * (7 - 114 * th2 + 395 * th4) / 16
             + 5 * CK4 * p4 * n0 * (3 - 36 * th2 + 49 * th4) / 4;
   double Od1 = -3 * CK2 * p2 * n0 * th;
   *Od = Od1 + 3 * CK2 * CK2 * p4 * n0 * th * (4 - 19 * th2) / 2 + 5 * CK4 * p4 * n0 * th * (3 - 7 * th2) / 2;
   *nodecf = 3.5 * b2 * Od1 * *C1;
   r.s = s; r.xi = xi; r.eta = eta; r.co = co; r.co1 = co1;
   return r;
}
