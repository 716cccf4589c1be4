/* What sat_skymap reports, as a function of the command-line settings and of one element set.
   Library entry points stay calls (they are specified on their own); S(name) is one reported value. */
#include <math.h>
#include <stdbool.h>
#include "norad.h"
#include "observe.h"
#define S(name) double spec_##name
#define DEG (M_PI / 180)
#define JD(mjd) (2400000.5 + (mjd))
#define TURN (2 * M_PI)
long ang2pix_nest(long nside, double theta, double phi, long *pix);

#define ERAD 6378.1366
#define FLAT 3.352819697896193e-3
#define AU 149597870.7

/* settings by role (lib/outs.py finds the variable that plays each role) */
typedef struct {
   double mjd, lat, lon, ht, ra, dec, radius, dt, nmax;
   double E, G, H, I, V, a, s, i, S, p, altmin, altmax;
   double norad, parse, des, nam, dup;   /* parse_elements' result, comparisons with -i and -S, catalogue number met before */
} set_t;
typedef struct { double ra, dec, dist; } dir_t;
typedef struct { double lat, lon, alt, theta; } geo_t;
#define W const set_t *s, const tle_t *tle

static void position(double jd, const tle_t *tle, double *pos)
{
   double par[N_SAT_PARAMS], t = (jd - tle->epoch) * 1440;
   if (select_ephemeris(tle)) { SDP4_init(par, tle); SDP4(t, tle, par, pos, 0); }
   else { SGP4_init(par, tle); SGP4(t, tle, par, pos, 0); }
}

static dir_t seen(W, double dt)
{
   double pos[3], obs[3], c, sn, jd = JD(s->mjd) + dt / 86400;
   dir_t d;
   position(jd, tle, pos);
   earth_lat_alt_to_parallax(s->lat * DEG, s->ht, &c, &sn);
   observer_cartesian_coords(jd, s->lon * DEG, c, sn, obs);
   get_satellite_ra_dec_delta(obs, pos, &d.ra, &d.dec, &d.dist);
   epoch_of_date_to_j2000(JD(s->mjd), &d.ra, &d.dec);
   return d;
}

static double sidereal(const set_t *s, double *gmst) { return lmst_hr(JD(s->mjd), s->lon, gmst); }

/* geodetic latitude and height by the usual iteration, longitude East */
static geo_t geodetic(W)
{
   geo_t g;
   double pos[3], r, e2 = FLAT * (2 - FLAT), f, c, gm;
   position(JD(s->mjd), tle, pos);
   sidereal(s, &gm);
   g.theta = atan2(pos[1], pos[0]) / DEG;
   g.lon = g.theta - gm * 15;
   if (g.lon > 180) g.lon -= 360;
   else if (g.lon < -180) g.lon += 360;
   r = sqrt(pos[0] * pos[0] + pos[1] * pos[1]);
   g.lat = atan2(pos[2], r);
   do {
      f = g.lat;
      c = 1 / sqrt(1 - e2 * sin(f) * sin(f));
      g.lat = atan2(pos[2] + ERAD * c * e2 * sin(f), r);
   } while (fabs(g.lat - f) >= 1e-10);
   g.alt = r / cos(g.lat) - ERAD * c;
   g.lat = g.lat / DEG;
   if (g.lat > 90) g.lat -= 360;
   return g;
}

/* centre of the region: zenith unless -p gave one that applies */
static bool given(const set_t *s) { return s->p && !s->E && !s->s && !s->i; }
static double tra(const set_t *s) { double g; return given(s) ? s->ra : 15 * sidereal(s, &g); }
static double tdec(const set_t *s) { return given(s) ? s->dec : s->lat; }

static double wrap(double x) { return remainder(x, TURN); }

static double separation(W, double dt)
{
   dir_t d = seen(s, tle, dt);
   if (s->H) return skysep_h(tra(s) * DEG, tdec(s) * DEG, d.ra, d.dec);
   double x = wrap(d.ra - tra(s) * DEG), y = d.dec - tdec(s) * DEG;
   return sqrt(x * x + y * y) / DEG;
}

static double groundsep(W)
{
   geo_t g = geodetic(s, tle);
   if (s->H) return skysep_h(s->lon * DEG, s->lat * DEG, g.lon * DEG, g.lat * DEG);
   double x = wrap((g.lon - s->lon) * DEG), y = (g.lat - s->lat) * DEG;
   return sqrt(x * x + y * y) / DEG;
}

S(ra0)(W) { return seen(s, tle, 0).ra / DEG; }
S(dec0)(W) { return seen(s, tle, 0).dec / DEG; }
S(dist0)(W) { return seen(s, tle, 0).dist; }
S(ra1)(W) { return seen(s, tle, s->dt).ra / DEG; }
S(dec1)(W) { return seen(s, tle, s->dt).dec / DEG; }
S(sep)(W) { return s->E ? groundsep(s, tle) : separation(s, tle, 0); }
S(pa)(W)
{
   dir_t a = seen(s, tle, 0), b = seen(s, tle, s->dt);
   double p = atan2(wrap(b.ra - a.ra) * cos(a.dec), b.dec - a.dec);
   if (p < 0) p += TURN;
   return (int) (p / DEG);
}
S(speed)(W)
{
   dir_t a = seen(s, tle, 0), b = seen(s, tle, s->dt);
   return skysep_h(a.ra, a.dec, b.ra, b.dec) * 60 / s->dt;
}
static double lit(W)
{
   double pos[3], ra, dec, u[3], q[3], l = 0, b = 0, c = 0, disc;
   position(JD(s->mjd) + s->dt / 86400, tle, pos);
   lpsun_radec(JD(s->mjd), &ra, &dec);
   u[0] = cos(ra) * cos(dec) * AU; u[1] = sin(ra) * cos(dec) * AU; u[2] = sin(dec) * AU;
   for (int k = 0; k < 3; k++) { q[k] = u[k] - pos[k]; l += q[k] * q[k]; c += pos[k] * pos[k]; }
   for (int k = 0; k < 3; k++) b -= q[k] * pos[k];      /* distance to the foot of the perpendicular, times l */
   l = sqrt(l);
   b = 2 * b / l;
   disc = b * b - 4 * (c - ERAD * ERAD);
   if (disc < 0) return 1;
   return (b + sqrt(disc)) / 2 < 0;
}
S(sunlit)(W) { return lit(s, tle); }
S(hpx)(W)
{
   long id;
   dir_t a = seen(s, tle, 0);
   ang2pix_nest(256, M_PI / 2 - a.dec, a.ra, &id);
   return id;
}
S(glat)(W) { return geodetic(s, tle).lat; }
S(glon)(W) { return geodetic(s, tle).lon; }
S(galt)(W) { return geodetic(s, tle).alt; }
S(gtheta)(W) { return geodetic(s, tle).theta; }

/* is the satellite of this element set selected? */
static bool wanted(W)
{
   if (s->s) return tle->norad_number == s->norad;
   if (s->i) return s->des == 0;
   return !s->S || s->nam != 0;
}
static bool inregion(W)
{
   if (s->s || s->i || s->S) return true;
   if (s->E) return groundsep(s, tle) <= s->radius || 2 * groundsep(s, tle) <= s->radius;   /* the second never adds anything */
   return separation(s, tle, 0) <= s->radius || separation(s, tle, s->dt) <= s->radius;
}
static bool inrange(W)
{
   if (!s->a || s->s || s->i) return true;
   geo_t g = geodetic(s, tle);
   return g.alt >= s->altmin && g.alt <= s->altmax;
}
static double lit(W);
static bool selected(W)
{
   return s->parse == 0 && wanted(s, tle) && s->dup == 0 && inrange(s, tle) && inregion(s, tle) &&
          (!s->V || lit(s, tle));
}
S(sel)(W) { return selected(s, tle); }
S(sellit)(W) { return selected(s, tle) && lit(s, tle); }
S(met)(W) { return s->parse == 0 && wanted(s, tle) && s->dup == 0; }

/* region and Sun */
static double sun(const set_t *s, double *dec) { double r; lpsun_radec(JD(s->mjd), &r, dec); return r; }
static double local(const set_t *s, double dec, double ha, int k)
{
   double v[3];
   dechalat2alt(dec, ha, s->lat, v, v + 1, v + 2);
   return v[k];
}
S(rra)(W) { return tra(s); }
S(rdec)(W) { return tdec(s); }
S(rrad)(W) { return s->radius; }
static double rha(const set_t *s) { double g; return given(s) ? sidereal(s, &g) - s->ra / 15 : 0; }
S(ralt)(W) { return local(s, tdec(s) * DEG, rha(s), 0); }
S(raz)(W) { return local(s, tdec(s) * DEG, rha(s), 1); }
S(rpar)(W) { return local(s, tdec(s) * DEG, rha(s), 2); }
S(lmst)(W) { double g; return sidereal(s, &g); }
S(gmst)(W) { double g; sidereal(s, &g); return g; }
S(sra)(W) { double d; return sun(s, &d) / DEG; }
S(sdec)(W) { double d; sun(s, &d); return d / DEG; }
static double sha(const set_t *s) { double g, d; return sidereal(s, &g) - sun(s, &d) * 12 / M_PI; }
S(salt)(W) { double d; sun(s, &d); return local(s, d, sha(s), 0); }
S(saz)(W) { double d; sun(s, &d); return local(s, d, sha(s), 1); }
S(spar)(W) { double d; sun(s, &d); return local(s, d, sha(s), 2); }
S(slon)(W)
{
   double g, d, l;
   sidereal(s, &g);
   l = fmod(sun(s, &d) / DEG - g * 15 + 360, 360);
   return l > 180 ? l - 360 : l;
}
S(ssep)(W) { double d, r = sun(s, &d); return skysep_h(tra(s) * DEG, tdec(s) * DEG, r, d); }
