/* What sat_visibility reports about the satellite, the Sun and the observer at the date of an event (mjd), as a
   function of the command-line settings and the element set.  Library entry points stay calls. */
#include <math.h>
#include <stdbool.h>
#include "norad.h"
#include "observe.h"
#define S(name) double spec_##name
#define DEG (M_PI / 180)
#define JD(mjd) (2400000.5 + (mjd))
#define TURN (2 * M_PI)

#define ERAD 6378.1366
#define FLAT 3.352819697896193e-3
#define AU 149597870.7

/* settings by role; mjd: the date printed for the event; jd: the date of a sample */
typedef struct {
   double mjd, lat, lon, ht, radius, dt, mjd0, mjd1, a, N, altmin, altmax, norad, parse, des, i, s, jd;
} set_t;
typedef struct { double ra, dec, dist; } dir_t;
typedef struct { double lat, lon, alt, theta; } geo_t;
#define W const set_t *s, const tle_t *tle

static void position(double jd, const tle_t *tle, double *pos)
{
   double par[N_SAT_PARAMS], t = (jd - tle->epoch) * 1440;
   if (select_ephemeris(tle)) { SDP4_init(par, tle); SDP4(t, tle, par, pos, 0); }
   else { SGP4_init(par, tle); SGP4(t, tle, par, pos, 0); }
}

/* direction of date, as seen from the observer at that time */
static dir_t seen(W, double jd)
{
   double pos[3], obs[3], c, sn;
   dir_t d;
   position(jd, tle, pos);
   earth_lat_alt_to_parallax(s->lat * DEG, s->ht, &c, &sn);
   observer_cartesian_coords(jd, s->lon * DEG, c, sn, obs);
   get_satellite_ra_dec_delta(obs, pos, &d.ra, &d.dec, &d.dist);
   return d;
}
static dir_t at(W) { return seen(s, tle, JD(s->mjd)); }
static dir_t next(W) { return seen(s, tle, JD(s->mjd) + s->dt / 86400); }
static dir_t j2000(W)
{
   dir_t d = at(s, tle);
   epoch_of_date_to_j2000(JD(s->mjd), &d.ra, &d.dec);
   return d;
}

static geo_t geodetic(W, double jd)
{
   geo_t g;
   double pos[3], r, e2 = FLAT * (2 - FLAT), f, c, gm;
   position(jd, tle, pos);
   lmst_hr(jd, s->lon, &gm);
   g.theta = atan2(pos[1], pos[0]) / DEG;
   g.lon = g.theta - gm * 15;
   if (g.lon > 180) g.lon -= 360;
   else if (g.lon < -180) g.lon += 360;
   r = sqrt(pos[0] * pos[0] + pos[1] * pos[1]);
   g.lat = atan2(pos[2], r);
   do {
      f = g.lat;
      c = 1 / sqrt(1 - e2 * sin(f) * sin(f));
      g.lat = atan2(pos[2] + ERAD * c * e2 * sin(f), r);
   } while (fabs(g.lat - f) >= 1e-10);
   g.alt = r / cos(g.lat) - ERAD * c;
   g.lat = g.lat / DEG;
   if (g.lat > 90) g.lat -= 360;
   return g;
}
S(glat)(W) { return geodetic(s, tle, JD(s->mjd)).lat; }
S(glon)(W) { return geodetic(s, tle, JD(s->mjd)).lon; }
S(galt)(W) { return geodetic(s, tle, JD(s->mjd)).alt; }
S(gtheta)(W) { return geodetic(s, tle, JD(s->mjd)).theta; }

static double local(const set_t *s, double dec, double ha, int k)
{
   double v[3];
   dechalat2alt(dec, ha, s->lat, v, v + 1, v + 2);
   return v[k];
}
static double lst(W) { double g; return lmst_hr(JD(s->mjd), s->lon, &g); }
static double zsep(W, double jd)
{
   double g;
   dir_t d = seen(s, tle, jd);
   return skysep_h(lmst_hr(jd, s->lon, &g) * M_PI / 12, s->lat * DEG, d.ra, d.dec);
}

S(ra)(W) { return j2000(s, tle).ra / DEG; }
S(dec)(W) { return j2000(s, tle).dec / DEG; }
S(dist)(W) { return at(s, tle).dist; }
S(az)(W) { dir_t d = at(s, tle); return local(s, d.dec, lst(s, tle) - d.ra * 12 / M_PI, 1); }
S(alt)(W) { dir_t d = at(s, tle); return local(s, d.dec, lst(s, tle) - d.ra * 12 / M_PI, 0); }
S(sep)(W) { return zsep(s, tle, JD(s->mjd)); }
S(pa)(W)
{
   dir_t a = at(s, tle), b = next(s, tle);
   double p = atan2(remainder(b.ra - a.ra, TURN) * cos(a.dec), b.dec - a.dec);
   if (p < 0) p += TURN;
   return (int) (p / DEG);
}
S(speed)(W)
{
   dir_t a = at(s, tle), b = next(s, tle);
   return skysep_h(a.ra, a.dec, b.ra, b.dec) * 60 / s->dt;
}

static double sun(const set_t *s, double *dec) { double r; lpsun_radec(JD(s->mjd), &r, dec); return r; }
static double sha(W) { double d; return lst(s, tle) - sun(s, &d) * 12 / M_PI; }
S(sra)(W) { double d; return sun(s, &d) / DEG; }
S(sdec)(W) { double d; sun(s, &d); return d / DEG; }
S(salt)(W) { double d; sun(s, &d); return local(s, d, sha(s, tle), 0); }
S(saz)(W) { double d; sun(s, &d); return local(s, d, sha(s, tle), 1); }
S(spar)(W) { double d; sun(s, &d); return local(s, d, sha(s, tle), 2); }
S(slon)(W)
{
   double g, d, l;
   lmst_hr(JD(s->mjd), s->lon, &g);
   l = fmod(sun(s, &d) / DEG - g * 15 + 360, 360);
   return l > 180 ? l - 360 : l;
}
S(ssep)(W) { double d, r = sun(s, &d); return skysep_h(lst(s, tle) * M_PI / 12, s->lat * DEG, r, d); }

/* observer and region (zenith at the start date) */
S(rra)(W) { return 15 * lst(s, tle); }
S(rdec)(W) { return s->lat; }
S(ralt)(W) { return local(s, s->lat * DEG, 0, 0); }
S(raz)(W) { return local(s, s->lat * DEG, 0, 1); }
S(rpar)(W) { return local(s, s->lat * DEG, 0, 2); }
S(lmst)(W) { return lst(s, tle); }
S(gmst)(W) { double g; lmst_hr(JD(s->mjd), s->lon, &g); return g; }
S(rrad)(W) { return s->radius; }
S(plat)(W) { return s->lat; }
S(plon)(W) { return s->lon; }
S(pht)(W) { return s->ht; }
S(pmjd0)(W) { return s->mjd0; }
S(pmjd1)(W) { return s->mjd1; }
S(pdt)(W) { return s->dt; }

/* a sample of the pass: within the radius around zenith, lit by the Sun */
static bool lit(W, double jd)
{
   double pos[3], ra, dec, u[3], q[3], l = 0, b = 0, c = 0, disc;
   position(jd, tle, pos);
   lpsun_radec(jd, &ra, &dec);
   u[0] = cos(ra) * cos(dec) * AU; u[1] = sin(ra) * cos(dec) * AU; u[2] = sin(dec) * AU;
   for (int k = 0; k < 3; k++) { q[k] = u[k] - pos[k]; l += q[k] * q[k]; c += pos[k] * pos[k]; }
   for (int k = 0; k < 3; k++) b -= q[k] * pos[k];
   l = sqrt(l);
   b = 2 * b / l;
   disc = b * b - 4 * (c - ERAD * ERAD);
   if (disc < 0) return 1;
   return (b + sqrt(disc)) / 2 < 0;
}
static bool inside(W) { return zsep(s, tle, s->jd) <= s->radius; }
static bool inrange(W)
{
   geo_t g;
   if (!s->a) return true;
   g = geodetic(s, tle, s->jd);
   return g.alt >= s->altmin && g.alt <= s->altmax;
}
S(height)(W) { return inrange(s, tle); }
S(vis)(W) { return inside(s, tle) && lit(s, tle, s->jd); }
S(in)(W) { return inside(s, tle); }
S(lit)(W) { return lit(s, tle, s->jd); }
S(sampsep)(W) { return zsep(s, tle, s->jd); }
static bool wanted(W) { return s->s ? tle->norad_number == s->norad : s->i && s->des == 0; }
S(found)(W) { return s->parse == 0 && wanted(s, tle); }
