"""C07: geoloc is the geodetic latitude, longitude, height and equatorial angle of the satellite at the requested date.

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed geodetic location equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    o.compare('sky', [(n, o.slots('geoloc', k)) for n, k in
                      (('glat', 'lat'), ('glon', 'lon'), ('galt', 'alt'), ('gtheta', 'theta'))], RULE)
    c.need(4, 'printed values compared with their specification')
    outs.assumptions(c)
