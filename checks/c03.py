"""C03: RA_start, Dec_start and Distance are the topocentric J2000 direction and range of the satellite at the requested date.

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed start position equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    outs.dataslots(o, {'ra0': 0, 'dec0': 1, 'dist0': 4}, RULE)
    c.need(3, 'printed values compared with their specification')
    outs.assumptions(c)
