"""C04: RA_end and Dec_end are the topocentric J2000 direction delta_time seconds later, from the observer's position then.

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed end position equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    outs.dataslots(o, {'ra1': 2, 'dec1': 3}, RULE)
    c.need(2, 'printed values compared with their specification')
    outs.assumptions(c)
