"""C05: Separation is measured at the start epoch from the region centre (or the observer's geodetic location with -E).

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed separation equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    outs.dataslots(o, {'sep': 5}, RULE)
    c.need(1, 'printed values compared with their specification')
    outs.assumptions(c)
