"""C09: HPXID_8 is the order 8 nested HEALPix pixel of the start position.

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed HEALPix identifier equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    outs.dataslots(o, {'hpx': 9}, RULE)
    c.need(1, 'printed values compared with their specification')
    outs.assumptions(c)
