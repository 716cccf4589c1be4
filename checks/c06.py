"""C06: PA and Speed describe the motion from the start to the end position.

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed motion equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    outs.dataslots(o, {'pa': 6, 'speed': 7}, RULE)
    c.need(2, 'printed values compared with their specification')
    outs.assumptions(c)
