"""C08: sunlit is 0 exactly when the line from the satellite towards the Sun meets the Earth.

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed sunlit flag equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    outs.dataslots(o, {'sunlit': 8}, RULE)
    c.need(1, 'printed values compared with their specification')
    outs.assumptions(c)
