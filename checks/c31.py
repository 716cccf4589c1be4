"""C31: skysep_h is the haversine separation in degrees, within [0,180].

Normalised code compared with the haversine formula (spec/core.c) by random interpretation; range by intervals.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'core', ['skysep'], 'equals the haversine separation', rng={'skysep': (0, 180)})
    c.need(1, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
