"""C30: observer position and topocentric direction.

Parallax constants, cartesian observer position and the topocentric RA/Dec/distance of a satellite, normalised and
compared with their geometric definitions (spec/core.c) by random interpretation.
"""
RULE = __doc__
import math
import spec


def run(c):
    spec.compare(c, 'core', ['rhocos', 'rhosin', 'obsx', 'obsy', 'obsz', 'topora', 'topodec', 'topodist'],
                 'equals the geometric definition', rng={'topora': (0, 2 * math.pi), 'topodec': (-math.pi / 2, math.pi / 2)})
    c.need(8, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
