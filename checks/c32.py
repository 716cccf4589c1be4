"""C32: lpsun_radec is the Astronomical Almanac low-precision Sun, RA within [0, 2 pi].

Normalised code compared with the Almanac formula (spec/core.c) by random interpretation; range by intervals.
"""
RULE = __doc__
import math
import spec


def run(c):
    spec.compare(c, 'core', ['sunra', 'sundec'], 'equals the Almanac formula',
                 rng={'sunra': (0, 2 * math.pi), 'sundec': (-math.pi / 2, math.pi / 2)})
    c.need(2, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
