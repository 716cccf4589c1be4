"""C28: dechalat2alt gives altitude, azimuth and parallactic angle of the spherical triangle.

Normalised code compared with the textbook formulas (spec/core.c) in all cases by random interpretation, ranges by
interval reasoning over the same expressions.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'core', ['alt', 'az', 'parang'], 'equals the spherical-triangle formula',
                 rng={'alt': (-90, 90), 'az': (0, 360), 'parang': (-180, 180)})
    c.need(3, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
