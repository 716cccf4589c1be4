"""C29: epoch_of_date_to_j2000 applies Meeus' approximate precession from the date to J2000.

Normalised code compared with the published rates (spec/core.c) by random interpretation.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'core', ['precra', 'precdec'], 'equals the approximate precession formula')
    c.need(2, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
