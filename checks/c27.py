"""C27: lmst_hr returns mean sidereal time reduced to [0,24] hours.

Congruence modulo 24 h with the Aoki et al. formula (whole-multiple terms and +-24 h loops removed) plus an interval
argument from the loop exit conditions for the range.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'core', ['gmst', 'lmst'], 'equals mean sidereal time modulo 24 h', period={'gmst': 24, 'lmst': 24},
                 rng={'gmst': (0, 24), 'lmst': (0, 24)})
    c.need(2, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
