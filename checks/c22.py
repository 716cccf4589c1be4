"""C22: position, velocity and return code of SGP4_init + SGP4 equal the SGP4 equations of Spacetrack Report #3.

The code, normalised to gated expressions (global value numbering on LLVM IR), is compared by random interpretation with
an independently written specification (spec/sgp4.c, spec/orbit.h) for all element values and times.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'sgp4', ['x', 'y', 'z', 'vx', 'vy', 'vz', 'rc'], 'equals the Spacetrack Report #3 equation')
    c.need(7, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
