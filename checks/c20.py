"""C20: select_ephemeris chooses the model the element set asks for, or the one its period calls for.

The result, normalised from the LLVM IR, is compared by random interpretation with an independent specification
(spec/choose.c) for all element sets.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'choose', ['model'], 'the model is that of the type or the period')
    c.need(1, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
