"""C11: ISO date and time strings are converted to MJD by the Gregorian calendar.

date2mjd_nf, normalised from the LLVM IR, is compared by random interpretation with Meeus's formula (spec/date.c) for all
values of the six fields read; a string from which not all six could be read is refused.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'date', ['status', 'mjd'], 'the MJD is that of the calendar date and time')
    c.need(2, 'values compared with their specification')
