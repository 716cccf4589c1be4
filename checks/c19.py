"""C19: every field of an accepted element set has the value of its columns, in the library's units.

Each member of tle_t after parse_elements, normalised from the LLVM IR to gated expressions over the characters of the
two lines, is compared by random interpretation with an independent column table (spec/tle.c), for all line texts.
"""
RULE = __doc__
import spec

NAMES = ['epoch', 'class', 'type', 'bulletin', 'revs', 'eo', 'xno', 'xndt2o', 'xmo', 'xnodeo', 'omegao', 'xincl', 'xndd6o',
         'bstar', 'norad', 'digits5'] + ['letter%d' % i for i in range(5)] + ['desig%d' % i for i in range(9)] + [
         'letters' + x for x in '12 13 14 23 24 34 01 02 03 04'.split()]


def run(c):
    spec.compare(c, 'tle', NAMES, 'the field has the value of its columns', keep=['tle_checksum'])
    c.need(40, 'values compared with their specification')
    c.assume('the columns hold what the format puts there (numbers, blanks); atoi reads a decimal integer')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
