"""C18: parse_elements accepts exactly the pairs of lines the two-line format allows and reports checksum mismatches.

Values normalised from the LLVM IR are compared by random interpretation with an independent specification (spec/sum.c,
spec/tle.c) for all line texts; the 68 columns of the checksum are covered one by one (loop fully expanded).
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'sum', ['sum'], 'the checksum is that of the two-line format')
    spec.compare(c, 'tle', ['rc'], 'acceptance and checksum report follow the documented result codes', keep=['tle_checksum'])
    c.need(2, 'values compared with their specification')
    c.assume('the lines are strings of at least 69 characters')
