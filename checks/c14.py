"""C14: exactly the satellites selected by the options are reported.

The condition for one pass of the element-set loop to print a record, as an expression over options and element set,
compared with the documented selection (spec/sky.c) by random interpretation and case analysis.
"""
import outs, scan, gvn
RULE = 'a record is printed exactly for the selected satellites'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    recs = o.slots('data', '[0]')
    sel = o.specval('sky', 'sel') * gvn.b2i(gvn.cmp0('eq', o.sym('I')))
    for r in recs:
        h = scan.passhead(o, r['inst'].bb)
        scan.agree(o, RULE, 'selection', scan.cond(o, h, r['inst'].bb), sel, r['inst'].where())
    if not recs:
        c.ob(RULE, 'sat_skymap: selection', False, 'sat_skymap', 'no record is printed', key='none')
    outs.assumptions(c)
    c.assume('memory allocation succeeds')
