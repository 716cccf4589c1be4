"""C10: the region centre and the Sun are reported with their local coordinates, sidereal times and separation.

The value sat_skymap prints, as an expression over settings and element set, compared with spec/sky.c by random
interpretation.
"""
import outs
RULE = 'printed region and Sun equals its specification'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    o.compare('sky', [(n, o.slots('region', k)) for n, k in
                      (('rra', 'ra'), ('rdec', 'dec'), ('rrad', 'radius'), ('ralt', 'alt'), ('raz', 'az'), ('rpar', 'parang'), ('lmst', 'lmst'))], RULE)
    o.compare('sky', [('gmst', o.slots('gmst'))], RULE)
    o.compare('sky', [(n, o.slots('sun', k)) for n, k in
                      (('sra', 'ra'), ('sdec', 'dec'), ('salt', 'alt'), ('saz', 'az'), ('spar', 'parang'), ('slon', 'lon'), ('ssep', 'separation_deg'))], RULE)
    c.need(15, 'printed values compared with their specification')
    outs.assumptions(c)
