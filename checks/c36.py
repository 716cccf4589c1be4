"""C36: right ascension of the zenith: sidereal time at Greenwich plus East longitude.

Normalised code compared with an independent formula (spec/zenith.c) by random interpretation, modulo a turn.
"""
RULE = __doc__
import spec


def run(c):
    spec.compare(c, 'zenith', ['gmst'], 'Greenwich mean sidereal time modulo 24 h', period={'gmst': 24})
    spec.compare(c, 'zenith', ['gast', 'last'], 'apparent sidereal time: mean plus equation of the equinoxes, modulo 24 h',
                 period={'gast': 24, 'last': 24}, keep=['ut2gmst', 'earthtilt'])
    spec.compare(c, 'zenith', ['ra', 'ra_last'], 'right ascension of the zenith: local sidereal time, modulo 360 degrees',
                 period={'ra': 360, 'ra_last': 360}, keep=['ut2gmst', 'earthtilt'])
    c.need(5, 'values compared with their specification')
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
