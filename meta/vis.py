T = 'static value-numbering: printed values and loop-carried state of the sampling loop as gated expressions (LLVM IR of the flattened program), decided equal to a reference definition by random interpretation'
N = 'Complete over all paths, option settings and numbers of samples (loop-carried state, by one pass and its entry) in real arithmetic; library calls are opaque and specified by their own properties; rounding is not modelled; equality is Monte-Carlo with negligible error probability.'
Q = (['inputs', 'configurations', 'histories'], 'all option combinations, date ranges, observers, element sets, and any number of samples')
F = ['src/sat_visibility.c', 'src/observe.c']


def p(id, title, statement, why, mech, **k):
    return dict(dict(id=id, title=title, statement=statement, q=Q, why=why, files=F, mech=[(m, 'src/sat_visibility.c main') for m in mech], technique=T, level_note=N), **k)


P = [
p('C16', 'The pass reported is the first run of lit samples inside the radius',
  'sat_visibility samples the date range of -j from its start (with -N from the first of the dates 0.0007 days apart at which the Sun is below the horizon) in steps of -t seconds up to its end. The pass starts at the first sample whose zenith separation is at most the -r radius and which is in sunlight, and ends at the next sample that is not, or with the last sample of the range; sat_mid is half way between, sat_max the first of the lit samples inside the radius that is nearest to the zenith, sunlit_duration_minutes the time from start to end. The four events are each reported once, and n_sats_found is 1, exactly when a start was found; otherwise the Sun at the start of the search range is reported; a sample whose height is outside the -a range ends the program with an error.',
  'The state carried from sample to sample (start found, nearest sample so far, entry into shadow, leaving the radius, end of range) must be right for every history of samples; the existing tests never run the program.',
  ['time loop', 'sunlit_start_found, sunlit_end_found, min_ang_sep', 'Tmid and minimum zenith distance']),
p('C17', 'Each pass event reports satellite, Sun and ground data of its own date',
  'For each of the events start, mid, max and end, sat_visibility reports data of the MJD it prints with it: the Date, the J2000 direction (RA, Dec, precessed once) and distance of the satellite seen from the site, its azimuth and altitude, zenith separation, position angle and speed of motion over the next delta_time, the geodetic ground position of the satellite (longitude folded once), and the position of the Sun with its separation from the zenith. Region centre and sidereal time in input_params, and the Sun reported without a pass, are those of the start of the requested range.',
  'Event data are computed in shared variables at several places; whether a later or earlier sample leaks into an event depends on which sample ends the pass; the existing tests never run the program.',
  ['add_satdata_json, add_satlatlon_json, add_sundata_json', 'get_sat_PA_and_speed, sat_geoLocation, get_sun_data']),
]
