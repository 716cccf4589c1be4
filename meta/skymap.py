T = 'static value-numbering: the printed value as a gated expression over command-line settings and TLE fields (LLVM IR of the flattened program), decided equal to a reference definition by random interpretation'
N = 'Complete over all paths and option settings in real arithmetic; library calls are opaque and specified by their own properties; rounding is not modelled; equality is Monte-Carlo with negligible error probability.'
Q = (['inputs', 'configurations'], 'all option combinations, observers, dates, regions and element sets')
W = 'The value depends on the combination of options and on quadrants, hemispheres and wrap-arounds; the existing tests never run the program, and samples would miss a particular combination.'
F = ['src/sat_skymap.c', 'src/observe.c']


def p(id, title, statement, mech):
    return dict(id=id, title=title, statement=statement, q=Q, why=W, files=F, mech=[(m, 'src/sat_skymap.c main') for m in mech], technique=T, level_note=N)


P = [
p('C03', 'RA_start, Dec_start, Distance are the J2000 direction and range at the date',
  'For every satellite it reports, sat_skymap prints as RA_start, Dec_start and Distance the right ascension and declination (J2000, degrees) and the distance (km) of the satellite as seen from the observing site of -l at the requested date: propagated by SDP4 or SGP4 as select_ephemeris chooses, by the minutes elapsed since the element epoch, seen from the observer\'s position at that date, and precessed to J2000. The same holds whatever other options are given.',
  ['propagation and get_satellite_ra_dec_delta', 'epoch_of_date_to_j2000', 'add "data" record']),
p('C04', 'RA_end and Dec_end are the direction delta_time seconds later',
  'For every satellite it reports, sat_skymap prints as RA_end and Dec_end the J2000 direction (degrees) delta_time seconds (-t) after the requested date: the same element set and propagator advanced by delta_time, seen from the observer\'s position delta_time seconds later, and precessed from the date to J2000.',
  ['second propagation, observer_loc2', 'add "data" record']),
p('C05', 'Separation is measured from the region centre the options select',
  'The Separation printed for a satellite is its angular distance in degrees, at the start epoch, from the centre the options select: the -p coordinates when they apply, else the local zenith (also when -s or -i follows -p); with -E it is instead the distance on the ground, in geodetic longitude and latitude, between satellite and site. With -H it is the great-circle distance, otherwise the plane distance of the coordinate differences, with differences in right ascension or longitude taken the short way round.',
  ['target_ra/target_dec selection', 'ang_sep']),
p('C06', 'PA and Speed describe the motion from the start to the end position',
  'For every satellite it reports, sat_skymap prints as PA the position angle of the motion from the start to the end position in whole degrees, truncated, measured from North through East in [0,360), with the RA difference taken the short way round and scaled by cos(Dec), and as Speed the great-circle distance between the two positions in arcminutes divided by delta_time seconds.',
  ['posn_ang_of_motion, speed']),
p('C07', 'geoloc is the geodetic position of the satellite at the requested date',
  'When sat_skymap prints a geoloc object, lat, lon and alt are the geodetic latitude (degrees), the East longitude folded once by 360 degrees towards [-180,180], and the height (km) above the reference ellipsoid (iterated to 1e-10 rad) of the satellite at the requested date, and theta is its equatorial angle, so that lon + 15 GMST = theta modulo 360. It describes the reported satellite at the start epoch, never another satellite or epoch.',
  ['sat_geoLocation', 'add_satlatlon_json']),
p('C08', 'sunlit is 0 exactly when the Earth blocks the line to the Sun',
  'The sunlit flag sat_skymap prints is 0 exactly when the ray from the satellite, at its end position, towards the Sun (low-precision position at the requested date, at one astronomical unit) meets the sphere of the Earth\'s equatorial radius ahead of the satellite; a satellite on the day side, or whose line to the Sun meets the sphere only behind it or not at all, is sunlit (1).',
  ['intersect_satsun_sphere', 'sphrad2v']),
p('C09', 'HPXID_8 is the order 8 nested HEALPix pixel of the start position',
  'The HPXID_8 value sat_skymap prints is what ang2pix_nest gives for nside 256 at colatitude pi/2 - Dec_start and longitude RA_start (radians, J2000).',
  ['ang2pix_nest call']),
p('C10', 'Region centre, Sun and sidereal times are reported consistently',
  'sat_skymap reports in input_params the region centre actually used (-p coordinates, or the zenith for -E, -s, -i or without -p) in degrees, its radius, the GMST and LMST of the date and site in hours, and the azimuth, altitude and parallactic angle of that centre at hour angle LMST - RA. It reports the Sun\'s right ascension, declination, azimuth, altitude and parallactic angle at that date and site, its geographic East longitude in (-180,180], and its great-circle separation from the region centre, all in degrees.',
  ['lmst_hr, dechalat2alt', 'lpsun_radec, skysep_h', 'add_params_json, add_sundata_json']),
p('C14', 'Exactly the satellites selected by the options are reported',
  'For each element set it reads, sat_skymap reports the satellite exactly when: the two lines parse without error; with -s or -i it is the requested one (decoded catalogue number, full international designator YYYY-NNNAAA), else with -S the name contains the given text; its catalogue number was not met before; its height is in the -a range, unless -s or -i is given after -a; it is a single satellite or chosen by -S, or its separation from the region centre at the date or delta_time later is at most the radius (with -E the geodetic separation, once or doubled); and with -V it is sunlit. With -I nothing is listed but the satellites are still counted.',
  ['selection by number, designator, name', 'altitude, region and sunlit filters']),
p('C15', 'Satellites are listed once and n_sats, n_sats_found, n_sunlit_sats are right',
  'sat_skymap registers the five-character catalogue number of each parsed and wanted element set it has not met before, and never reports a registered one again. n_sats_found counts the selected satellites (also with -I), n_sunlit_sats those of them in sunlight, n_sats is 0 or equals n_sats_found, and every status report, also one that ends in an error, prints the latest counts. Reading stops early exactly after the satellite requested with -s or -i was found or when n_sats_found reaches the limit of -n.',
  ['sbuff/norad_name duplicate test', 'counters and goto end_checking', 'close_stat_json']),
dict(p('C02', 'The reported status is the exit code and comes with a message when nonzero',
  'Whenever sat_skymap or sat_visibility writes a JSON document, the status member printed is the exit code of the process (modulo 256), and errmsg is empty with status 0, except for a requested satellite that was not found, and not empty otherwise. The fixed text of every message contains no quote, backslash or control character.',
  ['close_stat_json and exit calls']), files=['src/sat_skymap.c', 'src/sat_visibility.c'],
  technique='static path analysis of the flattened programs: every control-flow path from a status report to a process end, with phi nodes resolved along the path; texts followed through value numbering',
  q=(['inputs', 'configurations', 'faults'], 'all paths on which a document is written, including unreadable files and failed allocation'),
  why='Error paths need missing files, bad options or failed allocations; the existing tests never run the programs.'),
]
