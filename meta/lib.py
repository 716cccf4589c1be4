T = 'static value-numbering: LLVM IR normalised to gated polynomials, decided equal to a reference formula by random interpretation'
N = 'Complete over the real-arithmetic semantics of the analysed functions (all paths, all inputs); rounding is not modelled; equality is Monte-Carlo with negligible error probability.'
Q = (['inputs'], 'all real argument values')
W = 'Tests would sample a handful of arguments; an error confined to a quadrant, hemisphere, branch or rarely dominant term would go unseen.'
P = [
dict(id='C22', title='SGP4 position and velocity follow the Spacetrack Report #3 equations',
 statement='For every near-Earth element set (eccentricity, inclination, perigee height, drag term) and every time offset, SGP4_init followed by SGP4 gives the geocentric position in km and the velocity in km/min of the SGP4 model of Spacetrack Report #3 (WGS-72 constants): recovered mean motion, perigee-dependent atmosphere parameters, secular gravity and drag terms with the simplified branch for perigees below 220 km, long- and short-period terms and Kepler iteration. The return code is 0, or the documented warning or error: nearly parabolic, negative semimajor axis, convergence failure, or perigee or orbit within the Earth.',
 q=(['inputs'],'all element sets with defined elements and all time offsets'), why='Each model branch and periodic term only dominates for particular orbits; a wrong sign or coefficient in one of them is invisible for most sample satellites, and the tests never run the propagators.',
 files=['src/sgp4.c','src/common.c'], mech=[('SGP4_init, SGP4','src/sgp4.c'),('sxpall_common_init, sxpx_common_init, sxpx_posn_vel','src/common.c')], technique=T, level_note=N),
dict(id='C27', title='lmst_hr returns mean sidereal time in [0,24] hours',
 statement='lmst_hr(jd, longitude, &gmst) gives Greenwich mean sidereal time (Aoki et al. 1982, as in the Astronomical Almanac) at jd in gmst and returns the local mean sidereal time at the given longitude (degrees, East positive), both in hours and congruent to the formula modulo 24, and both lie between 0 and 24 for every date before or after J2000 and every longitude.',
 q=Q, why=W, files=['src/lmst_hr.c'], mech=[('lmst_hr','src/lmst_hr.c')], technique=T + '; interval analysis with loop exit conditions for the range', level_note=N),
dict(id='C28', title='Altitude, azimuth and parallactic angle solve the spherical triangle',
 statement='dechalat2alt(dec, ha, lat) (radians, hours, degrees) gives the altitude in [-90,90], the azimuth in [0,360] measured from North through East, and the parallactic angle of the pole-zenith-object triangle in degrees, in all quadrants, including an object on the meridian (hour angle zero, azimuth 0 or 180), at the zenith, and at the celestial pole; the inverse sine is never taken outside its domain.',
 q=Q, why=W, files=['src/dechalat2alt.c'], mech=[('dechalat2alt','src/dechalat2alt.c')], technique=T + '; interval analysis for the ranges', level_note=N),
dict(id='C29', title='Precession from the date to J2000 follows the Meeus rates',
 statement='epoch_of_date_to_j2000(jd, &ra, &dec) subtracts the precession accumulated between J2000 and jd at the mid-interval rates of Meeus (m = 3.07496 + 0.00186 T/2, n = 1.33621 - 0.00057 T/2 seconds of time per year): dRA = m + n sin(RA) tan(Dec), dDec = n cos(RA), both evaluated at the input coordinates, and folds RA by one turn when it leaves [0, 2 pi).',
 q=Q, why=W, files=['src/observe.c'], mech=[('epoch_of_date_to_j2000','src/observe.c')], technique=T, level_note=N),
dict(id='C30', title='Observer position and topocentric direction are geometrically correct',
 statement='earth_lat_alt_to_parallax gives rho cos(phi\') and rho sin(phi\') for a site on the reference ellipsoid (axes 6378140 m and 6356755 m) at a height in metres; observer_cartesian_coords places the site at the mean sidereal angle of the date plus East longitude, in km; get_satellite_ra_dec_delta gives the right ascension in [0, 2 pi], the declination and the distance of satellite minus observer. This holds for all latitudes, longitudes, heights, dates and satellite positions.',
 q=Q, why=W, files=['src/observe.c'], mech=[('earth_lat_alt_to_parallax, observer_cartesian_coords, get_satellite_ra_dec_delta, ThetaG','src/observe.c')], technique=T + '; interval analysis for the ranges', level_note=N),
dict(id='C31', title='skysep_h is the haversine angular separation within [0,180] degrees',
 statement='skysep_h(ra1, dec1, ra2, dec2) in radians returns in degrees the great-circle separation by the haversine formula for any mixture of negative and positive right ascensions (taking the short way across 0/360), never outside [0,180] and never a NaN for antipodal or coincident points.',
 q=Q, why=W, files=['src/skysep_h.c'], mech=[('skysep_h','src/skysep_h.c')], technique=T + '; interval analysis for the range', level_note=N),
dict(id='C32', title='Solar position follows the Almanac low-precision formulae',
 statement='lpsun_radec(jd, &ra, &dec) gives the Sun\'s right ascension in [0, 2 pi] and declination in [-pi/2, pi/2], in radians, of the Astronomical Almanac low-precision formulae (mean longitude, mean anomaly, equation of centre, obliquity), with the right ascension in the correct quadrant for every ecliptic longitude.',
 q=Q, why=W, files=['src/lpsun_radec.c'], mech=[('lpsun_radec','src/lpsun_radec.c')], technique=T + '; interval analysis for the ranges', level_note=N),
]
P += [
dict(id='C18', title='Element lines are accepted and checksum problems reported by the format rules',
 statement='tle_checksum gives the sum of the digits of columns 1-68, each minus sign counting one, less the digit in column 69, modulo 10 (0 for a correct line), and a negative code for a line that is not an element line or holds characters outside the format. parse_elements reports -104 unless the two lines start with 1 and 2, the negative checksum code of either line (less 100 for the first), 0 for a clean set and 1, 2 or 3 when the first, second or both checksums do not agree; a mismatch does not reject the set.',
 q=(['inputs'],'all texts of two lines of at least 69 characters'), why='A test uses a few valid lines; an error confined to one column, character class or combination of both lines is not seen.',
 files=['src/get_el.c'], mech=[('tle_checksum, parse_elements','src/get_el.c')], technique=T + '; loops fully expanded', level_note=N),
dict(id='C19', title='Every field of an element set has the value of its columns, in library units',
 statement='For an accepted element set parse_elements stores: the Julian date of the epoch (years 57-99 in the 20th century, 00-56 in the 21st), the catalogue number in all schemes (digits, Alpha-5 and its extension with letters in later columns, I and O excluded; 0 if invalid), designator, classification, type, bulletin and revolution numbers, inclination, node, argument of perigee and mean anomaly in radians, eccentricity, mean motion in radians per minute and its derivatives in radians per minute squared and cubed (Earth radii for B*), each read from its own columns with its sign and decimal exponent.',
 q=(['inputs'],'all texts of an accepted pair of lines'), why='A column shifted by one, a century or letter boundary, or an exponent sign shows only for sets that use that column, letter or sign.',
 files=['src/get_el.c'], mech=[('parse_elements, sci, get_angle, get_eight_places, get_norad_number, base34_to_int','src/get_el.c')], technique=T, level_note=N + ' The catalogue number is decided exactly case by case (all digits, one or two letters); the unrestricted mixture of letters by a random sample of its cases.'),
]
P += [
dict(id='C11', title='Date and time strings are converted to the MJD of the Gregorian calendar',
 statement='date2mjd_nf(date, &mjd) reads "YYYY-MM-DDThh:mm:ss[.sss]" and returns 0 with the Modified Julian Date of that Gregorian calendar date and time (Meeus), for every year, month, day, hour, minute and decimal second; when fewer than six fields can be read it returns -1 and sets mjd to 0.',
 q=(['inputs'],'all values of the six fields'), why='Errors confined to January and February, to century years or to fractional seconds pass tests on a few dates.',
 files=['src/date2mjd_nf.c'], mech=[('date2mjd_nf','src/date2mjd_nf.c')], technique=T, level_note=N),
dict(id='C20', title='The orbital model is chosen by type, validity and the 225-minute limit',
 statement='select_ephemeris returns 1 (deep space) for a state vector (type H); otherwise -1 when the mean motion is not positive or the eccentricity lies outside [0,1]; otherwise 0 for types 2 and 4 and 1 for types 3 and 5; and for all other types 1 when the period computed from the recovered (unperturbed) mean motion of Spacetrack Report #3 is at least 225 minutes, 0 when it is shorter.',
 q=(['inputs'],'all element sets'), why='Only sets close to the limit, of a rare type, or with invalid elements tell the cases apart.',
 files=['src/basics.c','src/common.c'], mech=[('select_ephemeris','src/basics.c'),('sxpall_common_init','src/common.c')], technique=T, level_note=N),
dict(id='C34', title='MJD is converted to the calendar date and time, rounded as documented',
 statement='mjd2date(mjd) returns "YYYY-MM-DDThh:mm:ss" with the Gregorian date (Fliegel and Van Flandern) and the time rounded to the nearest second, carrying into the day, month and year; mjd2datef adds milliseconds and cuts to the millisecond. Both return no text exactly when the Julian date is below -68569.5 or above 1e9, and dates before the MJD origin are handled like those after it.',
 q=(['inputs'],'all real MJD values'), why='Carries at day, month, year and century ends and dates before the origin occur for few of the dates a test could try.',
 files=['src/mjd2date.c'], mech=[('mjd2date, mjd2datef','src/mjd2date.c')], technique=T + ' (whole-number identities of floor, trunc and fmod)', level_note=N),
dict(id='C36', title='Sidereal times and zenith right ascension follow their formulae',
 statement='ut2gmst gives Greenwich mean sidereal time from the polynomial at the preceding midnight and the sidereal rate over the time since; ut2gast adds the equation of the equinoxes, ut2last the East longitude in degrees over 15; zenith_site_ra and zenith_site_ra_last give the mean and apparent local sidereal time times 15 as the right ascension of the zenith in degrees for a date in MJD. All hold modulo one turn, for all dates and longitudes.',
 q=Q, why=W, files=['src/zenith_site_ra.c'], mech=[('ut2gmst, ut2gast, ut2last, zenith_site_ra, zenith_site_ra_last','src/zenith_site_ra.c')], technique=T, level_note=N),
dict(id='C42', title='mjdnow prints the current Modified Julian Date',
 statement='mjdnow prints on every run exactly one line with one number with at least six decimals, 40587 plus the seconds since 1970 January 1 (UTC) divided by 86400, and exits with code 0.',
 q=(['inputs'],'all system times'), why='The value depends on the clock; a test cannot fix the clock and would accept integer division or a rounded day fraction.',
 files=['src/mjdnow.c'], mech=[('main','src/mjdnow.c')], technique='static effect analysis of output calls on LLVM IR; ' + T, level_note=N),
]
