T = 'static value-numbering: the option loop of main specialised to each option letter (LLVM IR of the flattened program), its effect on every setting, on the argument position and on program exit decided equal to a table by random interpretation; help text and README parsed and compared with the table'
N = 'Complete over all argument vectors by one pass of the option loop per letter; C library parsing functions (sscanf, atof, strtol) are opaque; equality is Monte-Carlo with negligible error probability.'
Q = (['inputs', 'configurations'], 'all command lines')
F = ['src/sat_skymap.c', 'src/sat_visibility.c', 'README.md']


def p(id, title, statement, why, mech, **k):
    return dict(dict(id=id, title=title, statement=statement, q=Q, why=why, files=F, mech=[(m, 'src/sat_skymap.c and sat_visibility.c main') for m in mech], technique=T, level_note=N), **k)


P = [
p('C12', 'Every command-line option does what the help text and README say',
  'In both programs each documented option letter, with its value attached or in the next argument, sets exactly its documented setting, and settings not given keep the documented default: -l latitude, longitude (+360 when negative), altitude; -a the two altitudes in increasing order; -r radius (20; sat_visibility 90); -t whole seconds (1; 3); -s number; -i designator (11 characters); -D directory; -p, -n (1000) and -S (23 characters) in sat_skymap; -d dates and -j MJDs, the date winning over an MJD given after it (sat_skymap 2020-01-13T12:00:00, MJD 58861.5). E, G, H, I, T, V (sat_skymap) and N, T (sat_visibility) are switches that take no value; -E and -a also imply -G, and -s and -i cancel an -a or -p given before them in sat_skymap. Other letters, missing values, latitudes and declinations outside +-90, right ascensions outside 0 to 360, time steps below 1 s, and unreadable dates or MJDs end the program; arguments that are not options change no setting.',
  'There are some twenty letters with interactions in any order; a setting silently ignored or confused with another gives a plausible but wrong result. No existing test runs the programs.',
  ['main: option loop (switch on argv[iarg][1])', 'Usage()']),
]

TJ = 'static abstract interpretation of the JSON output over the flattened program (LLVM IR): all member names, literal texts, array sizes and conversions at each position, compared with a table; path conditions decided by random interpretation'
NJ = 'Complete over all paths of both programs; the field widths of printf are not considered.'
P += [
p('C13', 'Field descriptions match the data that are printed',
  'In sat_skymap the name, desc, type and unit arrays of data_fields each have one entry per value of a "data" array, in the same order: RA_start, Dec_start, RA_end, Dec_end (deg), Distance (km), Separation, PA (deg), Speed (arcmin/s), sunlit, HPXID_8. In sat_visibility the desc, type and unit arrays of sat_fields have one entry for each of the ten members of every event (Date, MJD, ra, dec, az, alt, Distance, Separation, PA, Speed), with those units. Values described as int are printed as integers, floating-point ones with at least 4 decimals (MJD 5, Distance 2, Speed 3, PA 0). data_fields, sat_fields and geoloc_fields (deg, deg, km, deg) are printed whenever the data they describe are.',
  'Clients read the values by position using these arrays; a shifted or missing entry mislabels every value after it. No existing test runs the programs.',
  ['add_fieldsdesc_json, add_geofieldsdesc_json', 'data printf'], technique=TJ, level_note=NJ),
p('C44', 'Name, designator and catalogue number are those of the element set used',
  'The norad_n printed with a satellite is the decoded catalogue number of its element set. Its intl_desig is the launch year in full (19 when the designator as a number exceeds 57000, else 20), a hyphen and the launch number and piece of its element set, without trailing blanks, or "none" when the element set has none, whether or not -s or -i is given. Its name is the beginning (23 characters, without trailing blanks) of the last line of the same file before the element set that does not start with "1 " or "2 ", or of the first line of the file.',
  'Names and designators live in buffers carried from line to line through the scan; a stale buffer reports one satellite under the name of another. No existing test runs the programs.',
  ['element set scan: sat_name, intl_desig'],
  technique='static value-numbering: printed texts and the name buffer carried by the scan loop as gated expressions (LLVM IR), proved by induction over one pass, decided equal by random interpretation'),
p('C45', 'input_params and run_command repeat the settings and arguments used',
  'input_params repeats the site latitude, longitude (4 decimals) and altitude (1), the date and MJD (5 decimals; in sat_visibility both ends of the range), delta_time and, in sat_skymap, max_sats, as set by the options or their defaults, and the input file: the first argument, or the last when the first starts with "-", without its leading "@". run_command is the program name followed by all arguments in order, in every document, also those that report an error.',
  'Clients check results against the echoed request; an echo taken from another variable or before normalisation hides what was computed. No existing test runs the programs.',
  ['add_params_json', 'close_stat_json']),
p('C40', 'The files read are those the arguments, list lines and directory options name',
  'Both programs read the file named by the first argument, or by the last when the first starts with "-": as given when it contains "/", else in the directory of -D, or of -T (/usr/local/TLErepo) without -D, or ".". An argument that begins with "@" names a list in that directory; each of its lines that is neither empty nor a comment (#), without its line end (CR, LF), names an element file in that directory, and they are read in order to the end of the list unless the scan is complete before; a single file is read once. A list or element file that cannot be opened ends the program with exit code 2, an element file whose first line cannot be read with -2.',
  'File names are assembled from options in any order and from lines that may end in CR LF; a skipped or repeated file silently changes the result. No existing test runs the programs.',
  ['file loop: fopen, fgets of the list'],
  technique='static value-numbering: texts handed to fopen as sequences of pieces, conditions of the file loop by induction over one pass (LLVM IR), decided equal by random interpretation',
  level_note='Names and lines are assumed to fit into the buffers for them.'),
p('C43', 'Every line is tried with the one before it; the first set asked for is used',
  'In both programs the first line of an element file and the line after it are given to parse_elements, then every further line together with the line read just before it (after a set that was accepted the earlier line may be either of its two), each line once, up to the end of the file; lines are read whole up to 71 characters. sat_visibility stops at the first element set whose decoded catalogue number equals that of -s or, without -s, whose designator equals that of -i, and goes on with this one; only when no file has such a set it ends with exit code 1.',
  'A scan that loses its place by one line misses satellites silently, depending on the comments and names between them. No existing test runs the programs.',
  ['file loop: fgets of line1 and line2, parse_elements, strcpy(line1, line2)', 'single_sat_found'],
  technique='static value-numbering: texts given to parse_elements followed by induction over a pass of the line loop, conditions for another pass and for the not-found exit in each context (LLVM IR), decided equal by random interpretation',
  level_note='Lines are assumed to fit into the buffers; the case in which the earlier line is the first of an accepted set relies on C18.'),
p('C37', 'Texts stay inside the arrays they are put into and formats fit their values',
  'In the programs and the library no fgets, snprintf, sprintf, strcpy, strcat, strncpy, memcpy, memset or scanf call and no access at a constant place reaches outside the variable, array or structure member it is given, for input lines of any length and any arguments short enough for the name buffers; a text made by strncpy ends inside its array before it is used as a text. The text of accepted catalogue numbers in sat_skymap grows with the memory allocated for it. Every printf and scanf conversion fits the type and size of the argument or object it is given, and there are as many arguments as conversions.',
  'Lines of element and list files are longer or shorter than expected and any number of satellites is reported; a buffer exceeded by one character corrupts another variable without a visible failure. No existing test runs the programs.',
  ['every string and memory function call of src and lib', 'sat_skymap: sbuff'],
  technique='static value-numbering: writes compared with object sizes from debug information, text lengths bounded over all paths, growth of a buffer by induction over a loop pass (LLVM IR)',
  level_note='Accesses at places computed at run time are listed as notes, not decided; allocation failures are not considered.'),
]
