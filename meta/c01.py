P = dict(id='C01', title='Every run prints exactly one complete, well-formed JSON document',
 statement='Whatever the options, satellite file contents and failures, everything sat_skymap and sat_visibility write to standard output is, apart from the plain-text help of -h and of an unusable invocation, one JSON object that is complete when the program ends: every object, array and string that is opened is closed, members and elements are separated by single commas, and nothing follows the closing brace. This includes runs that end early on an unreadable file, a bad element line, a filter that rejects a satellite or a pass, or an empty result list.',
 q=(['inputs','fault_sequences'],'all option combinations, element file contents, early exits, per-satellite and per-time-step output decisions, and numbers of records including zero'),
 why='Which closing text is printed depends on the combination of options, how many satellites or passes were printed, and where the run stopped; the tests never run these programs.',
 files=['src/sat_skymap.c','src/sat_visibility.c'],
 mech=[('open/close JSON printing helpers','src/sat_skymap.c open_json/close_stat_json/Print_*'),('TLE scan loop record printing','src/sat_skymap.c main'),('pass event printing','src/sat_visibility.c main')],
 technique='static path-sensitive dataflow: JSON push-down automaton over all output calls of the flattened program',
 level_note='All paths of the current IR are covered with path facts kept for the print decisions; %s text is assumed not to need escaping and numbers to be finite (stated as assumptions).')
