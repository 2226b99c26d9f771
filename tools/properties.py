"""The properties (source of properties.jsonl)."""

PROPS = []
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, qtext, why, files, mech, observe,
         state=()):
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files.split(),
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'observe_at': list(observe), 'hook_needed': None}})


prop('P01', 'A saved feed loads back as the same feed',
     'Whatever a schedule holds, whether it was loaded from files, built '
     'through the editing interface or edited afterwards, the archive that '
     'saving it produces contains exactly that data, and a fresh process '
     'loading the archive gets a schedule with the same data (including '
     'unknown columns, zero values, empty values and non-ASCII text) and no '
     'error that the schedule did not deserve. This keeps holding over any '
     'history of edits, saves and process restarts.',
     'histories inputs schedules',
     'every generated feed, every history of edits, saves (to a path or a '
     'stream) and restarts, every hash-table order at saving time',
     'The tests save a handful of fixed schedules once; they never follow a '
     'save with further edits and a restart, nor cross column sets, zero and '
     'empty values and insertion orders.',
     'transitfeed/schedule.py transitfeed/loader.py transitfeed/stoptime.py '
     'transitfeed/trip.py transitfeed/util.py transitfeed/serviceperiod.py',
     [('feed writer', 'transitfeed/schedule.py WriteGoogleTransitFeed'),
      ('row writers', 'GetFieldValuesTuple of each object class'),
      ('loader', 'transitfeed/loader.py Load')],
     ['bytes of the saved archive read with an independent reader',
      'the schedule loaded by a fresh process'],
     [('stop_times, table columns', 'what is kept of each stop time and which '
       'columns are written', 'transitfeed/schedule.py')])

prop('P02', 'A failing or interrupted save never passes for a good feed',
     'When saving a schedule is interrupted at any point (crash, disk error, '
     'full disk, torn write, database error, a value that cannot be written), '
     'what is found at the target afterwards is the previous file, nothing, '
     'something a loader reports errors for, or the complete new feed, and '
     'never a readable part of it. A save that returns normally has stored '
     'the complete feed, a failing one raises, and the schedule in memory is '
     'unchanged so that saving again works.',
     'crash_points fault_sequences schedules',
     'every generated schedule, every position of every write, flush, close, '
     'open and database statement of the save, with every fault kind',
     'No test injects a single I/O error or crash; the quantifier is over the '
     'position of the fault within the save.',
     'transitfeed/schedule.py',
     [('feed writer', 'transitfeed/schedule.py WriteGoogleTransitFeed')],
     ['the bytes at the target path after the fault',
      'a fresh load of those bytes', 'the schedule after the failure'])

prop('P03', 'Packaging, order and hashing do not change what a feed means',
     'The same tables give the same schedule and the same problem reports '
     'however they are stored: archive or directory, compression, member '
     'order, column order, line ends, quoting, byte order marks, directory '
     'listing order, memory or disk database. Nor do they depend on the '
     'order in which hash tables and memory addresses hand out objects, and '
     'up to row numbers not on the order of rows.',
     'schedules configurations inputs',
     'every generated feed with every combination of defects, every pair of '
     'storage variants, every hash order and object address order',
     'Tests load each fixture in one form, and hash and address order are '
     'whatever the interpreter happened to have.',
     'transitfeed/loader.py transitfeed/schedule.py transitfeed/util.py '
     'transitfeed/problems.py transitfeed/serviceperiod.py',
     [('CSV decoding', 'transitfeed/loader.py _ReadCsvDict, _ReadCSV'),
      ('validation over dictionaries', 'transitfeed/schedule.py Validate*')],
     ['the schedule after loading', 'the multiset of problem reports'],
     [('row context', 'file, row and cells attached to a report',
       'transitfeed/problems.py SetFileContext')])

prop('P04', 'A damaged feed always ends in a report, never in a failure',
     'Whatever bytes are stored as a feed (flipped, torn, truncated, '
     'duplicated, misencoded or rearranged data, damaged archives, odd '
     'values in any cell), loading and validating it ends normally with a '
     'schedule and with reports that can be shown, and nothing is written. '
     'Tables which are undamaged and depend on no damaged one are all '
     'there.',
     'inputs fault_sequences',
     'every generated feed under every seeded sequence of storage damage, at '
     'the level of bytes, records, cells and archive structure, for every '
     'current date',
     'The tests hold about fifty damaged fixtures; each is one point of a '
     'space in which the position and the combination matter.',
     'transitfeed/loader.py transitfeed/problems.py transitfeed/util.py '
     'transitfeed/schedule.py transitfeed/stop.py transitfeed/trip.py '
     'transitfeed/route.py transitfeed/agency.py transitfeed/transfer.py '
     'transitfeed/shape.py transitfeed/serviceperiod.py',
     [('loader', 'transitfeed/loader.py Load'),
      ('validation', 'transitfeed/schedule.py Validate')],
     ['whether an exception leaves the library', 'the reports as text',
      'the objects of undamaged tables'])

prop('P05', 'Storage failing during a load never gives a silently partial feed',
     'When reads, opens, directory listings or database statements fail or '
     'deliver too little or wrong data while a feed is loaded, the caller '
     'either gets an exception, or problem reports, or the complete feed; '
     'never a feed with something missing and nothing reported, and never '
     'data the feed does not hold. Once the faults are over the same feed '
     'loads completely.',
     'fault_sequences crash_points schedules',
     'every generated feed, every position of every read, open, listing and '
     'database statement of the load, with every fault kind',
     'No test makes a read or a database statement fail; the quantifier is '
     'over the position of the fault within the load.',
     'transitfeed/loader.py transitfeed/schedule.py transitfeed/trip.py',
     [('reading members', 'transitfeed/loader.py _FileContents, _HasFile'),
      ('stop time storage', 'transitfeed/trip.py AddStopTimeObject')],
     ['the schedule and the reports after a load with faults',
      'a second load without faults'])

prop('P06', 'Lost, duplicated and dangling records are reported and contained',
     'When records of a feed were lost, stored twice or refer to something '
     'which is not there, every dangling reference and every duplicate '
     'identity is reported with the file, the row, the column and the value '
     'at fault, and nothing else is reported. All records which are not at '
     'fault are in the schedule, of several records with one identity the '
     'first one is, and no record appears which the feed does not hold.',
     'inputs fault_sequences configurations',
     'every generated feed and every sequence of lost, duplicated, swapped '
     'and dangling records and lost tables, loaded into a new or an existing '
     'schedule',
     'Each test damages one record of one table; what must be reported '
     'depends on the cascade through all tables which refer to it.',
     'transitfeed/schedule.py transitfeed/loader.py transitfeed/trip.py '
     'transitfeed/transfer.py transitfeed/shape.py transitfeed/frequency.py '
     'transitfeed/serviceperiod.py',
     [('adding to a schedule', 'transitfeed/schedule.py Add*Object'),
      ('stop time references', 'transitfeed/loader.py _LoadStopTimes'),
      ('reference checks', 'Validate* of trips, stops, transfers')],
     ['the problem reports (class, file, row, column, value)',
      'the objects of the schedule'])

prop('P07', 'A damaged cell is reported at its place and sound values raise no alarm',
     'When a cell of a sound feed is overwritten with a text its column does '
     'not allow, a report names the file, row, column and value with the '
     'severity of that column, and no other row is accused. When the new text '
     'is allowed nothing is reported about it, and records nobody touched are '
     'loaded unchanged.',
     'inputs configurations',
     'every generated feed, every column, every replacement text of a pool '
     'of near misses, several at once, with shifted row numbers, both '
     'packagings, line ends, stop time stores and hash orders',
     'The tests overwrite single cells of one fixed feed with a handful of '
     'texts; whether a report is there and nothing else is depends on all '
     'checks together.',
     'transitfeed/stop.py transitfeed/route.py transitfeed/trip.py '
     'transitfeed/stoptime.py transitfeed/serviceperiod.py transitfeed/shape.py '
     'transitfeed/shapepoint.py transitfeed/fareattribute.py '
     'transitfeed/transfer.py transitfeed/frequency.py transitfeed/agency.py '
     'transitfeed/feedinfo.py transitfeed/util.py',
     [('cell validation', 'Validate* and ParseAttributes of every object'),
      ('value syntax', 'transitfeed/util.py')],
     ['the problem reports (class, severity, file, row, column, value)',
      'the objects of the schedule'])

prop('P08', 'A service runs exactly on the days its calendar says',
     'At every point of any history of calendar edits, saves and restarts, '
     'the answers about which services run on a day, which days a service '
     'runs, the date range of a service or a feed, and how many trips and '
     'departures a day has, agree with the rule: an exception for the day '
     'decides, otherwise the day lies in the date range and its day of week '
     'is served.',
     'histories inputs crash_points',
     'every history of edits of up to four services with saves and restarts '
     'in between, every window of days, around leap days, year ends, daylight '
     'saving changes and the ends of the supported range',
     'The tests ask about a few days of fixed calendars; edits in other '
     'orders, restarts and hash orders are not covered.',
     'transitfeed/serviceperiod.py transitfeed/schedule.py '
     'transitfeed/loader.py transitfeed/trip.py',
     [('the calendar rule', 'transitfeed/serviceperiod.py IsActiveOn, '
       'ActiveDates, GetDateRange'),
      ('queries over a schedule', 'transitfeed/schedule.py '
       'GetServicePeriodsActiveEachDate, GenerateDateTripsDeparturesList')],
     ['answers of the calendar queries', 'the calendars after a restart'])

prop('P09', 'Reports about service dates are right for the day of validation',
     'Whenever a feed is validated, the reports about expiry within sixty '
     'days, service only in the future, long stretches without service and '
     'missing exceptions are exactly those the calendar justifies for the '
     'local day at that instant, with the right dates, counts and wording. '
     'Validating again at another instant changes nothing else in the report.',
     'histories schedules inputs',
     'every generated calendar, every sequence of instants of a clock which '
     'advances, jumps back, crosses midnight and daylight saving changes in '
     'any zone, every gap length, with the day given or read from the clock',
     'The tests validate fixed feeds on a few fixed days; the property '
     'quantifies over the position of the clock relative to the calendar.',
     'transitfeed/schedule.py transitfeed/problems.py transitfeed/feedinfo.py',
     [('date checks', 'transitfeed/schedule.py '
       'ValidateServiceRangeAndExceptions, ValidateServiceGaps, '
       'ValidateFeedStartAndExpirationDates'),
      ('wording', 'transitfeed/problems.py ExpirationDate')],
     ['the problem reports of each validation'])

prop('P10', 'The stop times of a trip are exactly what was added to it',
     'After any history of adding, replacing and clearing the stop times of '
     'any trips, the stop times, times, pattern and count of each trip, the '
     'trips and positions of each stop, and the grouping of trips by pattern '
     'agree with a plain list per trip, also after a save and restart and '
     'with either kind of store. An edit which fails because the store fails '
     'changes nothing, and later edits are not affected.',
     'histories fault_sequences',
     'every history of edits and queries over up to six trips and five stops, '
     'with failing statements of the underlying database at any point',
     'The tests look at single edits of small schedules with a working '
     'store; interleavings of edits, caches and failures are not covered.',
     'transitfeed/trip.py transitfeed/stop.py transitfeed/stoptime.py '
     'transitfeed/route.py transitfeed/schedule.py transitfeed/loader.py',
     [('edits and queries', 'transitfeed/trip.py AddStopTime, '
       'AddStopTimeObject, ReplaceStopTimeObject, ClearStopTimes, '
       'GetStopTimes'),
      ('views from stops and routes', 'transitfeed/stop.py GetTrips; '
       'transitfeed/route.py GetPatternIdTripDict')],
     ['stop times of a trip', 'trips of a stop', 'trips by pattern',
      'the saved feed'])

prop('P11', 'Runs, guessed times and end times of trips are right',
     'At every point of any history of edits and restarts, a trip with '
     'frequencies starts exactly at the times its periods contain, in order, '
     'each run repeating the stop times of the trip; a stop without a time '
     'gets a time between its timepoints in proportion to distance, never '
     'going backwards; and the first and last time of a trip are those of its '
     'first and last stop. A frequency which makes no sense is reported and '
     'not added, and no geometry of stops makes a question about times fail.',
     'histories inputs fault_sequences',
     'every set of trips with frequencies and untimed stops, positions which '
     'coincide, are far apart, at the origin or unknown, and every history of '
     'edits, restarts and failing statements',
     'The tests use a few frequencies and one interpolated trip; periods in '
     'other orders, coinciding stops and edits in between are not covered.',
     'transitfeed/trip.py transitfeed/frequency.py transitfeed/stop.py '
     'transitfeed/util.py',
     [('runs', 'transitfeed/trip.py GetFrequencyStartTimes, '
       'GetFrequencyStopTimes, AddFrequency'),
      ('guessed times', 'transitfeed/trip.py GetTimeInterpolatedStops; '
       'transitfeed/stop.py GetStopTimeTrips')],
     ['start times of runs', 'stop times of runs', 'interpolated times',
      'problem reports about frequencies'])

prop('P12', 'Every conflict in a timetable is reported, and nothing else',
     'Each validation reports exactly the conflicts present: pairs of trips '
     'of one block which overlap on a common day, trips going back in time or '
     'too fast, too many stops at one time, overlapping frequencies, repeated '
     'sequence numbers, distances which do not grow, trips without stops or '
     'end times, repeated trips, shared stops of subway and bus, and routes '
     'with the same names. Editing and validating again, or saving and '
     'loading in another order, changes the report only as far as the '
     'timetable changed.',
     'histories inputs',
     'every timetable of up to a dozen trips on several calendars, every '
     'sequence of edits, validations and restarts, and every hash order',
     'The tests hold one conflict of each kind; a sweep over pairs with an '
     'early exit, caches by service pair and running state per trip need '
     'combinations of trips to go wrong.',
     'transitfeed/schedule.py transitfeed/trip.py transitfeed/problems.py '
     'transitfeed/util.py',
     [('conflicts between trips', 'transitfeed/schedule.py ValidateTrips, '
       'ValidateBlocks, ValidateStopTimesForTrip, ValidateRouteNames'),
      ('conflicts within a trip', 'transitfeed/trip.py ValidateChildren')],
     ['the problem reports of each validation'])

prop('P13', 'The validator program says exactly what the validation found',
     'Run as a program with any options, the validator exits with 0 exactly '
     'if there is no error or warning outside the ignored classes, with 1 if '
     'there is, and with 2 if the report can not be written or an extension '
     'is missing; it never crashes on a feed. The console lists every '
     'problem; the page has the true counts, one section per class with the '
     'most significant problems up to the limit and the number left out, and '
     'every value of the feed shows as it is, whatever characters it has. A '
     'report which was not written completely is not opened and not called '
     'a success.',
     'inputs configurations fault_sequences',
     'every feed with defects, every combination of options, any name of the '
     'feed, any clock, an ASCII or binary terminal, a network which answers '
     'or not, and every point at which writing the report fails',
     'The tests run the program on fixed feeds and look for a few phrases; '
     'counts beyond limits, values which need escaping and failures of the '
     'disk are not covered.',
     'feedvalidator.py transitfeed/problems.py transitfeed/util.py',
     [('verdict', 'feedvalidator.py RunValidation, '
       'RunValidationOutputToFilename, accumulators'),
      ('page', 'feedvalidator.py HTMLCountingProblemAccumulator')],
     ['exit status', 'console output', 'HTML page', 'opened browser pages'])

prop('P14', 'A program which says it succeeded did succeed',
     'Whenever the disk, the database, the network, the terminal or the '
     'keyboard fails at any moment while one of the command line programs '
     'runs, exit status 0 still means that its output files are complete and '
     'the same as without the fault; everything unforeseen ends in exit '
     'status 127 with a crash report on disk and on the terminal as far as '
     'these still work; and no file which is not an output of the program is '
     'changed, nor an archive left which looks valid but lacks something.',
     'fault_sequences inputs configurations',
     'every program (validator, merger, KML writer, KML parser, trip filter, '
     'translation upgrade), its options and inputs, with one or two faults at '
     'any system call or SQL statement',
     'The tests run the programs on a working system only; one test raises '
     'an exception on purpose to see the crash handler.',
     'transitfeed/util.py feedvalidator.py merge.py kmlwriter.py kmlparser.py '
     'unusual_trip_filter.py upgrade_translations.py transitfeed/schedule.py',
     [('crash handler', 'transitfeed/util.py RunWithCrashHandler'),
      ('programs', 'main() of each program'),
      ('saving', 'transitfeed/schedule.py WriteGoogleTransitFeed')],
     ['exit status', 'output files', 'crash report', 'all other files'])

prop('P15', 'The check for new versions is harmless and right',
     'Whatever the network does while a program looks for a newer version - '
     'not there, refusing, stalling, breaking off half way, answering with '
     'errors or junk - the program carries on with at most one notice; a '
     'newer version is announced exactly if the version found, compared '
     'number by number, is greater than the running one, and the wait is '
     'bounded.',
     'fault_sequences inputs',
     'every history of several checks in one process with every kind of '
     'failure before or while reading, every page and every version given by '
     'hand',
     'The tests replace the network by one URL error, one HTTP error and '
     'three pages.',
     'transitfeed/util.py',
     [('check', 'transitfeed/util.py CheckVersion, _MaxVersion')],
     ['problem reports', 'requests made', 'time limit'])

prop('P16', 'Merging two feeds loses and mixes up nothing',
     'The merged feed holds exactly the agencies, stops, routes, service '
     'days, trips, stop times, frequencies, shapes, fares, fare rules and '
     'transfers of the two feeds, with every reference pointing to what it '
     'pointed to before and what is the same in both feeds held once, as the '
     'newer feed has it. No two different things share an id or fare zone, '
     'the merged feed loads without errors, and the feeds merged stay as they '
     'were. This also holds when a merged feed is merged again.',
     'inputs histories configurations',
     'every pair of feeds (edited copies, unrelated feeds with the same ids, '
     'ids from an earlier merge), every limit of distance, and merges one '
     'after the other',
     'The tests merge a few objects per kind made by hand, and one pair of '
     'feeds of which they compare nothing but the exit status.',
     'merge.py',
     [('merging', 'merge.py FeedMerger.MergeSchedules'),
      ('copying', 'merge.py _Migrate of each DataSetMerger'),
      ('ids', 'merge.py FeedMerger.GenerateId')],
     ['merged feed on disk', 'old-to-new maps', 'reload', 'input schedules'])

prop('P17', 'Merging recognises what is the same in both feeds, and says so',
     'Things with the same id in both feeds become one exactly if the '
     'documented attributes agree and their distance is within the limit; '
     'otherwise both stay, each with an id new to both feeds, and everything '
     'else keeps its id. Every pair with the same id which was kept apart is '
     'reported, nothing else is, and the statistics count exactly what was '
     'merged and copied.',
     'inputs configurations',
     'every pair of feeds, including stops and shape ends just within and '
     'just beyond the limit, names differing in case, attributes missing in '
     'one feed',
     'The tests try one attribute of one object at a time.',
     'merge.py',
     [('rules', 'merge.py _MergeEntities of each DataSetMerger'),
      ('pairs', 'merge.py DataSetMerger._MergeSameId'),
      ('statistics', 'merge.py DataSetMerger.GetMergeStats')],
     ['old-to-new maps', 'problem reports', 'statistics'])

prop('P18', 'The merge program does all or nothing and reports the truth',
     'The program writes the merged archive, the same as the library would '
     'make, only if both feeds load without errors and may be merged; '
     'otherwise no file is touched apart from the results page, and the exit '
     'status or the page says why. The results page names exactly the files, '
     'counts, messages and statistics of the merge, as valid HTML whatever '
     'the feeds contain.',
     'inputs configurations',
     'every pair of feeds, sound or damaged, overlapping or not, options, '
     'file names, and a merged archive which exists already or is one of the '
     'inputs',
     'The tests run the program on one pair of feeds and look at the exit '
     'status and whether the files exist.',
     'merge.py',
     [('program', 'merge.py main'),
      ('page', 'merge.py HTMLProblemAccumulator.WriteOutput'),
      ('loading', 'merge.py LoadWithoutErrors')],
     ['exit status', 'merged archive', 'results page', 'other files'])

prop('P19', 'Trips keep their days across a merge and a cutoff date',
     'With a cutoff date the old trips run on exactly their days before it '
     'and the new ones on exactly their days from it on, and the merge is '
     'never refused; without one every trip keeps exactly its days, feeds '
     'with a day of service in common are refused with an error, and feeds '
     'whose dates do not touch are merged.',
     'inputs configurations',
     'every pair of calendars with weekdays, added and removed days, services '
     'of dates alone, before, across and after every cutoff date',
     'The tests truncate two service periods around one date.',
     'merge.py',
     [('cutoff', 'merge.py ServicePeriodMerger.DisjoinCalendars'),
      ('check', 'merge.py ServicePeriodMerger.CheckDisjointCalendars')],
     ['days of each trip in the merged feed', 'refusals', 'schedules'])

prop('P20', 'The schedule viewer shows what the feed says',
     'Every page and query of the viewer gives exactly what the loaded feed '
     'implies: the routes and their patterns with sample trips of the asked '
     'date and time, rows, stop times and shapes of trips, the nearest stops, '
     'the stops of an area, stops by name, the next trips at a stop and a '
     'well-formed timetable graph with each trip of the pattern. Answers '
     'are complete, state their length, and do not depend on how the request '
     'was delivered or on earlier requests; asking changes nothing.',
     'inputs histories schedules',
     'every error-free feed (stops scattered, at one place, at high latitude '
     'or across the date line, ids and names with any text), every sequence '
     'of queries, every fragmentation of the requests, interruptions between '
     'them, every hash-table order',
     'No test starts the viewer or calls a single one of its handlers.',
     'schedule_viewer.py gtfsscheduleviewer/marey_graph.py '
     'transitfeed/schedule.py transitfeed/stop.py transitfeed/trip.py '
     'transitfeed/route.py',
     [('handlers', 'schedule_viewer.py ScheduleRequestHandler'),
      ('graph', 'gtfsscheduleviewer/marey_graph.py MareyGraph'),
      ('spatial queries', 'transitfeed/schedule.py GetNearestStops, '
       'GetStopsInBoundingBox')],
     ['bytes of the HTTP answers', 'the schedule before and after'])

prop('P21', 'The viewer survives any client and leaks nothing',
     'Whatever requests arrive, sound, senseless or malformed, on connections '
     'which are cut or reset anywhere, with disk errors under the static '
     'files, the server keeps serving: every complete GET gets one complete '
     'answer, questions about unknown things or with senseless parameters are '
     'refused with a 4xx status, and sound questions are answered as ever. '
     'No file outside the static directory is ever sent and the schedule '
     'never changes.',
     'fault_sequences histories inputs',
     'every history of requests and connection faults (reset, early end, '
     'broken pipe at any byte, failing accept, interrupted wait) and disk '
     'faults',
     'No test starts the server; connection faults cannot be produced by '
     'calling handlers.',
     'schedule_viewer.py',
     [('server', 'schedule_viewer.py StoppableHTTPServer'),
      ('dispatch', 'schedule_viewer.py ScheduleRequestHandler.do_GET'),
      ('static files', 'schedule_viewer.py OpenFile')],
     ['bytes of the HTTP answers', 'exit status of the server', 'files read'])

prop('P22', 'The location editor makes and saves exactly the moves asked for',
     'A request to move a stop moves that stop to that place and nothing '
     'else; a request which names no stop or no place on Earth is refused and '
     'changes nothing. An answer that the data was saved means the file holds '
     'the feed with exactly the moves made so far, and a restarted editor '
     'shows them; a failed save is never announced as done and a later save '
     'stores everything.',
     'histories fault_sequences inputs',
     'every history of moves, refused moves, questions, saves and restarts, '
     'with connection faults and disk faults during saves',
     'No test exists for the location editor.',
     'location_editor.py schedule_viewer.py transitfeed/schedule.py',
     [('moves', 'location_editor.py handle_json_GET_setstoplocation'),
      ('saving', 'location_editor.py handle_json_GET_savedata')],
     ['saved archive', 'schedule of the server', 'HTTP answers after a '
      'restart'])

prop('P23', 'The KML export draws the whole feed, each thing once, in place',
     'The exported drawing holds every stop, route, pattern, shape and (when '
     'asked for, on the days asked for) trip of the feed exactly once, under '
     'its name, at its coordinates and with a style that is defined, and is '
     'well-formed whatever the feed\'s texts contain. The same feed gives the '
     'same bytes whatever the hash order, and success is only reported when '
     'the file is complete: after a disk fault or a crash a further run draws '
     'everything.',
     'inputs fault_sequences schedules',
     'every feed, set of options, hash order of the schedule and fault or '
     'crash while writing',
     'The tests look at a few elements of hand-made schedules, never at files '
     'written under faults or at another hash order.',
     'kmlwriter.py',
     [('drawing', 'kmlwriter.py KMLWriter.Write'),
      ('program', 'kmlwriter.py main')],
     ['bytes of the KML file', 'exit status'])

prop('P24', 'The KML import keeps every point and every line of the document',
     'Every placemark with one point becomes exactly one stop of that name at '
     'that place, and every line becomes a shape with the same points in the '
     'same order under its name or, when another line has that name, a name '
     'derived from it, however the document writes names and coordinates. '
     'Success is only reported when the archive holds all of it; an unreadable '
     'document leaves the old archive alone.',
     'inputs fault_sequences crash_points',
     'every document and every disk fault or crash while reading or writing',
     'The tests parse one or two hand-made documents with plain names.',
     'kmlparser.py',
     [('import', 'kmlparser.py KmlParser.ParseDom'),
      ('names and coordinates', 'kmlparser.py KmlParser.ExtractText'),
      ('shape names', 'kmlparser.py KmlParser.ConvertPlacemarkToShape')],
     ['stops.txt and shapes.txt of the archive', 'exit status'])

prop('P25', 'The unusual trip filter marks the rare stop sequences and no more',
     'After a run, exactly those trips of the selected routes whose sequence '
     'of stops is used by a smaller share of the trips of their route than the '
     'threshold are marked special; every other trip keeps its mark, or with '
     'the force option is marked regular. Nothing else in the feed changes, '
     'options without a meaning are refused, and a failed run is never '
     'reported as done.',
     'histories inputs fault_sequences',
     'every feed, sequence of runs with different options, hash order and disk '
     'fault or crash',
     'The tests run the filter object on one prepared feed and never the '
     'program, nor a second run on its own output.',
     'unusual_trip_filter.py transitfeed/route.py transitfeed/trip.py',
     [('marking', 'unusual_trip_filter.py UnusualTripFilter.filter_line'),
      ('program', 'unusual_trip_filter.py main'),
      ('stop sequences', 'transitfeed/route.py GetPatternIdTripDict')],
     ['the archive after each run', 'exit status'])

prop('P26', 'Upgrading translations changes no text in any language',
     'In the upgraded feed every text reads, in the feed language and in every '
     'other language, as the old translations said, whatever ways of writing '
     'the tables use (byte order mark, line ends, quoting, short and long '
     'rows), and all other data is unchanged. The source directory is never '
     'touched, and a run which could not finish does not claim success.',
     'inputs fault_sequences crash_points',
     'every feed with translations, every way of writing its files, every '
     'choice of directories and every disk fault',
     'The tests convert one prepared feed on a sound disk.',
     'upgrade_translations.py',
     [('conversion', 'upgrade_translations.py TableTranslator'),
      ('reading', 'upgrade_translations.py OldTranslations'),
      ('program', 'upgrade_translations.py main')],
     ['files of the upgraded feed', 'files of the source', 'exit status'])

prop('P27', 'The Google Transit extension judges exactly the extended columns',
     'With the extension, language codes, extended route and vehicle types, '
     'entrances, emission values and fare agencies are each reported exactly '
     'when they break the published rule, once per row; everything outside '
     'those columns is reported and loaded exactly as without the extension. '
     'Extended values survive saving and loading again, and the extension '
     'validator fails on a feed with any such problem.',
     'inputs fault_sequences',
     'every feed using any combination of extended columns, every feed not '
     'using them, and read faults while they are judged',
     'The tests check single values on single objects; how columns combine, '
     'survive a save and leave the base rules alone is left open.',
     'extensions/googletransit/stop.py',
     [('stops and entrances', 'extensions/googletransit/stop.py'),
      ('fares', 'extensions/googletransit/fareattribute.py'),
      ('languages', 'extensions/googletransit/pybcp47/bcp47languageparser.py'),
      ('program', 'feedvalidator_googletransit.py main')],
     ['reported problems with file, row, column and value',
      'saved feed files', 'exit status'])

prop('P28', 'Every problem of place is reported, and nothing else',
     'Each validation reports exactly the places at fault: stops nobody '
     'serves, stations used as stops, parents which are missing, no station '
     'or too far away, stops and stations on top of each other, transfers too '
     'long or too fast to walk, stops too far from their place on the shape, '
     'shapes nobody uses, and agencies in several time zones, wherever on '
     'earth they lie. Rebuilding the network and validating again, or saving '
     'and loading in another order, changes the report only as far as the '
     'network changed.',
     'histories inputs',
     'every network of up to nine places around several regions (equator, '
     'meridian, date line, poles, origin), every sequence of edits, '
     'validations and restarts, and every hash order',
     'The tests hold one pair of stops per kind of report; sweeps over sorted '
     'places, zero coordinates and edits between validations are left open.',
     'transitfeed/schedule.py transitfeed/transfer.py transitfeed/trip.py',
     [('stops and stations', 'transitfeed/schedule.py Schedule.ValidateStops'),
      ('pairs', 'transitfeed/schedule.py Schedule.ValidateNearbyStops'),
      ('transfers', 'transitfeed/transfer.py Transfer.ValidateAfterAdd'),
      ('shapes', 'transitfeed/trip.py Trip.ValidateDistanceFromStopToShape')],
     ['reported problems with their ids and distances'])


prop('P29', 'Trips get the line or shortest chain of lines that runs by their stops',
     'Given lines and a feed, each stop pattern gets the line which starts '
     'and ends by its first and last stop and follows its stops most closely, '
     'or else the shortest chain of whole lines joined end to end by way of '
     'its stops, or keeps what it had, in whatever order lines and files are '
     'visited. No line is lost to another of the same name unless it runs '
     'along it, and nothing but the shapes of trips changes in the feed. A '
     'failed or crashed import leaves its input as it was and can be repeated.',
     'inputs schedules fault_sequences crash_points',
     'every network of lines and feed, every hash order of its nodes and '
     'edges, every read or write fault or crash of the import',
     'The tests hold one small graph in the hash order of one interpreter; '
     'queues that keep stale distances and names that collide show on other '
     'graphs only.',
     'transitfeed/shapelib.py shape_importer.py',
     [('shortest path', 'transitfeed/shapelib.py PolyGraph.ShortestPath'),
      ('chains', 'transitfeed/shapelib.py PolyGraph.FindShortestMultiPointPath'),
      ('matching', 'transitfeed/shapelib.py Poly.GreedyPolyMatchDist'),
      ('names', 'transitfeed/shapelib.py PolyCollection.AddPoly'),
      ('the program', 'shape_importer.py main')],
     ['saved feed: shapes and their use by trips', 'paths returned'])


prop('P30', 'The pathway picture draws each chosen place and pathway once, rightly',
     'For any stops and pathways the picture is one the drawing program '
     'reads, with every chosen station, its places nested as in the feed, '
     'each named, coloured and labelled after its own record, and exactly the '
     'pathways between them with their directions and texts, whatever '
     'characters names hold and in whatever order tables are visited. Only '
     'the picture is written; a failed or crashed run claims none and can be '
     'repeated.',
     'inputs schedules fault_sequences crash_points',
     'every set of stations, identifiers, texts and file dialects, every '
     'hash order, every read or write fault or crash',
     'The one test compares one feed with one stored picture.',
     'visualize_pathways.py',
     [('choice', 'visualize_pathways.py choose_location_ids'),
      ('picture', 'visualize_pathways.py gtfs_to_graphviz'),
      ('names', 'visualize_pathways.py escape_graphviz_id')],
     ['the picture file, parsed'])


prop('P31', 'Records at odds with themselves or each other are reported, only they',
     'Every load and validation names, with file and row where there is one, '
     'exactly the records which contradict themselves or one another: route '
     'names, descriptions and colours, stop names, places, parents and time '
     'zones, calendar and feed date ranges, stop times with one time or times '
     'in the wrong order, languages and agency ids. Nothing consistent is '
     'reported, after any edits, saves and reloads.',
     'inputs histories schedules',
     'every combination of records, every history of edits, saves and '
     'reloads, every row and hash order',
     'Tests try each rule once on one record with one value.',
     'transitfeed/route.py',
     [('routes', 'transitfeed/route.py Route.ValidateBeforeAdd'),
      ('stops', 'transitfeed/stop.py Stop.ValidateBeforeAdd'),
      ('stop times', 'transitfeed/stoptime.py StopTime.__init__'),
      ('dates', 'transitfeed/serviceperiod.py ServicePeriod.Validate'),
      ('languages', 'transitfeed/schedule.py '
       'Schedule.ValidateFeedInfoLangMatchesAgencyLang')],
     ['problem reports of load and validation'])


prop('P32', 'Whatever was loaded can be saved, and stays as it is from then on',
     'However damaged a feed was, and whatever was reported about it, the '
     'schedule it gave can be saved; the saved copy is well formed and loads '
     'to the same data, and saving that again changes nothing.',
     'inputs histories schedules',
     'every feed and every damage to its files, every hash order, two '
     'generations of copies',
     'No test saves a feed which was loaded with reports.',
     'transitfeed/schedule.py',
     [('save', 'transitfeed/schedule.py Schedule.WriteGoogleTransitFeed'),
      ('stop times', 'transitfeed/trip.py Trip.GetStopTimes'),
      ('load', 'transitfeed/loader.py Loader.Load')],
     ['saved feeds and what they load to'])
