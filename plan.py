"""Per-property search plans."""

REAL_LIB = 'transitfeed library (loader, schedule, problems, util), csv, ' \
           'zipfile, SQLite engine through JDBC'
STUB_WORLD = 'file system, clock, network, stdout (simulated); hash order of ' \
             'schedule dictionaries (simulated)'


def P(quick, thorough, rule, must=(), real=REAL_LIB, stub=STUB_WORLD, **kw):
    d = {'quick_runs': quick, 'thorough_runs': thorough, 'rule': rule,
         'must_reach': list(must), 'real': real, 'stub': stub}
    d.update(kw)
    return d


PLAN = {
    'P01': P(2400, 100000,
             'one evaluation = one seeded history of edits, saves and process '
             'restarts on one generated feed; distinct = distinct event-log '
             'digests among runs with a restart or an edit',
             ['process_restart', 'start_api', 'start_load_zip',
              'start_load_dir']),
    'P02': P(2400, 100000,
             'one evaluation = one save of one generated schedule under one '
             'seeded plan of disk, database and value faults or a crash, then '
             'a fresh load of what is left and a second save; distinct = '
             'distinct event logs and feeds',
             ['save_ok', 'save_error', 'save_crash', 'leftover_rejected',
              'old_feed_intact', 'recovered', 'write_TORN', 'write_CRASH']),
    'P04': P(3200, 200000,
             'one evaluation = one generated feed, one seeded list of storage '
             'damage (bits, bytes, records, archive structure), one load and '
             'validation; distinct = distinct problem reports among damaged '
             'feeds',
             ['reported_FileFormat', 'reported_UnknownFormat',
              'survivors_checked', 'member_is_directory']),
    'P03': P(2400, 100000,
             'one evaluation = one feed (possibly with defects) stored in two '
             'ways and loaded twice under different hash orders; distinct = '
             'distinct (report, variant) pairs',
             ['compared_with_errors', 'variant_rows', 'variant_salt',
              'variant_dir']),
    'P05': P(2400, 120000,
             'one evaluation = one load of one generated feed under one '
             'seeded plan of read, open, listing and database faults, then a '
             'fault-free reload; distinct = distinct event logs and feeds',
             ['reported', 'complete', 'raised', 'recovered', 'read_EIO',
              'read_SHORT', 'read_FLIP']),
    'P06': P(2400, 120000,
             'one evaluation = one problem-free feed, one seeded list of '
             'lost, duplicated or dangling records, one load and validation '
             'compared with a model of identity and references; distinct = '
             'distinct expected reports with their fault lists',
             ['survivors_checked', 'clean_feed', 'reported_DuplicateID',
              'reported_InvalidValue', 'reported_MissingFile',
              'reported_UnusedStop']),
    'P07': P(2400, 120000,
             'one evaluation = one problem-free feed with seeded damage of '
             'cells, loaded and validated, reports compared with an '
             'independent classifier of every column; distinct = distinct '
             '(damaged cells, report) pairs',
             ['sound_value', 'clean_feed', 'reported_InvalidValue',
              'reported_MissingValue', 'reported_DateOutsideValidRange',
              'blank_line']),
    'P08': P(2400, 120000,
             'one evaluation = one seeded history of calendar edits, saves, '
             'restarts and hash orders with queries compared with a calendar '
             'model after every step; distinct = distinct histories',
             ['active_day', 'exceptions', 'window', 'schedule_range',
              'restart']),
    'P09': P(2400, 120000,
             'one evaluation = one feed validated at 2 to 8 instants of a '
             'simulated clock which advances, jumps back and changes offset, '
             'reports compared with a calendar model; distinct = distinct '
             '(calendar, instants) pairs',
             ['reported_ExpirationDate', 'reported_FutureService',
              'reported_NoServiceExceptions', 'text_expired', 'text_soon',
              'reported_TooManyDaysWithoutService', 'reported_OtherProblem',
              'quiet_day', 'given_day', 'validated_by_loader']),
    'P10': P(2400, 120000,
             'one evaluation = one seeded history of stop time edits, views, '
             'saves and restarts over the SQL store with failing statements, '
             'compared with a list model after every step; distinct = '
             'distinct (history, faults) pairs',
             ['added', 'replaced', 'cleared', 'viewed', 'stop_used',
              'patterns', 'restart', 'recovered', 'db_error_raised',
              'missing_noticed', 'out_of_order']),
    'P11': P(2400, 120000,
             'one evaluation = one set of trips with frequencies and untimed '
             'stops under one seeded history of edits, restarts and failing '
             'statements, answers compared with a model after every step; '
             'distinct = distinct (trips, history, faults)',
             ['runs', 'expanded', 'guessed', 'no_guess', 'visit', 'restart',
              'frequency_added', 'frequency_refused', 'db_error_raised',
              'moved']),
    'P12': P(2400, 120000,
             'one evaluation = one timetable validated, edited, restarted and '
             'validated again, reports compared with a pairwise model of '
             'conflicts; distinct = distinct (expected, reported) sets',
             ['expected_block', 'expected_fast', 'expected_back',
              'expected_still', 'expected_types', 'expected_twin',
              'expected_name', 'expected_freq', 'expected_sequence',
              'expected_first', 'expected_last', 'expected_one',
              'expected_none', 'expected_distance', 'restart']),
    'P13': P(1600, 60000,
             'one evaluation = one feed with defects, one command line, one '
             'disk, clock, terminal and network, the validator program run '
             'from start to exit; distinct = distinct (options, problem '
             'classes, status, faults)',
             ['status_0', 'status_1', 'console', 'page', 'unwritable',
              'no_extension', 'limited', 'significance', 'notice',
              'row_shown', 'summary']),
    'P14': P(1200, 60000,
             'one evaluation = one command line program run twice on the same '
             'files, undisturbed and with seeded faults of disk, database, '
             'network and terminal, outputs compared; distinct = distinct '
             '(program, faults, statuses)',
             ['crash_127', 'crash_report', 'failed_archive', 'validate_0', 'console_0', 'merge_0', 'kml_0',
              'parse_0', 'unusual_0', 'inplace_0', 'upgrade_0']),
    'P15': P(24000, 1500000,
             'one evaluation = one process checking for new versions several '
             'times over a network which fails, stalls, breaks off or answers '
             'anything, notices compared with a model; distinct = distinct '
             '(notices, faults)',
             ['newer', 'silent', 'OtherProblem:failed',
              'OtherProblem:trouble']),
    'P16': P(1500, 200000,
             'one evaluation = two or three feeds merged one after the other '
             'and the merged feed compared with the reference; distinct = '
             'distinct (entities per kind and feed)',
             ['merged', 'merged_stops', 'has_transfers', 'has_fare_rules',
              'has_frequencies', 'has_shapes', 'second_merge']),
    'P17': P(2500, 200000,
             'one evaluation = two feeds merged, and which entities became '
             'one, the ids, messages and statistics compared with the rules; '
             'distinct = distinct (numbers merged and copied, kinds of match)',
             ['renamed', 'same_id:stops:yes', 'same_id:stops:no',
              'same_id:routes:yes', 'same_id:routes:no', 'same_id:agency:yes',
              'same_id:agency:no', 'same_id:shapes:yes', 'same_id:shapes:no',
              'same_id:fare_attributes:yes', 'same_id:fare_attributes:no']),
    'P19': P(2000, 300000,
             'one evaluation = two feeds cut at a date or not, merged if that '
             'is allowed, and the days of every trip compared with a model; '
             'distinct = distinct (decision, cutoff, numbers of days)',
             ['cut_True', 'plain_True', 'plain_False', 'trip_cut',
              'trip_emptied', 'shifted']),
    'P18': P(1200, 150000,
             'one evaluation = one run of the merge program on two feeds, '
             'sound or damaged, its files, exit status and results page '
             'compared with the library; distinct = distinct (outcome, '
             'status, kind of output file, options)',
             ['merged:new', 'merged:old', 'merged:a', 'refused:old',
              'errors:old', 'usage:old', 'warnings']),
    'P20': P(1500, 300000,
             'one evaluation = one life of the viewer process on a scripted '
             'network, every answer compared with a model of the feed; '
             'distinct = distinct (queries, trips, faults)',
             ['home', 'file', 'routes', 'routerow', 'routepatterns',
              'triprows', 'tripstoptimes', 'tripshape', 'neareststops',
              'boundboxstops', 'stopsearch', 'stoptrips', 'ttablegraph',
              'nearest_left_out', 'graph_several', 'stoptrips_n_6',
              'pattern_n_5', 'stoptrips_date']),
    'P21': P(1500, 300000,
             'one evaluation = one life of the viewer under sound and '
             'malformed requests, connection and disk faults; distinct = '
             'distinct (kinds of requests and faults)',
             ['raw_refused_404', 'raw_refused_400', 'raw_any_200',
              'raw_any_404', 'garbage', 'lost', 'maybe_disk',
              'damaged_feed']),
    'P22': P(900, 250000,
             'one evaluation = one to three lives of the location editor on '
             'the same file, answers, saved files and restarts compared with '
             'a model; distinct = distinct (requests, faults)',
             ['moved', 'moved_unheard', 'bad_move', 'saved', 'save_failed',
              'lost_request']),
    'P23': P(1000, 250000,
             'one evaluation = one feed drawn twice, under another hash order '
             'and after disk faults or a crash, both drawings compared with a '
             'model; distinct = distinct (options, sizes, faults)',
             ['api', 'cli', 'show_trips', 'split_routes', 'shape_points',
              'show_stop_hierarchy', 'date_filter', 'altitude_per_sec', 'odd',
              'failed', 'senseless']),
    'P24': P(1500, 300000,
             'one evaluation = one KML document imported under seeded disk '
             'faults or a crash, the archive compared with the document; '
             'distinct = distinct (placemarks, faults)',
             ['imported', 'failed', 'recovered', 'unreadable', 'exported',
              'point', 'line', 'name_cdata', 'name_comment', 'coords_cdata',
              'coords_comment']),
    'P25': P(800, 200000,
             'one evaluation = one to three runs of the filter on one archive '
             'under seeded hash order and faults, the archive compared with a '
             'model after each; distinct = distinct (options, sizes, faults)',
             ['marked', 'failed', 'force', 'route_type', 'threshold', 'rare',
              'usual', 'senseless', 'output']),
    'P26': P(1500, 300000,
             'one evaluation = one upgrade of one feed in one way of writing '
             'its files under seeded faults, every text compared in every '
             'language before and after; distinct = distinct (sizes, ways of '
             'writing, faults)',
             ['by_id', 'by_value', 'bom', 'crlf', 'quote', 'short', 'long',
              'blank', 'failed', 'recovered', 'unsound']),
    'P27': P(1500, 300000,
             'one evaluation = one feed with one set of extension columns and '
             'codes judged by the extension (or by both libraries, or by the '
             'program), saved and judged again; distinct = distinct (mode, '
             'edits, damages, faults)',
             ['saved', 'same', 'same_problems', 'program', 'disk_fault',
              'InvalidAgencyID:agency_id:0', 'InvalidValue:agency_lang:0',
              'InvalidValue:agency_lang:1', 'InvalidValue:vehicle_type:0']),
    'P28': P(1500, 300000,
             'one evaluation = one network validated after every step of one '
             'history of edits, saves and loads; distinct = distinct (edit '
             'sequence, sizes, kinds of report)',
             ['judged', 'UnusedStop:1', 'UsedStation:0',
              'StopTooFarFromParentStation:0', 'StopTooFarFromParentStation:1',
              'StopsTooClose:1', 'StationsTooClose:1',
              'DifferentStationTooClose:1', 'TransferDistanceTooBig:0',
              'TransferDistanceTooBig:1', 'TransferWalkingSpeedTooFast:1',
              'StopTooFarFromShapeWithDistTraveled:1', 'unused shapes:1',
              'agency_timezone:0', 'parent_station:0', 'op_reload']),
    'P29': P(1500, 300000,
             'one evaluation = one network of lines asked for paths or used '
             'by one import; distinct = distinct (number of lines, questions '
             'or options, outcomes, faults)',
             ['line_new', 'line_same', 'line_variant', 'path', 'chain',
              'no_chain', 'line', 'line_of_several', 'lines_too_far',
              'nothing_near', 'failed', 'recovered']),
    'P30': P(3000, 400000,
             'one evaluation = one picture of one set of stations; distinct = '
             'distinct (sizes, file oddities, faults, choice)',
             ['group', 'node', 'area', 'pathway', 'left_out', 'bom', 'short',
              'crlf', 'failed', 'recovered']),
    'P31': P(2500, 300000,
             'one evaluation = one history of one network; distinct = distinct '
             '(operations, stops, rules met)',
             ['extra', 'op_reload', 'route_left_out', 'load:end_date:0',
              'load:no weekday:1', 'load:route_color:1',
              'validate:feed_lang:0', 'validate:no id:0',
              'validate:stop_timezone:1', 'load:departure_time:0']),
    'P32': P(2500, 300000,
             'one evaluation = one damaged feed saved twice; distinct = '
             'distinct (damage, files, reports)',
             ['saved_with_data', 'reported_MissingValue',
              'reported_InvalidValue', 'reported_CsvSyntax']),
}
