# -*- coding: utf-8 -*-
"""Programs under faults: a program which says it succeeded did succeed.

Each command line program runs twice in the simulated world on the same
files: once undisturbed, once with one or two faults (disk, database, network,
terminal, keyboard).  Success, or the same verdict as the undisturbed run,
means the same output files; everything unforeseen ends in exit status 127
with a report on disk and on the terminal as far as these still work; and no
program changes a file which is not its output.
"""
import damage
import model
from core import Rng, canon, uni, u8
from world import World
import cli
import drive
from drive import transitfeed
import feedvalidator
import kmlparser
import kmlwriter
import merge
import unusual_trip_filter
import upgrade_translations

SHRINK = ('feed', 'other', 'faults', 'opts')
SHRINK_KEYS = ('feed',)
PROGRAMS = {'validate': feedvalidator.main, 'console': feedvalidator.main,
            'merge': merge.main, 'kml': kmlwriter.main,
            'parse': kmlparser.main, 'unusual': unusual_trip_filter.main,
            'inplace': unusual_trip_filter.main,
            'upgrade': upgrade_translations.main}
CRASH = '/sim/transitfeedcrash.txt'


def gen(rng, tier, index):
  program = rng.choice(sorted(PROGRAMS))
  feed = model.gen_feed(rng, calm=True)
  other = None
  if program == 'merge':
    other = model.gen_feed(rng, calm=True)
  faults = []
  for _ in range(rng.weighted([(1, 6), (2, 3), (0, 1)])):
    faults.append(gen_fault(rng, program))
  opts = []
  if rng.chance(40):
    opts.append(['-m'])
  if program == 'merge' and rng.chance(60):
    opts.append(['--cutoff_date', rng.choice(['20140601', '20140801',
                                              '20150101'])])
  if program == 'kml':
    for o in ('-t', '-s', '-p', '--show_stop_hierarchy'):
      if rng.chance(40):
        opts.append([o])
  return {'program': program, 'feed': feed, 'other': other, 'opts': opts,
          'faults': faults, 'ops': [[rng.choice(damage.CELL_OPS),
                                     rng.choice(sorted(feed)), rng.seed()]]
          if rng.chance(25) and program in ('validate', 'console', 'merge',
                                            'kml') else [],
          'buffer': rng.choice([0, 64, 1024, 8192]),
          'as_dir': rng.chance(25), 'old': rng.chance(50),
          'lines': rng.below(3), 'hash': rng.seed()}


def gen_fault(rng, program):
  where = rng.weighted([('fs', 7), ('db', 4), ('out', 2), ('report', 2),
                        ('stdin', 1), ('net', 2)])
  if where == 'fs':
    op = rng.weighted([('write', 5), ('open', 2), ('openw', 2), ('read', 3),
                       ('close', 2), ('rename', 1), ('listdir', 1)])
    kinds = {'write': ['EIO', 'ENOSPC', 'TORN'], 'open': ['EIO', 'EACCES',
                                                          'EMFILE'],
             'openw': ['EIO', 'EACCES', 'ENOSPC'],
             'read': ['EIO'], 'close': ['EIO', 'ENOSPC'],
             'rename': ['EIO'], 'listdir': ['EIO']}[op]
    return ['fs', {'op': op, 'kind': rng.choice(kinds),
                   'nth': rng.choice([1, 1, 2, 3, 1 + rng.below(30)]),
                   'frac': rng.below(101)}]
  if where == 'db':
    return ['db', {'nth': 1 + rng.choice([rng.below(8), rng.below(60),
                                          rng.below(200)]),
                   'kind': rng.choice(['full', 'ioerr', 'locked'])}]
  if where == 'out':
    return ['out', rng.choice([0, 1, 40, rng.below(400)])]
  if where == 'report':
    return ['fs', {'op': rng.choice(['openw', 'write', 'close']),
                   'path': 'transitfeedcrash.txt', 'nth': 1,
                   'kind': rng.choice(['EIO', 'ENOSPC'])}]
  if where == 'stdin':
    return ['stdin', rng.choice(['broken', 'interrupt'])]
  return ['net', rng.choice(['timeout', 'reset', 'refused', 'dns', 'http404',
                             'http500', 'badstatus', 'incomplete',
                             'ioerror']), rng.chance(50)]


KML = u'''<?xml version="1.0" encoding="UTF-8"?>
<kml xmlns="http://earth.google.com/kml/2.1"><Document>%s</Document></kml>
'''


def kml_of(feed):
  out = []
  esc = lambda t: t.replace('&', '&amp;').replace('<', '&lt;')
  for r in model.dicts(feed, 'stops'):
    out.append(u'<Placemark><name>%s</name><Point><coordinates>%s,%s'
               u'</coordinates></Point></Placemark>' % (
                   esc(uni(r['stop_name'])), uni(r['stop_lon']),
                   uni(r['stop_lat'])))
  return (KML % u'\n'.join(out)).encode('utf-8')


def start(w, trace):
  """-> (main, argv, inputs, outputs)"""
  p = trace['program']
  files = model.feed_files(trace['feed'])
  names = sorted(files)
  for op, table, seed in trace['ops']:
    name = table + '.txt'
    if name in files:
      files[name] = damage.apply_text(op, files[name], Rng(seed),
                                      [files[n] for n in names])
  feed = '/sim/a.zip'
  if p == 'upgrade':
    files.update(translations(trace['feed']))
    drive.put_files(w, files, '/sim/src')
    outs = ['/sim/new/' + n for n in files]
    if trace['old']:
      w.fs.put('/sim/new/stops.txt', 'old')
    return PROGRAMS[p], ['upgrade_translations.py', '/sim/src',
                         '/sim/new'], outs
  if p == 'parse':
    w.fs.put('/sim/in.kml', kml_of(trace['feed']))
    if trace['old']:
      w.fs.put('/sim/out.zip', 'old archive')
    return PROGRAMS[p], ['kmlparser.py', '/sim/in.kml',
                         '/sim/out.zip'], ['/sim/out.zip']
  if trace['as_dir'] and p != 'inplace':
    feed = '/sim/feed'
    drive.put_files(w, files, feed)
  else:
    w.fs.put(feed, model.zip_bytes(sorted(files.items()), 8))
  opts = [x for o in trace['opts'] for x in o]
  if p == 'validate':
    return PROGRAMS[p], ['feedvalidator.py', '-n', '-o', '/sim/report.html'] \
        + opts + [feed], ['/sim/report.html']
  if p == 'console':
    return PROGRAMS[p], ['feedvalidator.py', '-n', '-o', 'CONSOLE'] + opts + [
        feed], []
  if p == 'kml':
    if trace['old']:
      w.fs.put('/sim/out.kml', '<kml>old</kml>')
    opts = [x for x in opts if x != '-m']
    return PROGRAMS[p], ['kmlwriter.py'] + opts + [feed, '/sim/out.kml'], \
        ['/sim/out.kml']
  if p == 'merge':
    other = model.feed_files(trace['other'])
    w.fs.put('/sim/b.zip', model.zip_bytes(sorted(other.items()), 0))
    if trace['old']:
      w.fs.put('/sim/out.zip', 'old archive')
    return PROGRAMS[p], ['merge.py', '--no_browser',
                         '--html_output_path=/sim/merge.html'] + opts + [
                             feed, '/sim/b.zip', '/sim/out.zip'], \
        ['/sim/out.zip', '/sim/merge.html']
  if p == 'unusual':
    return PROGRAMS[p], ['unusual_trip_filter.py', '-o', '/sim/out.zip'] + \
        opts + [feed], ['/sim/out.zip']
  return PROGRAMS[p], ['unusual_trip_filter.py'] + opts + [feed], [feed]


def translations(feed):
  rows = ['trans_id,lang,translation']
  seen = set()
  lang = None
  for t, c in (('feed_info', 'feed_lang'), ('agency', 'agency_lang')):
    if feed.get(t):
      for r in model.dicts(feed, t):
        lang = lang or r.get(c)
  for r in model.dicts(feed, 'stops'):
    n = u8(uni(r['stop_name']))
    if n in seen or ',' in n or '"' in n or '\n' in n or '\r' in n:
      continue
    seen.add(n)
    rows.append('%s,%s,%s' % (n, u8(uni(lang or 'en')), n))
    rows.append('%s,%s,%s (xx)' % (n, 'xx', n))
  return {'translations.txt': '\n'.join(rows) + '\n'}


def meaning(path, data):
  """Contents without what may differ between equal outputs."""
  if data is None:
    return None
  if path.endswith('.zip'):
    import StringIO
    import zipfile
    try:
      z = zipfile.ZipFile(StringIO.StringIO(data))
      return sorted((n, z.read(n)) for n in z.namelist())
    except Exception:
      return ('broken', data)
  if path.endswith('merge.html'):   # tables in any order
    return sorted(data.replace('<h3>', '\n<h3>').split('\n'))
  return data


def diff(a, b):
  import difflib
  return list(difflib.unified_diff((a or '').split('\n'),
                                   (b or '').split('\n'), n=0))[:20]


def run(trace, ctx):
  runs = []
  for faulty in (False, True):
    net = [{'body': 'version=' + transitfeed.__version__}]
    inputs = []
    for f in trace['faults'] if faulty else ():
      if f[0] == 'net':
        net = [{'body': 'version=1.2.16 or so', 'kind': f[1],
                'fail_read' if f[2] else 'fail': f[1], 'after': 3}]
    w = World(ctx, start=drive.NOW, net_plan=net,
              buffer_size=trace['buffer'])
    ctx.world = w
    with w:
      w.fs.cwd = '/sim'
      main, argv, outs = start(w, trace)
      before = w.fs.snapshot()
      for f in trace['faults'] if faulty else ():
        if f[0] == 'fs':
          w.fs.faults.append(dict(f[1]))
        elif f[0] == 'db':
          w.db.faults.append(dict(f[1]))
        elif f[0] == 'out':
          w.stdout.fail_after = f[1]
        elif f[0] == 'stdin':
          w.input_fault = f[1]
      w.input_lines = ['', '', ''][:trace['lines']]
      handler = trace['program'] != 'upgrade'
      r = cli.run_main(w, main, argv, handler)
      w.finalise()
      w.fs.faults = []
      after = w.fs.snapshot()
      runs.append((r, before, after, w, outs, argv))
      if not faulty:
        clean = dict(ctx.faults)
  judge(ctx, trace, runs)
  ctx.sig = canon([trace['program'], trace['faults'], runs[0][0].status,
                   runs[1][0].status])


def files_ok(ctx, code, before, after, outs, extra):
  for p in set(before) | set(after):
    if p in outs or p in extra or p.startswith('/sim/outside'):
      continue
    if p.endswith('.tmp') or '.tmp' in p.rsplit('/', 1)[1]:
      continue
    ctx.check(before.get(p) == after.get(p), code,
              lambda: canon([p, before.get(p), (after.get(p) or '')[:200]]))


def judge(ctx, trace, runs):
  prog = trace['program']
  r0, before, after0, w0, outs, argv = runs[0]
  r1, _, after1, w1, _, _ = runs[1]
  fired = [f for f in ctx.faults if not f.startswith('net_')]
  broken_out = w1.stdout.failed
  detail = lambda: canon([argv, r0.status, r1.status, sorted(ctx.faults),
                          broken_out, r0.out[-300:], r0.err[-300:],
                          r1.out[-1200:], repr(r1.exc)])
  ctx.check(r0.status != 127 and (r0.exc is None or prog == 'upgrade'),
            'crash-without-fault', detail)
  ctx.check(not w0.fs.outside_writes and not w1.fs.outside_writes,
            'writes-elsewhere',
            lambda: canon([w0.fs.outside_writes, w1.fs.outside_writes]))
  files_ok(ctx, 'changed-another-file', before, after0, outs, ())
  files_ok(ctx, 'changed-another-file-failing', before, after1, outs,
           (CRASH,))
  ctx.probe('%s_%d' % (prog, r0.status))
  # A crash of the faulty run is reported
  crashed = 'unexpected exception' in r1.out or CRASH in after1
  if r1.status == 127:
    ctx.probe('crash_127')
    if not broken_out:
      ctx.check('threw an unexpected exception' in r1.out, 'crash-not-printed',
                detail)
      ctx.check('transitfeed version' in r1.out, 'crash-trace-not-printed',
                detail)
    report_ok = not any(
        f[0] == 'fs' and (f[1].get('path') or f[1]['kind'] == 'ENOSPC' or
                          f[1]['op'] in ('openw', 'write', 'close'))
        for f in trace['faults']) and not w1.fs.full
    if report_ok:
      t = after1.get(CRASH)
      ctx.check(t is not None and 'transitfeed version' in t and
                'Traceback' not in t[:1], 'no-crash-report', detail)
      ctx.probe('crash_report')
  else:
    ctx.check(not crashed or r1.status == (
        130 if 'stdin_interrupt' in ctx.faults else 127), 'crashed-without-127', detail)
  if prog != 'upgrade' and 'stdin_interrupt' not in ctx.faults:
    ctx.check(r1.exc is None, 'escaped:%s' % type(r1.exc).__name__, detail)
  # Success means success
  if r1.status == 0:
    ctx.probe('success_under_fault' if fired or broken_out else 'success')
    ctx.check(r0.status == 0, 'success-only-with-faults', detail)
  reading = [f for f in fired if f.startswith(('read_', 'open_', 'listdir_'))]
  netted = [f for f in ctx.faults if f.startswith('net_')]
  if r1.status == 0 or (r1.status == r0.status and not reading and
                        r1.status != 2 and not netted):
    for p in outs:
      a, b = meaning(p, after0.get(p)), meaning(p, after1.get(p))
      if netted and p.endswith('.html'):
        continue
      ctx.check(a == b, 'silent-failure',
                lambda: canon([p, r0.status, r1.status, sorted(ctx.faults),
                               trace['faults'], len(after0.get(p) or ''),
                               diff(after0.get(p), after1.get(p))]))
  elif prog in ('inplace', 'merge', 'parse', 'unusual'):
    # A failure leaves the old archive or none, or the complete new one.
    ctx.probe('failed_archive')
    p = outs[0]
    a = meaning(p, after1.get(p))
    if a and a[0] == 'broken' and any(f in ctx.faults for f in (
        'write_EIO', 'write_ENOSPC', 'write_TORN', 'close_EIO',
        'close_ENOSPC')):
      ctx.probe('torn_archive')
      return
    ctx.check(a == meaning(p, before.get(p)) or a == meaning(p, after0.get(p)),
              'half-written-archive', detail)
