# -*- coding: utf-8 -*-
"""The feed validator as a program: verdict, counts, report.

main() runs under the crash handler in the simulated world (argv, prompt,
disk, clock, network, terminal).  The reference is what an unlimited recorder
collects from the same library on the same feed; the program's exit status,
console output and HTML page must say exactly that.
"""
import re

import damage
import model
from core import Rng, canon, uni, u8
from world import World
import cli
import drive
from drive import transitfeed
import feedvalidator

SHRINK = ('feed', 'ops', 'args')
SHRINK_KEYS = ('feed',)
VERSION = transitfeed.__version__
NAMES = ['a.zip', u'caf\xe9.zip', 'a b.zip', 'x<y>&.zip', 'noext', 'dir',
         'sub/b.zip']


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True)
  ops = []
  for _ in range(rng.weighted([(0, 3), (1, 3), (3, 4), (10, 2)])):
    ops.append([rng.choice(damage.CELL_OPS), rng.choice(sorted(feed)),
                rng.seed()])
  args = []
  if rng.chance(30):
    args.append(['-l', '%d' % rng.choice([0, 1, 2, 100])])
  if rng.chance(40):
    args.append(['-m'])
  if rng.chance(30):
    args.append(['-d'])
  if rng.chance(25):
    args.append(['--error_types_ignore_list', rng.choice([
        'ExpirationDate', 'UnusedStop,InvalidValue', 'InvalidValue', 'Nonsense',
        'UnrecognizedColumn,OtherProblem,MissingValue'])])
  if rng.chance(20):
    args.append(['--service_gap_interval', '%d' % rng.choice([1, 2, 5, 30])])
  if rng.chance(15):
    args.append(['--latest_version', rng.choice([VERSION, '100.0.1',
                                                 '0.0.1', '1.2.17'])])
  if rng.chance(15):
    args.append(['--extension', rng.choice(['extensions.googletransit',
                                            'extensions.googletransit',
                                            'no.such.module'])])
  net = rng.weighted([
      ({'body': 'version=' + VERSION}, 6),
      ({'body': 'x\nversion=100.100.100\n'}, 2),
      ({'body': 'version=1.2'}, 1), ({'body': 'version=1.1.99'}, 1),
      ({'fail': 'dns', 'kind': 'dns'}, 1),
      ({'fail': 'http500', 'kind': 'http500'}, 1)])
  return {'feed': feed, 'ops': ops, 'args': args, 'net': net,
          'copies': rng.choice([0, 0, 0, 6, 12]),
          'out': rng.weighted([('file', 6), ('CONSOLE', 5), ('default', 3),
                               ('console', 1), ('missing-dir', 1)]),
          'name': rng.choice(NAMES), 'prompt': rng.weighted([
              ('no', 6), ('n', 3), ('ask', 2), ('quoted', 1)]),
          'fault': rng.weighted([(None, 7), ('full', 1), ('open', 1),
                                 ('torn', 1), ('close', 1)]),
          'at': rng.below(40), 'ascii': rng.chance(40),
          'broken': rng.weighted([(None, 9), ('missing', 1), ('junk', 1)]),
          'now': int(drive.NOW) + rng.choice([-400, 0, 0, 0, 40, 130, 500]) *
          86400}


def multiply(feed, n):
  """More of the same: problems beyond any limit."""
  feed = model.copy_feed(feed)
  for name in ('stops', 'routes'):
    t = feed.get(name)
    if t and t['rows']:
      for i in range(n):
        r = list(t['rows'][0])
        r[0] = u'%s+%d' % (r[0], i)
        t['rows'].append(r)
  return feed


def setup(w, trace, ctx):
  feed = multiply(trace['feed'], trace['copies'])
  files = model.feed_files(feed)
  names = sorted(files)
  for op, table, seed in trace['ops']:
    name = table + '.txt'
    if name in files:
      files[name] = damage.apply_text(op, files[name], Rng(seed),
                                      [files[n] for n in names])
  name = u8(trace['name'])
  w.fs.mkdir('/sim/sub')
  path = '/sim/' + name
  if trace['broken'] == 'missing':
    pass
  elif trace['broken'] == 'junk':
    w.fs.put(path, 'PK\x03\x04 this is no archive')
  elif name in ('noext', 'dir'):
    drive.put_files(w, files, path)
  else:
    w.fs.put(path, model.zip_bytes(sorted(files.items()), 8))
  return name


def option(trace, flag, default=None):
  for a in trace['args']:
    if a[0] == flag:
      return a[1] if len(a) > 1 else True
  return default


def reference(w, trace, path):
  """Everything the library reports, without limits."""
  rec = drive.Recorder()
  pr = transitfeed.ProblemReporter(rec)
  ext = option(trace, '--extension')
  if ext == 'extensions.googletransit':
    import extensions.googletransit as g
    fac = g.GetGtfsFactory()
  else:
    fac = transitfeed.GetGtfsFactory()
  s = fac.Loader(path, problems=pr, extra_validation=False, memory_db=True,
                 check_duplicate_trips=bool(option(trace, '-d')),
                 gtfs_factory=fac).Load()
  s.Validate(service_gap_interval=int(option(
      trace, '--service_gap_interval', 13)), validate_children=False)
  return rec, s


def note_of(trace):
  """-> (class, text fragment) of the notice about versions, or None."""
  given = option(trace, '--latest_version')
  if given:
    v = 'version=' + given
  elif 'fail' in trace['net']:
    return ('OtherProblem', 'failed to reach')
  else:
    v = trace['net']['body']
  n = cli.newer(v, VERSION)
  if n is None:
    return ('OtherProblem', 'trouble parsing')
  return ('NewVersionAvailable', n) if n else None


def squeeze(t):
  return ' '.join(t.split())


def plain(html):
  """Text a browser shows."""
  t = re.sub(r'<(br|/li|/td|/th|/div|/tr|td|th|li|div)[^>]*>', ' ', html)
  t = re.sub(r'<[^>]*>', '', t)
  for a, b in (('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&#39;', "'"),
               ('&#x27;', "'"), ('&amp;', '&')):
    t = t.replace(a, b)
  return squeeze(t)


SIGNIFICANCE = {
    'StopTooFarFromParentStation': lambda e: -e.distance,
    'StopsTooClose': lambda e: e.distance,
    'StationsTooClose': lambda e: e.distance,
    'DifferentStationTooClose': lambda e: e.distance,
    'StopTooFarFromShapeWithDistTraveled': lambda e: -e.distance,
    'TooFastTravel': lambda e: -e.dist}


def run(trace, ctx):
  w = World(ctx, start=trace['now'], net_plan=[trace['net']])
  ctx.world = w
  with w:
    name = setup(w, trace, ctx)
    w.fs.cwd = '/sim'
    rec, s = reference(w, trace, name)
    w.fs.touched.clear()
    argv = ['feedvalidator.py']
    for a in trace['args']:
      argv.extend(a)
    out = None
    if trace['out'] == 'default':
      out = '/sim/validation-results.html'
    elif trace['out'] == 'file':
      argv.append('--output=report.html')
      out = '/sim/report.html'
    elif trace['out'] == 'missing-dir':
      argv.append('--output=nowhere/report.html')
    else:
      argv.append('--output=' + trace['out'])
    if trace['prompt'] == 'n':
      argv.append('-n')
    if trace['prompt'] in ('no', 'n'):
      argv.append(name)
    else:
      w.input_lines = ['"%s"' % name if trace['prompt'] == 'quoted' else name,
                       '']
    if out and trace['fault']:
      kind = trace['fault']
      w.fs.faults = [{'full': {'op': 'write', 'path': '.html',
                               'kind': 'ENOSPC', 'nth': 1 + trace['at'] % 6},
                      'open': {'op': 'openw', 'path': '.html',
                               'kind': 'EIO', 'nth': 1},
                      'torn': {'op': 'write', 'path': '.html',
                               'kind': 'TORN', 'nth': 1 + trace['at'] % 6,
                               'frac': 50},
                      'close': {'op': 'close', 'path': '.html',
                                'kind': 'ENOSPC', 'nth': 1}}[kind]]
    w.stdout.ascii = trace['ascii']
    r = cli.run_main(w, feedvalidator.main, argv)
    hit = any(not k.startswith('net_') for k in ctx.faults)
    w.fs.faults = []
    judge(ctx, w, trace, rec, s, r, out, name, hit)
    ctx.sig = canon([trace['args'], trace['out'], rec.kinds(), r.status,
                     trace['fault'], trace['net']])


def judge(ctx, w, trace, rec, s, r, out, name, hit):
  ignore = (option(trace, '--error_types_ignore_list') or '').split(',')
  kept = [(e, i) for e, i in zip(rec.raw, rec.items)
          if i['cls'] not in ignore]
  bad = [x for x in kept if x[1]['type'] in (0, 1)]
  detail = lambda: canon([r.status, r.out[-600:], rec.kinds(), trace['args']])
  ctx.check('transitfeedcrash' not in r.out and
            not w.fs.exists('/sim/transitfeedcrash.txt'), 'crashed',
            lambda: r.out[-1500:])
  if option(trace, '--extension') == 'no.such.module':
    ctx.check(r.status == 2, 'status-without-extension', detail)
    ctx.probe('no_extension')
    return
  if trace['out'] == 'missing-dir' or hit:
    ctx.check(r.status == 2, 'status-unwritable-report', detail)
    ctx.check(not w.browser, 'unwritten-report-opened', detail)
    ctx.probe('unwritable')
    return
  ctx.check(r.status == (1 if bad else 0), 'status', detail)
  ctx.probe('status_%d' % r.status)
  ne = len([x for x in bad if x[1]['type'] == 0])
  nw = len(bad) - ne
  words = []
  if ne:
    words.append('%d error%s' % (ne, '' if ne == 1 else 's'))
  if nw:
    words.append('%d warning%s' % (nw, '' if nw == 1 else 's'))
  verdict = 'ERROR: %s found' % ' and '.join(words) if bad else \
      'feed validated successfully'
  ctx.check(('\n' + verdict + '\n') in r.out, 'verdict',
            lambda: canon([verdict, r.out[-400:]]))
  ctx.check(('feed validated successfully' in r.out.split('\n')) == (not bad),
            'verdict-both', detail)
  opened = [a[0] for a in w.browser]
  want = [] if trace['prompt'] == 'n' or out is None else ['file://' + out]
  ctx.check([u8(x) for x in opened] == want, 'browser',
            lambda: canon([opened, want]))
  note = note_of(trace)
  if note and note[0] in ignore:
    note = None
  if out is None:
    ctx.probe('console')
    text = squeeze(r.out)
    pos = 0
    for e, i in kept:
      frag = squeeze(i['text'])
      at = text.find(frag, pos)
      ctx.check(at >= 0, 'problem-not-printed',
                lambda: canon([frag, r.out[-1500:]]))
      pos = at + len(frag)
    if note:
      ctx.check(u8(note[1]) in text, 'notice-not-printed', lambda: canon(note))
    ctx.check(not [p for p in w.fs.touched if p.endswith('.html')],
              'console-wrote-a-file', detail)
    return
  ctx.probe('page')
  page(ctx, trace, kept, s, w.fs.get(out), note, name, ne, nw)


def page(ctx, trace, kept, s, html, note, name, ne, nw):
  limit = int(option(trace, '-l', 5))
  ctx.check(html.rstrip().endswith('</html>'), 'page-incomplete',
            lambda: html[-300:])
  try:
    html.decode('utf-8')
  except UnicodeDecodeError:
    ctx.violate('page-encoding', '')
  text = plain(html)
  # head
  want = ['GTFS validation results for feed: ' + squeeze(name)]
  for label, n in (('Routes', len(s.GetRouteList())),
                   ('Stops', len(s.GetStopList())),
                   ('Trips', len(s.GetTripList())),
                   ('Shapes', len(s.GetShapeList()))):
    want.append('%s: %d ' % (label, n))
  names = [squeeze(u8(uni(a.agency_name))) for a in s.GetAgencyList()
           if a.agency_name is not None]
  want.extend(names)
  for x in want:
    ctx.check(x in text, 'page-head', lambda: canon([x, text[:600]]))
  summary(ctx, s, text)
  ok = 'feed validated successfully' in text
  ctx.check(ok == (not ne and not nw), 'page-verdict',
            lambda: canon([ne, nw, text[:900]]))
  if ne or nw:
    ctx.check(('Found this problem:' in text) == (ne + nw == 1), 'page-found',
              '')
    for n, word in ((ne, 'error'), (nw, 'warning')):
      if n:
        x = '%d %s%s ' % (n, word, '' if n == 1 else 's')
        ctx.check(x in text, 'page-count', lambda: canon([x, text[:900]]))
  # sections
  parts = re.split(r'<a name="(Error|Warning|Notice)(\w+)">', html)
  found = {}
  for j in range(1, len(parts) - 2, 3):
    found[(parts[j], parts[j + 1])] = parts[j + 2]
  groups = {}
  for e, i in kept:
    level = ['Error', 'Warning', 'Notice'][i['type']]
    groups.setdefault((level, i['cls']), []).append((e, i))
  keys = set(groups)
  if note:
    keys.add(('Notice', note[0]))
  ctx.check(set(found) == keys, 'page-sections',
            lambda: canon([sorted(found), sorted(keys)]))
  if note:
    body = plain(found[('Notice', note[0])])
    if limit > 0:
      ctx.check(note[1] in body, 'page-notice', lambda: canon([note, body]))
      ctx.probe('notice')
  for (level, cls), items in sorted(groups.items(),
                                    key=lambda kv: kv[0]):
    body = found[(level, cls)]
    lis = body.split('<li>')[1:]
    key = SIGNIFICANCE.get(cls)
    order = sorted(items, key=lambda x: key(x[0])) if key else items
    if key and len(items) > 1:
      ctx.probe('significance')
    shown = order[:limit]
    more = len(items) - len(shown)
    if more:
      ctx.check('and %d more of this type' % more in lis[-1], 'page-more',
                lambda: canon([cls, more, plain(body)[-300:]]))
      lis = lis[:-1]
      ctx.probe('limited')
    ctx.check(len(lis) == len(shown), 'page-list-length',
              lambda: canon([cls, len(lis), len(shown)]))
    human = re.sub(r'([a-z])([A-Z])', r'\1 \2', cls)
    if level != 'Notice':
      x = '%d %s%s' % (len(items), human, '' if len(items) == 1 else 's')
      ctx.check(x in text, 'page-table', lambda: canon([x, text[:1500]]))
    for li, (e, i) in zip(lis, shown):
      t = plain(li)
      frag = squeeze(u8(uni(i['text'])))
      ctx.check(t.startswith(frag), 'page-problem',
                lambda: canon([frag, t, li]))
      if i['row'] and i['file']:
        x = 'in line %d of %s' % (i['row'], squeeze(u8(uni(i['file']))))
        ctx.check(x in t, 'page-context', lambda: canon([x, t]))
        for v in getattr(e, 'row', None) or ():
          if getattr(e, 'headers', None) and getattr(e, 'column_name', None):
            x = squeeze(u8(uni(v)))
            ctx.check(x in t or len(e.row) > len(e.headers), 'page-row',
                      lambda: canon([x, t]))
            ctx.probe('row_shown')


def summary(ctx, s, text):
  """Trips in the coming sixty days."""
  import datetime
  import time
  start, end = s.GetDateRange()
  today = datetime.date.fromtimestamp(0)
  t = time.localtime()
  today = datetime.date(t[0], t[1], t[2])
  m = re.search(r'Average trips per date: (\d+) Most trips on a date: (\d+), '
                r'on (\d+) service dates? \(.*?Least trips on a date: (\d+), '
                r'on (\d+) service dates? \(', text)
  days = []
  if start and end:
    try:
      a = max(today, model.todate(u8(uni(start))))
      b = min(today + datetime.timedelta(60), model.todate(u8(uni(end))))
    except ValueError:
      return
    if a < b:
      days = [x[1] for x in s.GenerateDateTripsDeparturesList(a, b)]
  if not days:
    ctx.check(m is None, 'summary-of-nothing', lambda: text[:500])
    return
  ctx.check(m is not None, 'no-summary', lambda: canon([text[:900], days]))
  want = [sum(days) // len(days), max(days), days.count(max(days)), min(days),
          days.count(min(days))]
  ctx.check([int(x) for x in m.groups()] == want, 'summary',
            lambda: canon([m.groups(), want]))
  ctx.probe('summary')


def valid(b):
  try:
    b.decode('utf-8')
    return True
  except UnicodeDecodeError:
    return False
