# -*- coding: utf-8 -*-
"""The Google Transit extension: extended columns and codes are judged by the
published rules, everything else exactly as without it, and nothing is lost."""
import damage
import model
from core import Rng, SimCrash, canon, uni, u8
from world import World, simdictify
import cli
import drive
from drive import transitfeed
import extensions.googletransit
import feedvalidator_googletransit

SHRINK = ('edits', 'ops', 'feed')
SHRINK_KEYS = ('feed',)
ERR, WARN = 0, 1
GOOD = u'good'
LANGS = {
    u'en': GOOD, u'DE': GOOD, u'de-CH': GOOD, u'zh-Hant-TW': GOOD,
    u'sr-latn': GOOD, u'es-419': GOOD, u'i-klingon': GOOD, u'sgn-BE-FR': GOOD,
    u'de-1996': GOOD, u'sl-rozaj': GOOD, u'zh-cmn': GOOD, u'yue': GOOD,
    u'en-GB-oed': GOOD, u'x-private': GOOD, u'': GOOD, u'zh-cmn-Hans-CN': GOOD,
    u'de-CH-1996': GOOD, u'en-x-us': GOOD, u'qaa': GOOD,
    u'xx': WARN, u'english': WARN, u'en-YY': WARN, u'de-Abcd': WARN,
    u'de-Latn-YY': WARN, u'de-1234': WARN, u'zz-US': WARN, u'zh-qqq': WARN,
    u'e': ERR, u'en_US': ERR, u'en-': ERR, u'-en': ERR, u'12': ERR,
    u'en-a': ERR, u'en US': ERR, u'languages1': ERR, u'fran\xe7ais': ERR,
    u'\u65e5\u672c\u8a9e': ERR, u'en--US': ERR, u'en,de': ERR}
PLAIN = [0, 1, 2, 3, 4, 5, 6, 7]
EXTENDED = [8, 9, 10, 11, 12, 100, 101, 102, 103, 105, 106, 107, 108, 109, 200,
            201, 202, 204, 208, 400, 401, 402, 403, 405, 700, 701, 702, 704,
            715, 717, 800, 900, 1000, 1100, 1300, 1400, 1500, 1501, 1700, 1701,
            1702]
UNKNOWN = [13, 99, 104, 110, 203, 300, 500, 703, 1703, 100000]


def gen(rng, tier, index):
  mode = rng.weighted([('edits', 7), ('same', 3), ('program', 3)])
  feed = model.gen_feed(rng, calm=True, agencies=(1, 3))
  feed.pop('feed_info', None)
  edits, ops = [], []
  if mode != 'same':
    for _ in range(rng.weighted([(0, 1), (1, 4), (2, 4), (5, 3)])):
      edits.append(edit(rng))
  else:
    for _ in range(rng.between(0, 6)):
      ops.append([rng.choice(damage.CELL_OPS), rng.choice(sorted(feed)),
                  rng.seed()])
  fault = None
  if rng.chance(25):
    op = rng.choice(['read', 'read', 'open'])
    fault = {'op': op, 'kind': 'EIO', 'nth': 1 + rng.below(8), 'path': 'feed'}
  return {'mode': mode, 'feed': feed, 'edits': edits, 'ops': ops,
          'fault': fault, 'path': rng.choice(['/sim/feed.zip', '/sim/feed']),
          'db': rng.chance(80), 'into': rng.chance(25), 'salt': rng.below(1000),
          'buffer': rng.choice([0, 64, 8192])}


def edit(rng):
  k = rng.choice(['lang', 'lang', 'route_type', 'co2', 'vehicle', 'platform',
                  'entrance', 'entrance', 'location', 'fare', 'fare'])
  n = rng.below(6)
  if k == 'lang':
    v = rng.choice(sorted(LANGS))
  elif k == 'route_type':
    v = uni(str(rng.choice(rng.choice([PLAIN, EXTENDED, EXTENDED, UNKNOWN]))))
  elif k == 'co2':
    v = rng.choice([u'', u'0', u'12.5', u'1e3', u'-3', u'12,5', u'abc', u'1.2.3',
                    u'99 g', u'caf\xe9'])
  elif k == 'vehicle':
    v = vehicle(rng)
  elif k == 'platform':
    v = rng.choice([u'', u'3', u'Gleis 3', u'caf\xe9', u'a,"b"', u'0'])
  elif k == 'entrance':
    v = [rng.choice([u'@', u'@', u'@', u'']), rng.choice([u'', u'', u'Door']),
         vehicle(rng) if rng.chance(50) else u'']
  elif k == 'location':
    v = rng.choice([u'3', u'4', u'9', u'x', u'-1', u'2.0', u'1', u'0', u''])
    v = [v, rng.choice([u'', u'Place', u'Place'])]
  else:
    v = rng.choice([u'@', u'@', u'', u'nobody', u'caf\xe9', u' '])
  return [k, n, v]


def vehicle(rng):
  return rng.choice([u'', u'0', u'3', u'100', u'700', u'1702', u'13', u'bus',
                     u'104', u'-3', u'1.5', u'0'])


def column(t, name):
  if name not in t['cols']:
    t['cols'].append(name)
    for r in t['rows']:
      r.append(u'')
  return t['cols'].index(name)


def number(text):
  try:
    return int(text)
  except ValueError:
    return None


def apply(feed, edits):
  """-> (feed with the edits, [problem expected])."""
  feed = model.copy_feed(feed)
  stops, routes, agency = feed['stops'], feed['routes'], feed['agency']
  for k, n, v in edits:
    if k == 'lang':
      r = agency['rows'][n % len(agency['rows'])]
      r[column(agency, u'agency_lang')] = v
    elif k == 'route_type':
      r = routes['rows'][n % len(routes['rows'])]
      r[column(routes, u'route_type')] = v
    elif k == 'co2':
      j = column(routes, u'co2_per_km')
      routes['rows'][n % len(routes['rows'])][j] = v
    elif k in ('vehicle', 'platform'):
      j = column(stops, u'vehicle_type' if k == 'vehicle' else
                 u'platform_code')
      stops['rows'][n % len(stops['rows'])][j] = v
    elif k in ('entrance', 'location'):
      lt, ps = column(stops, u'location_type'), column(stops, u'parent_station')
      base = stops['rows'][0]
      row = [u''] * len(stops['cols'])
      row[column(stops, u'stop_id')] = u'E%d' % len(stops['rows'])
      for c in (u'stop_lat', u'stop_lon'):
        row[column(stops, c)] = base[column(stops, c)]
      row[column(stops, u'stop_name')] = v[1]
      if k == 'entrance':
        row[lt] = u'2'
        row[ps] = base[column(stops, u'stop_id')] if v[0] == u'@' else u''
        if v[2]:
          j = column(stops, u'vehicle_type')
          row += [u''] * (len(stops['cols']) - len(row))
          row[j] = v[2]
      else:
        row[lt] = v[0]
      stops['rows'].append(row)
    else:
      t = feed.setdefault('fare_attributes', model.new_table(
          [u'fare_id', u'price', u'currency_type', u'payment_method',
           u'transfers']))
      j = column(t, u'agency_id')
      row = [u''] * len(t['cols'])
      for c, x in ((u'fare_id', u'X%d' % len(t['rows'])), (u'price', u'1.5'),
                   (u'currency_type', u'USD'), (u'payment_method', u'0'),
                   (u'transfers', u'0')):
        row[column(t, c)] = x
      if v == u'@':
        v = agency['rows'][n % len(agency['rows'])][0]
      row[j] = v
      t['rows'].append(row)
  return feed


def rules(feed):
  """What the extension reports about an otherwise fine feed."""
  out = []

  def say(cls, sev, name, i, c, value):
    out.append((cls, sev, name + '.txt', i + 2, u8(c),
                None if value is None else u8(value)))
  agencies = model.dicts(feed, 'agency')
  for i, a in enumerate(agencies):
    v = LANGS.get(a.get(u'agency_lang', u''), GOOD)
    if v != GOOD:
      say('InvalidValue', v, 'agency', i, u'agency_lang', a[u'agency_lang'])
  for i, r in enumerate(model.dicts(feed, 'routes')):
    if number(r[u'route_type']) not in PLAIN + EXTENDED:
      say('InvalidValue', WARN, 'routes', i, u'route_type', r[u'route_type'])
    v = r.get(u'co2_per_km', u'').strip()
    try:
      float(v or u'0')
    except ValueError:
      say('InvalidValue', ERR, 'routes', i, u'co2_per_km', v)
  for i, s in enumerate(model.dicts(feed, 'stops')):
    lt, parent = s.get(u'location_type', u''), s.get(u'parent_station', u'')
    n = number(lt or u'0')
    if n is None:
      say('InvalidValue', ERR, 'stops', i, u'location_type', lt)
      n = 0
    elif n not in (0, 1, 2):
      say('InvalidValue', WARN, 'stops', i, u'location_type', lt)
    if n == 2 and not parent:
      say('InvalidValue', ERR, 'stops', i, u'location_type', lt)
    if not s[u'stop_name'] and n != 2:
      say('MissingValue', ERR, 'stops', i, u'stop_name', None)
    v = s.get(u'vehicle_type', u'')
    if v:
      t = number(v)
      if t is None:
        say('InvalidValue', ERR, 'stops', i, u'vehicle_type', v)
      else:
        if t not in PLAIN + EXTENDED:
          say('InvalidValue', WARN, 'stops', i, u'vehicle_type', v)
        if n == 2:
          say('InvalidValue', ERR, 'stops', i, u'vehicle_type', v)
        elif parent:
          say('InvalidValue', WARN, 'stops', i, u'vehicle_type', v)
  ids = [a.get(u'agency_id', u'') for a in agencies]
  for i, f in enumerate(model.dicts(feed, 'fare_attributes')
                        if 'fare_attributes' in feed else []):
    v = f.get(u'agency_id', u'').strip()
    if v in ids or (not v and len(ids) < 2):
      continue
    if u'agency_id' in feed['fare_attributes']['cols']:
      say('InvalidAgencyID', ERR, 'fare_attributes', i, u'agency_id', v)
    else:
      say('InvalidAgencyID', ERR, 'fare_attributes', i, u'agency_id', None)
  return sorted(out)


def told(rec):
  return sorted((i['cls'], i['type'], i['file'], i['row'], i['col'],
                 i['value'] if i['value'] is not None else None)
                for i in rec.items if i['cls'] != 'UnrecognizedColumn' or
                not i['col'].startswith('x_'))


def plain(feed_files, s, rec):
  """Does this feed stay within what both libraries read alike?"""
  for a in s.GetAgencyList():
    if LANGS.get(uni(a.agency_lang or u'')) != GOOD or \
        len(a.agency_lang or u'') not in (0, 2):
      return False
  for r in s.GetRouteList():
    if r.route_type not in PLAIN:
      return False
  for i in rec.items:
    if i['col'] in ('agency_lang', 'location_type', 'route_type'):
      return False
    if i['file'] == 'stops.txt' and i['col'] == 'stop_name':
      return False
    if i['file'] == 'agency.txt':    # with several agencies fares need one
      return False
  if any(x.location_type not in (0, 1) for x in s.GetStopList()):
    return False
  n = len(s.GetAgencyList())
  return n == 1 or (not s.GetFareAttributeList() and 'fare_attributes' not in
                    feed_files and 'fare_attributes.txt' not in feed_files)


def both(ctx, w, trace, path):
  out = []
  for fac in (transitfeed.GetGtfsFactory(),
              extensions.googletransit.GetGtfsFactory(
                  transitfeed.gtfsfactory.GtfsFactory())):
    s, rec = drive.load(w, path, extra=True, memory_db=trace['db'],
                        gtfs_factory=fac)
    out.append((s, rec))
  return out


def run(trace, ctx):
  w = World(ctx, start=drive.NOW, net_plan=[], buffer_size=trace['buffer'])
  ctx.world = w
  with w:
    path = u8(trace['path'])
    if trace['mode'] == 'same':
      same(ctx, w, trace, path)
    elif trace['mode'] == 'edits':
      edits(ctx, w, trace, path)
    else:
      program(ctx, w, trace, path)
    ctx.steps += 1
  ctx.sig = canon([trace['mode'], [e[0] + ':' + canon(e[2]) for e in
                                   trace['edits']],
                   [o[0] for o in trace['ops']], sorted(ctx.faults)])


def factory():
  return extensions.googletransit.GetGtfsFactory(
      transitfeed.gtfsfactory.GtfsFactory())


def same(ctx, w, trace, path):
  files = model.feed_files(trace['feed'])
  for op, table, seed in trace['ops']:
    name = table + '.txt'
    if name in files:
      files[name] = damage.apply_text(op, files[name], Rng(seed),
                                      [files[n] for n in sorted(files)])
  drive.put_files(w, files, path)
  (s0, r0), (s1, r1) = both(ctx, w, trace, path)
  if not plain(files, s0, r0):
    return
  ctx.check(drive.pset(r0.items) == drive.pset(r1.items), 'other-problems',
            lambda: canon([drive.pset(r0.items), drive.pset(r1.items)]))
  d = model.diff_meaning(drive.loaded_meaning(s0), drive.loaded_meaning(s1))
  ctx.check(d is None, 'other-feed', lambda: canon(d))
  ctx.probe('same')
  if r0.items:
    ctx.probe('same_problems')


def edits(ctx, w, trace, path):
  feed = apply(trace['feed'], trace['edits'])
  drive.put_feed(w, feed, path)
  want = rules(feed)
  for x in want:
    ctx.probe('%s:%s:%d' % (x[0], x[4], x[1]))
  if trace['fault']:
    w.fs.faults = [dict(trace['fault'])]
    s, rec = drive.load(w, path, memory_db=trace['db'], gtfs_factory=factory())
    w.fs.faults = []
    if ctx.faults:
      ctx.check(rec.errors() or told(rec) == want, 'fault-unreported',
                lambda: canon([trace['fault'], told(rec), want]))
      ctx.probe('disk_fault')
  if trace['into']:            # into a schedule made before
    pr, rec = drive.reporter()
    s = transitfeed.Schedule(problem_reporter=pr, memory_db=trace['db'],
                             gtfs_factory=factory())
    s.Load(path)
    ctx.probe('into')
  else:
    s, rec = drive.load(w, path, memory_db=trace['db'],
                        gtfs_factory=factory())
  got = told(rec)
  bad = [x for x in got if x not in want] + [x for x in want if x not in got]
  ctx.check(got == want, 'judged:' + ','.join(sorted(set(
      '%s.%s' % (x[0], x[4]) for x in bad)) or ['repeated']),
      lambda: canon([[x for x in got if x not in want],
                     [x for x in want if x not in got], got]))
  if any(x[1] == ERR for x in want):
    return
  simdictify(s, trace['salt'])
  s.WriteGoogleTransitFeed('/sim/out.zip')
  out = model.read_zip_feed(w.fs.get('/sim/out.zip'))
  for name in ('agency', 'routes', 'stops', 'fare_attributes'):
    if name not in feed:
      continue
    key = {'agency': u'agency_id', 'routes': u'route_id', 'stops': u'stop_id',
           'fare_attributes': u'fare_id'}[name]
    again = dict((d[key], d) for d in model.dicts(out, name))
    ctx.check(len(again) == len(feed[name]['rows']), 'rows-lost:' + name,
              lambda: canon(out))
    for d in model.dicts(feed, name):
      e = again.get(d[key])
      ctx.check(e is not None, 'row-lost:' + name, lambda: canon(d))
      for c in (u'agency_lang', u'route_type', u'co2_per_km', u'vehicle_type',
                u'platform_code', u'location_type', u'agency_id'):
        a, b = d.get(c, u'').strip(), e.get(c, u'')
        if c in (u'route_type', u'co2_per_km', u'vehicle_type',
                 u'location_type'):
          zero = u'0' if c == u'location_type' else u'nan'
          a, b = float(a or zero), float(b or zero)
          same = a == b or (a != a and b != b)
        else:
          same = a == b
        ctx.check(same, 'value-lost:' + u8(c), lambda: canon([d, e]))
  ctx.probe('saved')
  s2, rec2 = drive.load(w, '/sim/out.zip', memory_db=trace['db'],
                        gtfs_factory=factory())
  strip = lambda l: sorted((x[0], x[1], x[2], x[4]) for x in l)
  ctx.check(strip(told(rec2)) == strip(want), 'judged-again',
            lambda: canon([told(rec2), want]))


def program(ctx, w, trace, path):
  feed = apply(trace['feed'], trace['edits'])
  drive.put_feed(w, feed, path)
  want = rules(feed)
  w.fs.faults = [dict(trace['fault'])] if trace['fault'] else []
  argv = ['feedvalidator_googletransit.py', '-n', '--output=CONSOLE',
          '--latest_version', transitfeed.__version__]
  if trace['db']:
    argv.append('-m')
  r = cli.run_main(w, feedvalidator_googletransit.main, argv + [path])
  w.fs.faults = []
  info = lambda: canon([trace['edits'], trace['fault'], r.status, want,
                        r.out[-3000:], r.err[-1000:]])
  ctx.check('extension used: extensions.googletransit' in r.out,
            'extension-unused', info)
  ctx.check(r.status in (0, 1), 'status:%r' % r.status, info)
  if want and not ctx.faults:
    ctx.check(r.status == 1, 'accepted', info)
    for x in want:
      ctx.check(x[4] in r.out, 'unmentioned:' + x[4], info)
  ctx.probe('program')
  if ctx.faults:
    ctx.probe('program_fault')
