# -*- coding: utf-8 -*-
"""Lost, duplicated and dangling records.

Record-level storage faults are injected into a feed which has no problem at
all.  An independent model of identity and references over the stored rows
says what must be reported, where, and which records must survive.
"""
import model
from core import Rng, canon, uni, u8
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('feed', 'ops')
SHRINK_KEYS = ('feed',)

ERR, WARN = 0, 1
KEY = {'agency': u'agency_id', 'stops': u'stop_id', 'routes': u'route_id',
       'trips': u'trip_id', 'fare_attributes': u'fare_id',
       'calendar': u'service_id'}
# (table, column) -> what may be written there instead
REFS = [('routes', u'agency_id'), ('trips', u'route_id'),
        ('trips', u'service_id'), ('trips', u'shape_id'),
        ('stop_times', u'trip_id'), ('stop_times', u'stop_id'),
        ('fare_rules', u'fare_id'), ('fare_rules', u'route_id'),
        ('fare_rules', u'origin_id'), ('fare_rules', u'destination_id'),
        ('fare_rules', u'contains_id'), ('transfers', u'from_stop_id'),
        ('transfers', u'to_stop_id'), ('frequencies', u'trip_id'),
        ('stops', u'parent_station')]
# harmless columns a duplicate may differ in
ALTER = {'agency': [u'agency_name'], 'stops': [u'stop_name'],
         'routes': [u'route_long_name'], 'trips': [u'trip_headsign'],
         'fare_attributes': [u'price'], 'calendar_dates': [u'exception_type'],
         'transfers': [u'min_transfer_time'], 'calendar': [u'monday']}
DUPABLE = ['agency', 'stops', 'routes', 'trips', 'fare_attributes', 'calendar',
           'calendar_dates', 'transfers', 'stop_times', 'shapes',
           'frequencies', 'fare_rules']


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True, extra_cols=False, shapes=70, fares=70, transfers=70,
                        frequencies=60, stations=50)
  ops = []
  for _ in range(rng.weighted([(0, 1), (1, 6), (2, 4), (3, 2), (6, 1)])):
    k = rng.weighted([('drop', 5), ('dup', 5), ('dangle', 6), ('dropfile', 1),
                      ('empty', 1), ('droprun', 2)])
    if k == 'dup':
      t = rng.choice([x for x in DUPABLE if x in feed])
      ops.append([k, t, rng.seed()])
    elif k == 'dangle':
      t, c = rng.choice([(x, c) for x, c in REFS
                         if x in feed and c in feed[x]['cols']
                         and feed[x]['rows']])
      ops.append([k, t, rng.seed(), c])
    else:
      t = rng.choice(sorted(set(feed) - set(['feed_info'])))
      ops.append([k, t, rng.seed()])
  return {'feed': feed, 'ops': ops, 'dir': rng.chance(40),
          'salt': rng.below(1000), 'memory_db': rng.chance(85),
          'own': rng.chance(25)}


def pick_unknown(feed, r):
  """An id unknown to its table: near misses first."""
  known = []
  for t, c in sorted(KEY.items()):
    known += [d.get(c, u'') for d in model.dicts(feed, t)]
  known = [k for k in known if k]
  base = r.choice(known) if known else u'X'
  return r.choice([u'nope', base + u'x', base.swapcase() + u'_', u'0',
                   base[:-1] + u'99', base])


def apply_op(feed, op, ctx):
  kind, t, seed = op[0], op[1], op[2]
  r = Rng(seed)
  if t not in feed:
    return
  rows = feed[t]['rows']
  if kind == 'dropfile':
    del feed[t]
  elif kind == 'empty':
    del rows[:]
  elif not rows:
    return
  elif kind == 'drop':
    del rows[r.below(len(rows))]
  elif kind == 'droprun':
    a = r.below(len(rows))
    b = a + 1 + r.below(len(rows) - a)
    del rows[a:b]
  elif kind == 'dup':
    row = list(r.choice(rows))
    cols = feed[t]['cols']
    if r.chance(50):
      c = r.choice(ALTER.get(t, [u'']))
      if c in cols:
        i = cols.index(c)
        if c == u'exception_type':
          row[i] = {u'1': u'2', u'2': u'1'}[row[i]]
        elif c == u'price':
          row[i] = u'7.75'
        elif c == u'monday':
          row[i] = {u'1': u'0', u'0': u'1'}[row[i]]
        elif c == u'min_transfer_time':
          row[i] = u'1500' if row[i] else u''
        else:
          row[i] = row[i] + u' again'
    rows.insert(r.below(len(rows) + 1), row)
  elif kind == 'dangle':
    c = op[3]
    if c not in feed[t]['cols']:
      return
    i = feed[t]['cols'].index(c)
    rows[r.below(len(rows))][i] = pick_unknown(feed, r)
  ctx.fault('record_' + kind)


# ---------------------------------------------------------------------------
# The model
# ---------------------------------------------------------------------------
class Model(object):
  def __init__(self, feed):
    self.feed = feed
    self.must = []
    self.out = {}
    self.run()

  def rep(self, cls, typ, f, row, col, value, text=u''):
    self.must.append((cls, typ, f and f + '.txt', row, col, value, text))

  def rows(self, t):
    """(row number, dict with None for absent columns is .get -> None)"""
    tb = self.feed.get(t)
    if tb is None:
      return []
    return [(i + 2, dict(zip(tb['cols'], r))) for i, r in enumerate(tb['rows'])]

  def keep(self, t, d):
    self.out.setdefault(t, []).append(d)

  def run(self):
    f = self.feed
    for t in ('agency', 'stops', 'routes', 'trips', 'stop_times'):
      if t not in f:
        self.rep('MissingFile', ERR, t, None, None, None)
    if 'calendar' not in f and 'calendar_dates' not in f:
      self.rep('MissingFile', ERR, 'calendar', None, None, None)
    # calendars
    services = {}
    for n, d in self.rows('calendar'):
      if d[u'service_id'] in services:
        self.rep('DuplicateID', ERR, 'calendar', n, 'service_id',
                 d[u'service_id'])
      else:
        services[d[u'service_id']] = True
        self.keep('calendar', d)
    dates = {}
    for n, d in self.rows('calendar_dates'):
      services[d[u'service_id']] = True
      k = (d[u'service_id'], d[u'date'])
      if k in dates:
        self.rep('DuplicateID', WARN, 'calendar_dates', n,
                 '(service_id, date)', u'(%s, %s)' % k)
      dates[k] = d
    for d in dates.values():
      self.keep('calendar_dates', d)
    # shapes
    shapes = {}
    for n, d in self.rows('shapes'):
      seqs = shapes.setdefault(d[u'shape_id'], set())
      q = int(d[u'shape_pt_sequence'])
      if q in seqs:
        self.rep('InvalidValue', ERR, 'shapes', n, 'shape_pt_sequence',
                 uni(q))
      seqs.add(q)
      self.keep('shapes', d)
    # agencies
    agencies = set()
    for n, d in self.rows('agency'):
      if d[u'agency_id'] in agencies:
        self.rep('DuplicateID', ERR, 'agency', n, 'agency_id', d[u'agency_id'])
      else:
        agencies.add(d[u'agency_id'])
        self.keep('agency', d)
    # stops
    stops = {}
    zones = set()
    for n, d in self.rows('stops'):
      if d[u'stop_id'] in stops:
        self.rep('DuplicateID', ERR, 'stops', n, 'stop_id', d[u'stop_id'])
      else:
        stops[d[u'stop_id']] = d
        self.keep('stops', d)
        if d.get(u'zone_id'):
          zones.add(d[u'zone_id'])
    # routes
    routes = set()
    for n, d in self.rows('routes'):
      a = d.get(u'agency_id')
      if d[u'route_id'] in routes:
        self.rep('DuplicateID', ERR, 'routes', n, 'route_id', d[u'route_id'])
      elif a not in agencies and not (not a and len(agencies) == 1):
        self.rep('InvalidValue', ERR, 'routes', n, 'agency_id', a)
      else:
        routes.add(d[u'route_id'])
        self.keep('routes', d)
    # transfers
    seen = set()
    for n, d in self.rows('transfers'):
      k = (d[u'from_stop_id'], d[u'to_stop_id'])
      if k in seen:
        self.rep('DuplicateID', WARN, 'transfers', n,
                 '(from_stop_id, to_stop_id)', u'(%s, %s)' % k)
      seen.add(k)
      self.keep('transfers', d)
      for c in (u'from_stop_id', u'to_stop_id'):
        if d[c] not in stops:
          self.rep('InvalidValue', ERR, 'transfers', n, u8(c), d[c])
    # trips
    trips = {}
    for n, d in self.rows('trips'):
      if d[u'trip_id'] in trips:
        self.rep('DuplicateID', ERR, 'trips', n, 'trip_id', d[u'trip_id'])
        continue
      trips[d[u'trip_id']] = d
      self.keep('trips', d)
      for c, known in ((u'route_id', routes), (u'service_id', services),
                       (u'shape_id', shapes)):
        if d.get(c) and d[c] not in known:
          self.rep('InvalidValue', ERR, 'trips', n, u8(c), d[c])
    # fares
    fares = {}
    for n, d in self.rows('fare_attributes'):
      if d[u'fare_id'] in fares:
        self.rep('DuplicateID', ERR, 'fare_attributes', n, 'fare_id',
                 d[u'fare_id'])
      else:
        fares[d[u'fare_id']] = d
        self.keep('fare_attributes', d)
    for n, d in self.rows('fare_rules'):
      for c, known in ((u'route_id', routes), (u'origin_id', zones),
                       (u'destination_id', zones), (u'contains_id', zones)):
        if d.get(c) and d[c] not in known:
          self.rep('InvalidValue', ERR, 'fare_rules', n, u8(c), d[c])
      if d[u'fare_id'] in fares:
        self.keep('fare_rules', d)
      else:
        self.rep('InvalidValue', ERR, 'fare_rules', n, 'fare_id',
                 d[u'fare_id'])
    # frequencies
    freq = set()
    for n, d in self.rows('frequencies'):
      if d[u'trip_id'] in trips:
        freq.add(d[u'trip_id'])
        self.keep('frequencies', d)
      else:
        self.rep('InvalidValue', ERR, 'frequencies', n, 'trip_id',
                 d[u'trip_id'])
    for n, d in self.rows('feed_info'):
      self.keep('feed_info', d)
    # stop times
    visits = {}
    used = set()
    for n, d in self.rows('stop_times'):
      if d[u'stop_id'] not in stops:
        self.rep('InvalidValue', ERR, 'stop_times', n, 'stop_id',
                 d[u'stop_id'])
      elif d[u'trip_id'] not in trips:
        self.rep('InvalidValue', ERR, 'stop_times', n, 'trip_id',
                 d[u'trip_id'])
      else:
        used.add(d[u'stop_id'])
        visits.setdefault(d[u'trip_id'], []).append(d)
        self.keep('stop_times', d)
    # whole-schedule checks
    for sid, d in sorted(stops.items()):
      lt = d.get(u'location_type') or u'0'
      if lt == u'0' and sid not in used:
        self.rep('UnusedStop', WARN, None, None, None, None,
                 u'(ID %s)' % sid)
      if lt == u'1' and sid in used:
        self.rep('UsedStation', ERR, None, None, None, None,
                 u'(ID %s)' % sid)
      p = d.get(u'parent_station')
      if p and lt != u'1':
        if p not in stops:
          self.rep('InvalidValue', ERR, None, None, 'parent_station', p,
                   u"'%s'" % sid)
        elif (stops[p].get(u'location_type') or u'0') != u'1':
          self.rep('InvalidValue', ERR, None, None, 'parent_station', p,
                   u'must have location_type=1')
      elif p:
        # the row itself and the whole-schedule pass both say so
        self.rep('InvalidValue', ERR, None, None, 'parent_station', p,
                 u'must not have a parent_station')
    for tid in sorted(trips):
      v = visits.get(tid, [])
      if not v:
        self.rep('OtherProblem', WARN, None, None, None, None,
                 u'The trip with the trip_id "%s" doesn\'t have any stop '
                 u'times' % tid)
        if tid in freq:
          self.rep('OtherProblem', ERR, None, None, None, None,
                   u'Frequencies defined, but no stop times given in trip %s'
                   % tid)
      elif len(v) == 1:
        self.rep('OtherProblem', WARN, None, None, None, None,
                 u'The trip with the trip_id "%s" only has one stop' % tid)
      else:
        seqs = [int(d[u'stop_sequence']) for d in v]
        for q in sorted(set(seqs)):
          if seqs.count(q) > 1:
            self.rep('InvalidValue', ERR, None, None, 'stop_sequence', uni(q),
                     u'trip_id %s' % tid)
        v = sorted(v, key=lambda d: int(d[u'stop_sequence']))
        if not v[0][u'arrival_time']:
          self.rep('InvalidValue', ERR, None, None, 'departure_time', u'',
                   u'trip %s ' % tid)
        if not v[-1][u'arrival_time']:
          self.rep('InvalidValue', ERR, None, None, 'arrival_time', u'',
                   u'trip %s ' % tid)
    unused = set(shapes) - set(d.get(u'shape_id') for d in trips.values())
    if unused:
      self.rep('OtherProblem', WARN, None, None, None, None,
               u"The shapes with the following shape_ids aren't used by any "
               u'trips: %s' % u', '.join(sorted(unused)))


# problems that may follow from the faults without being about identity
def secondary(i, ops):
  tables = set(o[1] for o in ops)
  t = i['text']
  if i['cls'] in ('ExpirationDate', 'FutureService', 'NoServiceExceptions'):
    return bool(tables & set(['calendar', 'calendar_dates']))
  if i['cls'] == 'OtherProblem':
    if 'no effective service dates' in t or \
        "doesn't have service on any days" in t:
      return bool(tables & set(['calendar', 'calendar_dates']))
    if 'Timetravel' in t or 'is larger than the max shape_dist' in t:
      return bool(tables & set(['stop_times', 'shapes', 'trips', 'stops']))
    if 'overlapping headway' in t:
      return 'frequencies' in tables
  if i['cls'] in ('TooFastTravel', 'StopTooFarFromShapeWithDistTraveled',
                  'OverlappingTripsInSameBlock', 'StopTooFarFromParentStation',
                  'StopWithMultipleRouteTypes', 'TransferDistanceTooBig',
                  'TransferWalkingSpeedTooFast'):
    return bool(tables & set(['stop_times', 'shapes', 'stops', 'trips',
                              'transfers', 'calendar', 'calendar_dates']))
  if i['cls'] == 'InvalidValue' and i['col'] in (
      'stoptimes.shape_dist_traveled', 'shape_dist_traveled'):
    return bool(tables & set(['stop_times', 'shapes']))
  if i['cls'] == 'InvalidValue' and i['col'] == 'stop_timezone':
    return 'stops' in tables
  if i['cls'] in ('UnrecognizedColumn', 'InvalidLineEnd'):
    return False
  return False


def hit(m, i):
  cls, typ, f, row, col, value, text = m
  if i['cls'] != cls or i['type'] != typ:
    return False
  if f is not None and i['file'] != f:
    return False
  if row is not None and i['row'] != row:
    return False
  if col is not None and i['col'] != col:
    return False
  if value is not None and (i['value'] or '') != u8(value):
    return False
  if f is not None and cls in ('InvalidValue', 'DuplicateID') and \
      col != 'parent_station' and (i['file'] != f or i['row'] != row):
    return False
  return u8(text) in i['text']


def run(trace, ctx):
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  feed = model.copy_feed(trace['feed'])
  for op in trace['ops']:
    apply_op(feed, op, ctx)
  m = Model(feed)
  with w:
    path = '/sim/in' if trace['dir'] else '/sim/in.zip'
    drive.put_feed(w, feed, path)
    rec = drive.Recorder()
    if trace['own']:
      # into a schedule which reports to somebody else by default
      other = drive.Recorder()
      s = transitfeed.Schedule(
          problem_reporter=transitfeed.ProblemReporter(other),
          memory_db=trace['memory_db'])
      drive.load(w, path, rec=rec, schedule=s)
      ctx.check(not other.items, 'reported-to-the-wrong-reporter',
                lambda: canon([i['text'] for i in other.items]))
      ctx.probe('own_schedule')
    else:
      s, rec = drive.load(w, path, memory_db=trace['memory_db'], rec=rec)
    simdictify(s, trace['salt'])
    s.Validate(transitfeed.ProblemReporter(rec))
    items = rec.bad()
    for x in m.must:
      ok = any(hit(x, i) for i in items)
      ctx.check(ok, 'not-reported:%s' % x[0],
                lambda: canon([x, [(i['cls'], i['file'], i['row'], i['col'],
                                    i['value'], i['text'][:120])
                                   for i in items][:12]]))
      ctx.probe('reported_' + x[0])
    for i in items:
      ok = any(hit(x, i) for x in m.must) or secondary(i, trace['ops'])
      ctx.check(ok, 'false-alarm:%s' % i['cls'],
                lambda: canon([i['cls'], i['file'], i['row'], i['col'],
                               i['value'], i['text'], trace['ops']]))
    out = {}
    for t, ds in m.out.items():
      cols = sorted(set(c for d in ds for c in d))
      out[t] = {'cols': cols,
                'rows': [[d.get(c, u'') for c in cols] for d in ds]}
    d = model.diff_meaning(model.meaning(out), drive.loaded_meaning(s))
    ctx.check(d is None, 'wrong-survivors:%s' % (d and d[0]),
              lambda: canon(d))
    if trace['ops']:
      ctx.probe('survivors_checked')
    if not m.must and not trace['ops']:
      ctx.probe('clean_feed')
    ctx.ev('items', sorted([i['cls'], i['file'], i['row'], i['col']]
                           for i in items))
    ctx.sig = canon([sorted(m.must), trace['ops']])
