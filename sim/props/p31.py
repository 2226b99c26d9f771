# -*- coding: utf-8 -*-
"""Records at odds with themselves or with each other.

Names against names, colours against colours, dates against dates, times
against times, languages and ids across tables: a feed is loaded, validated,
edited, validated again, saved and read by another process; each time exactly
the records which contradict themselves or one another are reported, with the
file and row they came from.
"""
import zipfile

import model
from core import Rng, canon, u8, uni
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('ops', 'routes', 'stops', 'agencies', 'periods', 'trips')
SHRINK_KEYS = ()
E, W = 0, 1
BASES = [u'10', u'N1', u'Express', u'caf\xe9', u'123456', u'1234567', u'a(b',
         u'A B', u'x', u'Line-2']
COLORS = [u'', u'', u'000000', u'FFFFFF', u'ffffff', u'FF0000', u'00FF00',
          u'0000FF', u'808080', u'484848', u'494949', u'484949', u'494a48',
          u'B6B6B6', u'B7B7B7', u'F9F900', u'00007C', u'7C7C00', u'b6b6b7']
LANGS = [u'', u'en', u'en', u'de', u'fr']
ZONE = u'America/Los_Angeles'


def gen_name(rng):
  b = rng.choice(BASES)
  return rng.choice([b, b, b.upper(), b.lower(), b + u' North', b + u'(x)',
                     b + u'-x', b + u'x', b + u'  y', u'To ' + b, b + u'_', u'',
                     b[:-1], u'Other'])


def gen_route(rng, na):
  short, long_ = gen_name(rng), gen_name(rng)
  if rng.chance(60):
    b = rng.choice(BASES)
    short = rng.choice([b, b.upper(), b, u''])
    long_ = rng.choice([b, b.lower(), b + u' y', b + u'-y', b + u'(y', b + u'y',
                        u'', b + u'.'])
  return {'short': short, 'long': long_,
          'desc': rng.choice([u'', u'', u'Text', short, long_, short.upper(),
                              long_.lower(), short + u' ' + long_]),
          'color': rng.choice(COLORS), 'text': rng.choice(COLORS),
          'agency': rng.weighted([(rng.below(na), 8), (None, 2),
                                  ('nowhere', 1)])}


def gen_stop(rng, ns):
  n = rng.choice([u'Main St', u'caf\xe9', u'A', u'Stop'])
  return {'name': n,
          'desc': rng.choice([u'', n, n.upper(), n.lower(), n + u'.', u'Text']),
          'at': rng.choice([[35.5, 20.25], [0.5, 0.5], [-0.99, 0.99],
                            [1.0, 0.5], [0.5, 1.0], [0.99, -1.5], [0.0, 0.0],
                            [-1.0, -1.0], [0.0, 179.5], [60.5, 0.25],
                            [-0.25, -0.999]]),
          'type': rng.weighted([(0, 6), (1, 3)]),
          'parent': rng.weighted([(None, 5), (rng.below(ns), 4)]),
          'zone': rng.chance(35)}


def gen_period(rng):
  a = rng.below(200)
  return {'cal': rng.chance(80),
          'days': [rng.chance(12) for _ in range(7)] if rng.chance(80) else
                  [True] * 7,
          'start': a, 'end': a + rng.choice([-1, 0, 1, 100, -30, 150]),
          'exc': [[rng.below(300), rng.choice([1, 2, 2])]
                  for _ in range(rng.weighted([(0, 5), (1, 4), (3, 2)]))]}


def gen_times(rng):
  out, t = [], 21600
  for _ in range(rng.between(1, 5)):
    t += 600
    a, d = rng.weighted([((t, t), 6), ((t, t + 60), 3), ((t, t - 1), 2),
                         ((None, None), 5), ((t, None), 2), ((None, t), 2),
                         ((t + 300, t), 1)])
    out.append([a, d, rng.choice([None, 0, 1, 1, 2]),
                rng.choice([None, 0, 1, 1, 3])])
  return out


def gen_feed_info(rng):
  a = rng.below(300)
  return rng.choice([None, {
      'lang': rng.choice(LANGS[1:]), 'start': rng.choice([None, a]),
      'end': rng.choice([None, a - 1, a, a + 1, a - 100])}])


def gen(rng, tier, index):
  na = rng.weighted([(1, 4), (2, 4), (3, 1)])
  ns = rng.between(1, 5)
  agencies = [[True, rng.choice(LANGS)] for _ in range(na)]
  if rng.chance(35):
    rng.choice(agencies)[0] = False
  ops = []
  for _ in range(rng.between(0, 7)):
    ops.append(rng.weighted([
        (['route', rng.below(9), rng.choice(['short', 'long', 'desc', 'color',
                                             'text', 'agency']),
          gen_route(rng, na), rng.below(4)], 8),
        (['stop', rng.below(9), rng.choice(['name', 'desc', 'at', 'zone']),
          gen_stop(rng, ns), rng.below(4)], 5),
        (['times', rng.below(3), gen_times(rng)], 2),
        (['lang', rng.below(3), rng.choice(LANGS)], 2),
        (['info', rng.choice(LANGS[1:])], 1),
        (['day', rng.below(4), rng.below(7), rng.chance(40)], 2),
        (['date', rng.below(4), rng.below(300), rng.choice([1, 2])], 2),
        (['nodate', rng.below(4)], 1),
        (['reload', rng.below(1000)], 5)]))
  return {'agencies': agencies,
          'routes': [gen_route(rng, na) for _ in range(rng.between(1, 5))],
          'stops': [gen_stop(rng, ns) for _ in range(ns)],
          'periods': [gen_period(rng) for _ in range(rng.between(1, 4))],
          'trips': [gen_times(rng) for _ in range(rng.between(0, 3))],
          'info': gen_feed_info(rng), 'ops': ops, 'salt': rng.below(1000),
          'children': rng.chance(65), 'extra': rng.chance(30),
          'shuffle': rng.below(1000), 'db': rng.chance(80),
          'dir': rng.chance(30)}


def day(n):
  import datetime
  return uni((datetime.date(2014, 5, 1) +
              datetime.timedelta(n)).strftime('%Y%m%d'))


def lum(c, default):
  """A thousand times the brightness, a whole number."""
  c = c or default
  return 299 * int(c[0:2], 16) + 587 * int(c[2:4], 16) + 114 * int(c[4:6], 16)


class State(object):
  def __init__(self, t):
    self.info = t['info'] and dict(t['info'])
    self.agencies = [list(a) for a in t['agencies']]
    self.routes = dict(('R%d' % i, dict(r, agency=self.aid(r['agency'])))
                       for i, r in enumerate(t['routes']))
    self.stops = [dict(s) for s in t['stops']]
    n = len(self.stops)
    for i, s in enumerate(self.stops):
      p = s['parent']
      # places hang below stations
      if p is not None and (p % n == i or t['stops'][p % n]['type'] != 1):
        p = None
      s['parent'] = None if p is None else p % n
    self.periods = [dict(p, exc=[list(x) for x in p['exc']],
                         days=list(p['days'])) for p in t['periods']]
    for p in self.periods:
      seen = {}
      for d, typ in p['exc']:
        seen.setdefault(d, typ)
      p['exc'] = sorted(seen.items())
      if not p['cal'] and not p['exc']:
        p['cal'] = True
    self.trips = [[list(x) for x in calls] for calls in t['trips']]

  def aid(self, a):
    """Text of the agency_id cell for a choice of agency."""
    if a is None:
      return u''
    if a == 'nowhere':
      return u'nowhere'
    a %= len(self.agencies)
    return u'A%d' % a if self.agencies[a][0] else u''

  def ids(self):
    return [u'A%d' % i if has else u'' for i, (has, _) in
            enumerate(self.agencies)]

  def known(self, r):
    return r['agency'] in self.ids() or (not r['agency'] and
                                         len(self.agencies) == 1)

  def feed(self):
    f = {}
    t = f['agency'] = model.new_table(
        [u'agency_id', u'agency_name', u'agency_url', u'agency_timezone',
         u'agency_lang'])
    for i, (has, lang) in enumerate(self.agencies):
      t['rows'].append([u'A%d' % i if has else u'', u'Agency %d' % i,
                        u'http://a.example.com', ZONE, lang])
    if self.info:
      t = f['feed_info'] = model.new_table(
          [u'feed_publisher_name', u'feed_publisher_url', u'feed_lang',
           u'feed_start_date', u'feed_end_date'])
      t['rows'].append([u'P', u'http://p.example.com', self.info['lang']] + [
          u'' if self.info[k] is None else day(self.info[k])
          for k in ('start', 'end')])
    t = f['routes'] = model.new_table(
        [u'route_id', u'agency_id', u'route_short_name', u'route_long_name',
         u'route_desc', u'route_type', u'route_color', u'route_text_color'])
    # the route of the trips has nothing wrong
    t['rows'].append([u'RT', self.ids()[0], u'T', u'Trips', u'', u'3', u'',
                      u''])
    for k in sorted(self.routes):
      r = self.routes[k]
      t['rows'].append([uni(k), r['agency'], r['short'], r['long'], r['desc'],
                        u'3', r['color'], r['text']])
    t = f['stops'] = model.new_table(
        [u'stop_id', u'stop_name', u'stop_desc', u'stop_lat', u'stop_lon',
         u'location_type', u'parent_station', u'stop_timezone'])
    for i, s in enumerate(self.stops):
      t['rows'].append([u'S%d' % i, s['name'], s['desc'], uni(repr(s['at'][0])),
                        uni(repr(s['at'][1])), uni(str(s['type'])),
                        self.pid(s), ZONE if s['zone'] else u''])
    t = f['calendar'] = model.new_table(
        [u'service_id'] + list(model.DAYS) + [u'start_date', u'end_date'])
    x = f['calendar_dates'] = model.new_table(
        [u'service_id', u'date', u'exception_type'])
    for i, p in enumerate(self.periods):
      if p['cal']:
        t['rows'].append([u'C%d' % i] + [u'1' if d else u'0'
                                         for d in p['days']] +
                         [day(p['start']), day(p['end'])])
      for d, typ in p['exc']:
        x['rows'].append([u'C%d' % i, day(d), uni(str(typ))])
    t = f['trips'] = model.new_table([u'route_id', u'service_id', u'trip_id'])
    st = f['stop_times'] = model.new_table(
        [u'trip_id', u'arrival_time', u'departure_time', u'stop_id',
         u'stop_sequence', u'pickup_type', u'drop_off_type'])
    for i, calls in enumerate(self.trips):
      t['rows'].append([u'RT', u'C0', u'T%d' % i])
      for k, (a, d, pu, do) in enumerate(calls):
        st['rows'].append([u'T%d' % i] +
                          [u'' if v is None else model.hms(v) for v in (a, d)] +
                          [u'S%d' % (k % len(self.stops)), uni(str(k + 1))] +
                          [u'' if v is None else uni(str(v))
                           for v in (pu, do)])
    return f

  @staticmethod
  def pid(s):
    return u'' if s['parent'] is None else u'S%d' % s['parent']

  # -- what must be said: [(class, type, column, value, (file, key))]

  def route_rules(self):
    out = []
    inv = 'InvalidValue'
    for k, r in self.routes.items():
      me = ('routes.txt', (u8(k),))
      s, l = r['short'], r['long']
      if not s.strip() and not l.strip():
        out.append((inv, E, 'route_short_name', s, me))
      if len(s) > 6:
        out.append((inv, W, 'route_short_name', s, me))
      a, b = s.strip().lower(), l.strip().lower()
      if a and b:
        if b == a:
          out.append((inv, W, 'route_long_name', l, me))
        if b.startswith(a) and b[len(a):len(a) + 1] in (' ', '(', '-') and \
            len(b) > len(a):
          out.append((inv, W, 'route_long_name', l, me))
      if r['desc'] and r['desc'] in (s, l):
        out.append((inv, E, 'route_desc', r['desc'], me))
      if abs(lum(r['color'], 'ffffff') - lum(r['text'], '000000')) * 7 < 510000:
        out.append((inv, W, 'route_color', r['color'], me))
    return out

  def stop_rules(self):
    out = []
    inv = 'InvalidValue'
    for i, s in enumerate(self.stops):
      me = ('stops.txt', ('S%d' % i,))
      if abs(s['at'][0]) < 1 and abs(s['at'][1]) < 1:
        out.append((inv, W, 'stop_lat', uni(s['at'][0]), me))
      if s['desc'] and s['desc'].strip().lower() == s['name'].strip().lower():
        out.append((inv, W, 'stop_desc', s['desc'], me))
      if s['type'] == 1 and s['parent'] is not None:
        out.append((inv, E, 'parent_station', self.pid(s), me))
      if s['zone'] and s['parent'] is not None:
        out.append((inv, W, 'stop_timezone', ZONE, me))
    return out

  def time_rules(self):
    out = []
    for i, calls in enumerate(self.trips):
      for k, (a, d, pu, do) in enumerate(calls):
        me = ('stop_times.txt', ('T%d' % i, str(k + 1)))
        if a is None and d is None and pu == 1 and do == 1:
          out.append(('OtherProblem', W, 'no purpose', u'', me))
        if a is not None and d is not None and d < a:
          out.append(('InvalidValue', E, 'departure_time', model.hms(d), me))
        if a is None and d is not None:
          out.append(('MissingValue', E, 'arrival_time', u'', me))
        if d is None and a is not None:
          out.append(('MissingValue', E, 'departure_time', u'', me))
    return out

  def strip(self):
    """Files hold no space around values."""
    for d in list(self.routes.values()) + self.stops:
      for k, v in d.items():
        if isinstance(v, unicode):
          d[k] = v.strip()

  def load_rules(self):
    self.strip()
    out = self.route_rules() + self.stop_rules() + self.time_rules()
    for k, r in self.routes.items():
      if not self.known(r):
        out.append(('InvalidValue', E, 'agency_id', r['agency'],
                    ('routes.txt', (u8(k),))))
    for i, p in enumerate(self.periods):
      me = ('calendar.txt' if p['cal'] else 'calendar_dates.txt', ('C%d' % i,))
      if p['cal'] and p['end'] < p['start']:
        out.append(('InvalidValue', E, 'end_date', day(p['end']), me))
      if not (p['cal'] and any(p['days'])) and \
          not any(t == 1 for _, t in p['exc']):
        out.append(('OtherProblem', W, 'no weekday', u'C%d' % i, me))
    f = self.info
    if f and f['start'] is not None and f['end'] is not None and \
        f['end'] < f['start']:
      out.append(('InvalidValue', E, 'feed_end_date', day(f['end']),
                  ('feed_info.txt', (u'P',))))
    return out

  def validate_rules(self, children):
    """-> [rule], [rules about stop times, which may be repeated]."""
    out = []
    if children:
      out += self.route_rules() + self.stop_rules()
    if self.info:
      for _, lang in self.agencies:
        if lang and lang != self.info['lang']:
          out.append(('InvalidValue', E, 'feed_lang', self.info['lang'], None))
    if len(self.agencies) > 1:
      for i, (has, _) in enumerate(self.agencies):
        if not has:
          out.append(('OtherProblem', E, 'no id', u'Agency %d' % i, None))
    for k, r in self.routes.items():
      if r['agency'] and r['agency'] not in self.ids():
        out.append(('InvalidAgencyID', E, 'agency_id', r['agency'], None))
    for i, calls in enumerate(self.trips):
      for what, c in (('departure', calls[:1]), ('arrival', calls[-1:])):
        if len(calls) > 1 and c[0][0] is None and c[0][1] is None:
          out.append(('InvalidValue', E, what + '_time', u'', None))
    return [x[:4] for x in out], [x[:4] for x in self.time_rules()]


COLS = ['route_short_name', 'route_long_name', 'route_desc', 'route_color',
        'agency_id', 'stop_lat', 'stop_desc', 'parent_station',
        'stop_timezone', 'departure_time', 'arrival_time', 'end_date',
        'feed_end_date', 'feed_lang']
TEXTS = [('serves no purpose', 'no purpose', None),
         ("service on any days", 'no weekday', 'service_id "'),
         ('does not have an ID', 'no id', 'Agency "')]


def reported(rec):
  """[(class, type, what, value, (file, row))]"""
  out = []
  for i in rec.items:
    text = uni(i['text'])
    at = (i['file'], i['row'])
    if i['col'] in COLS and i['cls'] in ('InvalidValue', 'MissingValue',
                                         'InvalidAgencyID'):
      if 'The same combination' in text:
        continue
      out.append((i['cls'], i['type'], i['col'], uni(i['value'] or u''), at))
    elif i['cls'] == 'OtherProblem':
      for words, what, quote in TEXTS:
        if words in text:
          v = text.split(quote, 1)[1].split('"', 1)[0] if quote else u''
          out.append((i['cls'], i['type'], what, v, at))
  return out


def rows_of(files):
  """{(file, key): row number}, first row with that key."""
  keys = {'routes.txt': ['route_id'], 'stops.txt': ['stop_id'],
          'calendar.txt': ['service_id'], 'calendar_dates.txt': ['service_id'],
          'stop_times.txt': ['trip_id', 'stop_sequence'],
          'feed_info.txt': ['feed_publisher_name']}
  out = {}
  for name, data in files.items():
    rows = model.parse_csv(data)
    if name not in keys or not rows:
      continue
    cols = [rows[0].index(uni(c)) for c in keys[name]]
    for n, r in enumerate(rows[1:]):
      out.setdefault((name, tuple(u8(r[c]) for c in cols)), n + 2)
  return out


def compare(ctx, where, want, got, repeated=()):
  left = list(want)
  for g in sorted(got):
    if g in repeated:
      continue
    ctx.check(g in left, 'unjustified:%s:%s' % (where, g[2]),
              lambda: canon([g, [x for x in want if x[2] == g[2]]]))
    left.remove(g)
    ctx.probe('%s:%s:%d' % (where, g[2], g[1]))
  for x in left:
    ctx.check(False, 'unreported:%s:%s' % (where, x[2]),
              lambda: canon([x, [g for g in got if g[2] == x[2]]]))
  for x in repeated:
    ctx.check(x in got, 'unreported:%s:%s' % (where, x[2]),
              lambda: canon([x, [g for g in got if g[2] == x[2]]]))
    ctx.probe('%s:%s:%d' % (where, x[2], x[1]))
  ctx.steps += 1


def load(ctx, w, trace, path, st, files, salt):
  rec = drive.Recorder()
  s, rec = drive.load(w, path, extra=trace['extra'], rec=rec,
                      memory_db=trace['db'])
  row = rows_of(files)
  want = []
  for cls, typ, what, v, (name, key) in st.load_rules():
    want.append((cls, typ, what, uni(v), (name, row[(name, key)])))
  got = reported(rec)
  for k, r in list(st.routes.items()):
    if not st.known(r):
      del st.routes[k]
      ctx.probe('route_left_out')
  again, times = [], []
  if trace['extra']:
    again, times = st.validate_rules(False)
    again = [x + ((None, None),) for x in again]
    times = [x + ((None, None),) for x in times]
    ctx.probe('extra')
  compare(ctx, 'load', want + again, got, times)
  simdictify(s, salt)
  return s


def validate(ctx, s, trace, st):
  pr, rec = drive.reporter()
  s.Validate(pr, validate_children=trace['children'])
  want, times = st.validate_rules(trace['children'])
  got = [x[:4] for x in reported(rec)]
  compare(ctx, 'validate', want, got, times)


def run(trace, ctx):
  if not trace['agencies'] or not trace['stops'] or not trace['periods']:
    return
  st = State(trace)
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  with w:
    path = '/sim/a' if trace['dir'] else '/sim/a.zip'
    feed = st.feed()
    r = Rng(trace['shuffle'])
    for name in sorted(feed):
      if trace['shuffle'] % 2 and name != 'stop_times':
        r.shuffle(feed[name]['rows'])
    files = drive.put_feed(w, feed, path)
    s = load(ctx, w, trace, path, st, files, trace['salt'])
    validate(ctx, s, trace, st)
    for op in trace['ops']:
      if op[0] == 'reload':
        s.WriteGoogleTransitFeed('/sim/b.zip')
        z = zipfile.ZipFile('/sim/b.zip')
        files = dict((n, z.read(n)) for n in z.namelist())
        z.close()
        s = load(ctx, w, trace, '/sim/b.zip', st, files, op[1])
      else:
        apply(s, st, op)
      validate(ctx, s, trace, st)
      ctx.probe('op_' + op[0])
  ctx.sig = canon([[o[0] for o in trace['ops']], len(st.stops),
                   sorted(k for k, n in ctx.probes.items() if ':' in k)])


FIELDS = {'short': 'route_short_name', 'long': 'route_long_name',
          'desc': 'route_desc', 'color': 'route_color',
          'text': 'route_text_color', 'agency': 'agency_id'}


def apply(s, st, op):
  k = op[0]
  if k == 'route':
    ids = sorted(st.routes)
    if not ids:
      return
    rid = ids[op[1] % len(ids)]
    v = op[3][op[2]]
    if op[2] == 'agency':
      v = st.aid(v)
    if op[4] == 2 and op[2] in ('short', 'long') and v:
      v = u' %s ' % v
    st.routes[rid][op[2]] = v
    setattr(s.GetRoute(rid), FIELDS[op[2]],
            None if v == u'' and op[4] == 1 else v)
  elif k == 'stop':
    i = op[1] % len(st.stops)
    stop, m = s.GetStop('S%d' % i), st.stops[i]
    m[op[2]] = v = op[3][op[2]]
    if op[2] == 'at':
      stop.stop_lat, stop.stop_lon = v
    elif op[2] == 'zone':
      stop.stop_timezone = ZONE if v else u''
    else:
      setattr(stop, 'stop_' + op[2], None if v == u'' and op[4] == 1 else v)
  elif k == 'times' and st.trips:
    i = op[1] % len(st.trips)
    trip = s.GetTrip('T%d' % i)
    trip.ClearStopTimes()
    st.trips[i] = [list(x) for x in op[2]]
    pr, rec = drive.reporter()
    for n, (a, d, pu, do) in enumerate(op[2]):
      trip.AddStopTimeObject(transitfeed.StopTime(
          pr, s.GetStop('S%d' % (n % len(st.stops))),
          arrival_time=a if a is None else u8(model.hms(a)),
          departure_time=d if d is None else u8(model.hms(d)),
          pickup_type=pu, drop_off_type=do, stop_sequence=n + 1),
          problems=pr)
  elif k == 'lang':
    i = op[1] % len(st.agencies)
    st.agencies[i][1] = op[2]
    for a in s.GetAgencyList():
      if a.agency_name == u'Agency %d' % i:
        a.agency_lang = op[2]
  elif k == 'info' and st.info:
    st.info['lang'] = s.feed_info.feed_lang = op[1]
  elif k in ('day', 'date', 'nodate'):
    i = op[1] % len(st.periods)
    p, m = s.GetServicePeriod('C%d' % i), st.periods[i]
    if k == 'day' and m['cal']:
      m['days'][op[2]] = op[3]
      p.SetDayOfWeekHasService(op[2], op[3])
    elif k == 'date':
      m['exc'] = [x for x in m['exc'] if x[0] != op[2]] + [(op[2], op[3])]
      p.SetDateHasService(u8(day(op[2])), op[3] == 1)
    elif k == 'nodate' and len(m['exc']) > (0 if m['cal'] else 1):
      d = m['exc'].pop()
      p.ResetDateToNormalService(u8(day(d[0])))
