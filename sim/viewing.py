# -*- coding: utf-8 -*-
"""The schedule viewer as a whole process in the simulated world, and what it
should answer."""
import json
import os
import urllib

import model
from core import canon, uni, u8, HarnessError
from world import World, simdictify, REAL
import cli
import http
import drive
import BaseHTTPServer
import schedule_viewer
import location_editor
from props.p11 import dist

FILES = ['index.html', 'index.js', 'style.css', 'mm_20_blue.png',
         'svgcheck.vbs']
_cache = {}


def real_file(name):
  if name not in _cache:
    p = os.path.join(os.path.dirname(schedule_viewer.__file__),
                     'gtfsscheduleviewer', 'files', name)
    f = REAL['open'](p, 'rb')
    try:
      _cache[name] = f.read()
    finally:
      f.close()
  return _cache[name]


SECRET = 'SECRET-OUTSIDE-THE-FILE-DIR'


def install_files(w):
  w.fs.mkdir('/sim/files')
  for n in FILES:
    w.fs.put('/sim/files/' + n, real_file(n))
  w.fs.put('/sim/files/plain', 'no extension')
  w.fs.put('/sim/files/odd.zzq', 'unknown type')
  w.fs.mkdir('/sim/files/sub')
  w.fs.put('/sim/files/sub/inner.txt', 'inner')
  w.fs.put('/sim/secret.txt', SECRET)
  w.fs.put('/sim/secret', SECRET)


class Process(object):
  """One life of the server: started, served the script, interrupted."""

  def __init__(self):
    self.conns = []
    self.server = None
    self.before = self.after = None


def serve(ctx, w, script, feed_path, editor=False, salt=0, key=None, argv=(),
          bind_fault=False, watch=True, arrived=None,
          left=None):
  p = Process()
  cls = location_editor.LocationEditorRequestHandler if editor else \
      schedule_viewer.ScheduleRequestHandler

  class Handler(cls):
    def setup(self):
      if p.server is None:
        p.server = self.server
        simdictify(self.server.schedule, salt)
        if watch:
          p.before = drive.loaded_meaning(self.server.schedule)
      self.request.handler = self
      cls.setup(self)

    def handle(self):
      i = len(net.conns) - 1
      if arrived:
        arrived(i)
      try:
        cls.handle(self)
      finally:
        if left:
          w.finalise()
          left(i)

  args = ['viewer.py', '--file_dir', '/sim/files', '--feed_filename',
          feed_path]
  if key is not None:
    args += ['--key', key]
  args += list(argv)
  net = http.Net(ctx, w.clock, script, bind_fault)
  p.net = net
  with net:
    p.run = cli.run_main(w, lambda: schedule_viewer.main(Handler),
                         [u8(a) for a in args], handler=False)
  p.conns = net.conns
  if p.server is not None and watch:
    p.after = drive.loaded_meaning(p.server.schedule)
  w.finalise()
  return p


def quote(s):
  return urllib.quote(u8(s), '')


def url(path, params):
  return path + '?' + '&'.join('%s=%s' % (k, quote(uni(v)))
                               for k, v in params)


def request(target, method='GET', version='HTTP/1.0', headers=()):
  return '%s %s %s\r\n%s\r\n' % (method, u8(target).decode('latin-1'), version,
                                 ''.join('%s: %s\r\n' % h for h in headers))


class Model(object):
  """What the viewer should say about a feed."""

  def __init__(self, feed):
    self.feed = feed
    self.agencies = model.dicts(feed, 'agency')
    self.stops = model.dicts(feed, 'stops')
    self.stop = dict((d[u'stop_id'], d) for d in self.stops)
    self.routes = model.dicts(feed, 'routes')
    self.trips = model.dicts(feed, 'trips')
    self.times = {}
    for d in model.dicts(feed, 'stop_times'):
      self.times.setdefault(d[u'trip_id'], []).append(d)
    for v in self.times.values():
      v.sort(key=lambda d: int(d[u'stop_sequence']))
    self.cal = dict((d[u'service_id'], d) for d in
                    model.dicts(feed, 'calendar'))
    self.exc = {}
    for d in model.dicts(feed, 'calendar_dates'):
      self.exc[(d[u'service_id'], d[u'date'])] = d[u'exception_type']
    self.shapes = {}
    for d in model.dicts(feed, 'shapes'):
      self.shapes.setdefault(d[u'shape_id'], []).append(d)
    for v in self.shapes.values():
      v.sort(key=lambda d: int(d[u'shape_pt_sequence']))
    self.ndist = {}

  def pos(self, d):
    return float(d[u'stop_lat']), float(d[u'stop_lon'])

  def active(self, service, date):
    x = self.exc.get((service, uni(date)))
    if x is not None:
      return x == u'1'
    c = self.cal.get(service)
    if c is None:
      return False
    if not c[u'start_date'] <= uni(date) <= c[u'end_date']:
      return False
    return c[uni(model.DAYS[model.todate(date).weekday()])] == u'1'

  def start(self, trip_id):
    d = self.times[trip_id][0]
    return model.secs_of(d[u'arrival_time'])

  def pattern(self, trip_id):
    return tuple(d[u'stop_id'] for d in self.times.get(trip_id, ()))

  def patterns(self, route_id):
    out = {}
    for t in self.trips:
      if t[u'route_id'] == route_id:
        out.setdefault(self.pattern(t[u'trip_id']), []).append(t)
    return out

  def stop_tuple(self, stop_id):
    d = self.stop[stop_id]
    lt = d.get(u'location_type', u'') or u'0'
    return [d[u'stop_id'], d[u'stop_name'], float(d[u'stop_lat']),
            float(d[u'stop_lon']), lt]

  def interpolated(self, trip_id):
    """[(exact seconds, timed)]"""
    rows = self.times[trip_id]
    secs = []
    for d in rows:
      a, b = d[u'arrival_time'], d[u'departure_time']
      # time at a stop: arrival unless there is none
      secs.append(model.secs_of(a) if a else model.secs_of(b) if b else None)
    out = []
    for i, s in enumerate(secs):
      if s is not None:
        out.append((float(s), True))
        continue
      a = max(j for j in range(i) if secs[j] is not None)
      b = min(j for j in range(i, len(secs)) if secs[j] is not None)
      leg = [dist(self.pos(self.stop[rows[j][u'stop_id']]),
                  self.pos(self.stop[rows[j + 1][u'stop_id']]))
             for j in range(a, b)]
      total = sum(leg)
      f = sum(leg[:i - a]) / total if total else 0
      out.append((secs[a] + f * (secs[b] - secs[a]), False))
    return out

  def headsign(self, trip, index):
    for d in self.times[trip[u'trip_id']][index::-1]:
      if d.get(u'stop_headsign'):
        return d[u'stop_headsign']
    return trip.get(u'trip_headsign') or None

  def trip_name(self, trip, index):
    r = [r for r in self.routes if r[u'route_id'] == trip[u'route_id']][0]
    name = u' - '.join(x for x in (r.get(u'route_short_name'),
                                   r.get(u'route_long_name')) if x)
    h = self.headsign(trip, index)
    if h:
      name += u' (Direction: %s)' % h
    return name


def unjson(body):
  def bad(x):
    raise ValueError('not JSON: %s' % x)
  return json.loads(body, parse_constant=bad)


def loc(v):
  return u'0' if v in (None, u'', '') else uni(v)


def same_tuple(got, want):
  return isinstance(got, list) and len(got) == 5 and \
      got[0] == want[0] and got[1] == want[1] and \
      abs(got[2] - want[2]) < 1e-9 and abs(got[3] - want[3]) < 1e-9 and \
      loc(got[4]) == want[4]


def clean_row(d):
  return dict((k, uni(v)) for k, v in d.items() if uni(v) != u'')


def norm_row(table, d):
  out = {}
  for k, v in d.items():
    v = drive.clean(v)
    if v != u'':
      out[uni(k)] = model.norm_cell(table, k, v)
  return out


def target(m, q):
  """The address a query asks for."""
  k = q[0]
  pick = lambda l, i, n: l[i % len(l)][n]
  if k == 'home':
    return '/'
  if k == 'file':
    return '/file/' + q[1]
  if k == 'routes':
    return '/json/routes'
  if k == 'routerow':
    return url('/json/routerow', [('route', pick(m.routes, q[1],
                                                 u'route_id'))])
  if k == 'routepatterns':
    p = [('route', pick(m.routes, q[1], u'route_id'))]
    if q[2] is not None:
      p.append(('time', q[2]))
    if q[3] is not None:
      p.append(('date', q[3]))
    return url('/json/routepatterns', p)
  if k in ('triprows', 'tripstoptimes', 'tripshape'):
    return url('/json/' + k, [('trip', pick(m.trips, q[1], u'trip_id'))])
  if k == 'neareststops':
    return url('/json/neareststops', [('lat', repr(q[1])), ('lon', repr(q[2])),
                                      ('limit', q[3])])
  if k == 'boundboxstops':
    return url('/json/boundboxstops', zip('nesw', [repr(x) for x in q[1:5]]) +
               [('limit', q[5])])
  if k == 'stopsearch':
    return url('/json/stopsearch', [('q', q[1])])
  if k == 'stoptrips':
    p = [('stop', pick(m.stops, q[1], u'stop_id'))]
    if q[2] is not None:
      p.append(('time', q[2]))
    if q[3] is not None:
      p.append(('date', q[3]))
    return url('/json/stoptrips', p)
  if k == 'ttablegraph':
    p = [('trip', pick(m.trips, q[1], u'trip_id'))]
    if q[2] is not None:
      p.append(('height', q[2]))
    return url('/ttablegraph', p)
  raise HarnessError(k)


def gen_queries(rng, feed, n):
  m = Model(feed)
  dates = [None, None, u''] + [model.ymd(model.todate('20140501') +
                                         model.datetime.timedelta(d))
                               for d in range(0, 40)]
  out = []
  for _ in range(n):
    k = rng.weighted([('home', 1), ('file', 1), ('routes', 1), ('routerow', 1),
                      ('routepatterns', 4), ('triprows', 1),
                      ('tripstoptimes', 1), ('tripshape', 1),
                      ('neareststops', 3), ('boundboxstops', 3),
                      ('stopsearch', 2), ('stoptrips', 4),
                      ('ttablegraph', 3)])
    i = rng.below(1000)
    t = rng.choice([None, 0, 21600, rng.between(4 * 3600, 12 * 3600),
                    rng.between(0, 30 * 3600), 90000])
    if k == 'file':
      q = [k, rng.choice(FILES)]
    elif k in ('home', 'routes'):
      q = [k]
    elif k in ('routepatterns', 'stoptrips'):
      q = [k, i, t, rng.choice(dates)]
    elif k == 'neareststops':
      la, lo = m.pos(rng.choice(m.stops))
      q = [k, max(-90.0, min(90.0, la + rng.choice([0, 1, -1, 20]) *
                             rng.below(1000) / 1e5)),
           max(-180.0, min(180.0, lo + rng.choice([0, 1, -1, 300]) *
                           rng.below(1000) / 1e5)),
           rng.choice([1, 1, 2, 3, 5, 50])]
    elif k == 'boundboxstops':
      a, b = m.pos(rng.choice(m.stops)), m.pos(rng.choice(m.stops))
      e = rng.choice([0, 0.001, 1])
      q = [k, max(a[0], b[0]) + e, max(a[1], b[1]) + e,
           min(a[0], b[0]) - e, min(a[1], b[1]) - e,
           rng.choice([1, 2, 3, 5, 100])]
    elif k == 'stopsearch':
      s = rng.choice(m.stops)
      text = rng.choice([s[u'stop_id'], s[u'stop_name'], u'stop', u'S',
                         u'nothing like it', u'\xe9', u'', s[u'stop_name'].
                         upper()])
      a = rng.below(len(text) + 1)
      q = [k, text[a:a + rng.choice([1, 3, 20])]]
    elif k == 'ttablegraph':
      q = [k, i, rng.choice([None, 100, 300, 520])]
    else:
      q = [k, i]
    out.append(q)
  return out


def loops(rng, feed):
  """Some stop sequences come back to a stop they had already."""
  st = feed['stop_times']
  c = dict((n, model.col(st, n)) for n in (
      'trip_id', 'stop_id', 'stop_sequence', 'arrival_time', 'departure_time'))
  trips = {}
  for r in st['rows']:
    trips.setdefault(r[c['trip_id']], []).append(r)
  by_pattern = {}
  for rows in trips.values():
    rows.sort(key=lambda r: int(r[c['stop_sequence']]))
    by_pattern.setdefault(tuple(r[c['stop_id']] for r in rows),
                          []).append(rows)
  for p in sorted(by_pattern):
    if rng.chance(50):
      back = rng.below(max(1, len(p) - 1))
      for rows in sorted(by_pattern[p]):
        new = list(rows[back])
        new[c['stop_sequence']] = uni(str(
            int(rows[-1][c['stop_sequence']]) + 1))
        at = rows[-1][c['departure_time']] or rows[-1][c['arrival_time']]
        at = model.hms(model.secs_of(at) + 600) if at else u''
        new[c['arrival_time']] = new[c['departure_time']] = at
        if u'shape_dist_traveled' in st['cols']:
          new[model.col(st, 'shape_dist_traveled')] = u''
        st['rows'].insert(st['rows'].index(rows[-1]) + 1, new)


def gen_viewer_feed(rng):
  """Several trips per stop sequence; stops far apart or at one place; names
  with anything in them."""
  feed = model.gen_feed(rng, calm=True, stops=(2, 5), trips=(2, 14),
                        routes=(1, 3), untimed=30)
  r = rng.below(10)
  stops = feed['stops']
  if rng.chance(30):
    loops(rng, feed)
  ila, ilo = model.col(stops, 'stop_lat'), model.col(stops, 'stop_lon')
  if r < 2:      # everything at one place
    for row in stops['rows']:
      row[ila], row[ilo] = stops['rows'][0][ila], stops['rows'][0][ilo]
  elif r < 6:    # scattered
    la = rng.choice([0, 35, 60, 70, -75, 85])
    lo = rng.choice([0, 10, 179.9, -179.9, 100])
    for row in stops['rows']:
      row[ila] = u'%.6f' % (la + rng.between(-2000, 2000) / 1e3)
      x = lo + rng.between(-2000, 2000) / 1e3
      row[ilo] = u'%.6f' % (x - 360 if x > 180 else x + 360 if x < -180 else x)
  if rng.chance(30):
    t = feed['routes']
    i, j = model.col(t, 'route_short_name'), model.col(t, 'route_long_name')
    for row in t['rows']:
      k = rng.below(4)
      if k == 0:
        row[i] = u'10'
      elif k == 1:
        row[j] = u''
      elif k == 2 and row[j]:
        row[i] = u''
  if rng.chance(8):
    # words which mean something to the pages
    t = feed['agency']
    for row in t['rows']:
      row[model.col(t, 'agency_name')] = rng.choice(
          [u'Bus [key]', u'[min_lat] & Co', u'[agency]', u'%(agency)s', u'\\1',
           u'[host] <b>', u'{0}'])
  if rng.chance(30):
    t = feed['trips']
    t['cols'].append(u'trip_type')
    for row in t['rows']:
      row.append(rng.choice([u'', u'0', u'1']))
  return feed


# ---------------------------------------------------------------------------
# Checks
# ---------------------------------------------------------------------------
def check_answer(ctx, m, q, a, w):
  """a: http.Answer of query q"""
  d = lambda *x: (lambda: canon([q, a.status, a.headers, a.body[:3000]] +
                                list(x)))
  k = q[0]
  ctx.check(a.complete, 'no-answer:' + k, d())
  ctx.check(a.status == 200, 'status:%s:%s' % (k, a.status), d())
  ctx.check(a.headers.get('content-length') == '%d' % len(a.body),
            'content-length:' + k, d())
  ctx.check(a.headers.get('content-type'), 'content-type:' + k, d())
  ctx.probe(k)
  if k in ('home', 'file', 'ttablegraph'):
    globals()['check_' + k](ctx, m, q, a, d)
    return
  try:
    r = unjson(a.body)
  except ValueError:
    ctx.violate('not-json:' + k, d())
  globals()['check_' + k](ctx, m, q, r, d)


def check_home(ctx, m, q, a, d):
  ctx.check(a.headers['content-type'].startswith('text/html'), 'home-type',
            d())
  lat = [m.pos(s)[0] for s in m.stops]
  lon = [m.pos(s)[1] for s in m.stops]
  template = real_file('index.html')
  for name in ('[agency]', '[min_lat]', '[max_lon]', '[key]', '[host]',
               '[forbid_editing]'):
    if name in template and not any(uni(name) in x[u'agency_name']
                                    for x in m.agencies):
      ctx.check(name not in a.body, 'home-placeholder', d(name))
  text = uni(a.body)
  for x in m.agencies:
    n = x[u'agency_name']
    esc = n.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(
        u'>', u'&gt;')
    ctx.check(n in text or esc in text or esc.replace(u'"', u'&quot;') in text,
              'home-agency', d(n))
    if '<' in n:
      ctx.check(n not in text, 'home-markup', d(n))
  for v, ph in ((min(lat), '[min_lat]'), (min(lon), '[min_lon]'),
                (max(lat), '[max_lat]'), (max(lon), '[max_lon]')):
    if ph in template:
      ctx.check(str(v) in a.body or repr(v) in a.body, 'home-box', d(v))


def check_file(ctx, m, q, a, d):
  ctx.check(a.body == real_file(q[1]), 'file-content', d())


def check_routes(ctx, m, q, r, d):
  want = [[x[u'route_id'], x.get(u'route_short_name', u''),
           x.get(u'route_long_name', u'')] for x in m.routes]
  got = [[y if y is not None else u'' for y in x] for x in r]
  ctx.check(sorted(got) == sorted(want), 'routes', d(want))
  ctx.check([x[1:] for x in got] == sorted(x[1:] for x in got),
            'routes-order', d())


def check_routerow(ctx, m, q, r, d):
  x = m.routes[q[1] % len(m.routes)]
  ctx.check(isinstance(r, list) and len(r) == 2 and
            len(r[0]) == len(r[1]), 'routerow-shape', d())
  got = norm_row('routes', dict(zip(r[0], [u'' if v is None else v
                                           for v in r[1]])))
  want = dict((k, v) for k, v in norm_row('routes', x).items()
              if not k.startswith('x_') and k in got or
              k in ('route_id', 'route_short_name', 'route_long_name',
                    'route_type', 'agency_id', 'route_desc', 'route_url',
                    'route_color', 'route_text_color'))
  ctx.check(got == want, 'routerow', d(want))


def check_routepatterns(ctx, m, q, r, d):
  route = m.routes[q[1] % len(m.routes)][u'route_id']
  after, date = q[2] or 0, q[3]
  want = []
  for pat, trips in m.patterns(route).items():
    if not pat:
      continue
    run = [t for t in trips
           if not date or m.active(t[u'service_id'], date)]
    run.sort(key=lambda t: m.start(t[u'trip_id']))
    starts = [m.start(t[u'trip_id']) for t in run]
    n = len(run)
    i = len([s for s in starts if s < after])
    if n <= 3:
      i, left = 0, 0
    elif n - i < 3:
      i, left = n - 3, 0
    else:
      left = n - i - 3
    name = u'%s to %s, %d stops' % (m.stop[pat[0]][u'stop_name'],
                                    m.stop[pat[-1]][u'stop_name'], len(pat))
    odd = 0
    for t in run:
      if t.get(u'trip_type') not in (None, u'', u'0'):
        odd = 1
    want.append([name, i, [[s, None] for s in starts[i:i + 3]], left, odd,
                 [t[u'trip_id'] for t in run], pat])
    ctx.probe('pattern_n_%d' % min(n, 5))
  ctx.check(isinstance(r, list) and len(r) == len(want), 'patterns-count',
            d(want))
  ctx.check(len(set(x[1] for x in r)) == len(r), 'pattern-ids', d())
  rest = list(want)
  for name, pid, i, sample, left, odd in r:
    ids = [x[1] for x in sample]
    ctx.check(len(set(ids)) == len(ids), 'pattern-sample-twice', d())
    hit = None
    for x in rest:
      if [name, i, left, odd] == [x[0], x[1], x[3], x[4]] and \
          [s[0] for s in sample] == [s[0] for s in x[2]] and \
          all(t in x[5] and m.start(t) == s for s, t in sample):
        hit = x
        break
    ctx.check(hit is not None, 'pattern', d(name, want))
    rest.remove(hit)
  ctx.check([x[0] for x in r] == sorted(x[0] for x in r), 'patterns-order',
            d())


def check_triprows(ctx, m, q, r, d):
  t = m.trips[q[1] % len(m.trips)]
  route = [x for x in m.routes if x[u'route_id'] == t[u'route_id']][0]
  ctx.check(len(r) == 2 and r[0][0] == 'trips.txt' and
            r[1][0] == 'routes.txt', 'triprows-shape', d())
  ctx.check(norm_row('trips', r[0][1]) == norm_row('trips', t), 'trip-row',
            d(t))
  ctx.check(norm_row('routes', r[1][1]) == norm_row('routes', route),
            'route-row', d(route))


def check_tripstoptimes(ctx, m, q, r, d):
  rows = m.times[m.trips[q[1] % len(m.trips)][u'trip_id']]
  ctx.check(len(r) == 3 and len(r[0]) == len(rows) and
            all(same_tuple(x, m.stop_tuple(y[u'stop_id']))
                for x, y in zip(r[0], rows)), 'stoptimes-stops', d(rows))
  for i, c in ((1, u'arrival_time'), (2, u'departure_time')):
    ctx.check(r[i] == [model.secs_of(y[c]) if y[c] else None for y in rows],
              'stoptimes-times', d(rows))


def check_tripshape(ctx, m, q, r, d):
  t = m.trips[q[1] % len(m.trips)]
  if t.get(u'shape_id'):
    want = [[float(x[u'shape_pt_lat']), float(x[u'shape_pt_lon'])]
            for x in m.shapes[t[u'shape_id']]]
    ctx.probe('real_shape')
  else:
    want = [list(m.pos(m.stop[s])) for s in m.pattern(t[u'trip_id'])]
  ctx.check(len(r.get('points', ())) == len(want) and
            all(abs(x[0] - y[0]) < 1e-9 and abs(x[1] - y[1]) < 1e-9
                for x, y in zip(r['points'], want)), 'tripshape', d(want))
  route = [x for x in m.routes if x[u'route_id'] == t[u'route_id']][0]
  c = route.get(u'route_color')
  ctx.check(r.get('color') == (u'#' + c if c else None), 'tripshape-color',
            d(c))


def check_neareststops(ctx, m, q, r, d):
  at = (q[1], q[2])
  n = min(q[3], len(m.stops))
  ids = [x[0] for x in r]
  ctx.check(len(r) == n and len(set(ids)) == n, 'nearest-count', d(n))
  for x in r:
    ctx.check(x[0] in m.stop and same_tuple(x, m.stop_tuple(x[0])),
              'nearest-stop', d(x))
  far = [dist(at, m.pos(m.stop[i])) for i in ids]
  for a, b in zip(far, far[1:]):
    ctx.check(a <= b * 1.004 + 0.01, 'nearest-order', d(far))
  for s in m.stops:
    if s[u'stop_id'] not in ids:
      x = dist(at, m.pos(s))
      ctx.check(x * 1.004 + 0.01 >= far[-1], 'nearest-missed',
                d(s[u'stop_id'], x, far))
      ctx.probe('nearest_left_out')


def check_boundboxstops(ctx, m, q, r, d):
  inside = [s[u'stop_id'] for s in m.stops
            if q[3] <= m.pos(s)[0] <= q[1] and q[4] <= m.pos(s)[1] <= q[2]]
  ids = [x[0] for x in r]
  ctx.check(len(set(ids)) == len(ids) == min(len(inside), q[5]), 'box-count',
            d(inside))
  for x in r:
    ctx.check(x[0] in inside and same_tuple(x, m.stop_tuple(x[0])),
              'box-stop', d(inside))


def check_stopsearch(ctx, m, q, r, d):
  k = uni(q[1]).lower()
  want = [s[u'stop_id'] for s in m.stops if k in s[u'stop_id'].lower() or
          k in s[u'stop_name'].lower()]
  ctx.check(sorted(x[0] for x in r) == sorted(want), 'search', d(want))
  for x in r:
    ctx.check(same_tuple(x, m.stop_tuple(x[0])), 'search-stop', d(x))
  ctx.probe('search_hit' if want else 'search_miss')


def check_stoptrips(ctx, m, q, r, d):
  stop = m.stops[q[1] % len(m.stops)][u'stop_id']
  after, date = q[2] or 0, q[3]
  all_ = []
  for t in m.trips:
    if date and not m.active(t[u'service_id'], date):
      continue
    rows = m.times.get(t[u'trip_id'], ())
    for i, (x, row) in enumerate(zip(m.interpolated(t[u'trip_id']), rows)):
      if row[u'stop_id'] == stop:
        if not x[1] and abs(x[0] - int(x[0]) - 0.5) < 0.01:
          return      # rounds either way
        s = int(x[0] + 0.5)
        if s >= after:
          all_.append([s, t, i, x[1]])
  all_.sort(key=lambda x: x[0])
  ctx.probe('stoptrips_n_%d' % min(len(all_), 6))
  if date:
    ctx.probe('stoptrips_date')
  ctx.check([x[0] for x in r] == [x[0] for x in all_[:5]], 'stoptrips-times',
            d([[x[0], x[1][u'trip_id']] for x in all_]))
  rest = list(all_)
  for secs, (tid, name, sid), tp in r:
    hit = [x for x in rest if x[0] == secs and x[1][u'trip_id'] == tid and
           x[1][u'service_id'] == sid and m.trip_name(x[1], x[2]) == name and
           bool(tp) == x[3]]
    ctx.check(hit, 'stoptrips-trip',
              d([[x[0], x[1][u'trip_id'], m.trip_name(x[1], x[2]), x[3]]
                 for x in all_]))
    rest.remove(hit[0])


def check_ttablegraph(ctx, m, q, a, d):
  from xml.etree import ElementTree
  try:
    root = ElementTree.fromstring(a.body)
  except Exception as e:
    ctx.violate('graph-not-xml', d(e.__class__.__name__, uni(e)))
  trip = m.trips[q[1] % len(m.trips)]
  pat = m.pattern(trip[u'trip_id'])
  trips = m.patterns(trip[u'route_id'])[pat]
  ns = '{http://www.w3.org/2000/svg}'
  lines = [e for e in root.iter(ns + 'polyline') if e.get('class') == 'T']
  # white space in an attribute may be read as blanks
  flat = lambda s: u' '.join(uni(s).split())
  ids = dict((flat(t[u'trip_id']), t[u'trip_id']) for t in trips)
  ctx.check(sorted(flat(e.get('id')) for e in lines) == sorted(ids) and
            len(ids) == len(trips), 'graph-trips',
            lambda: canon([[e.get('id') for e in lines],
                           [t[u'trip_id'] for t in trips]]))
  height = q[2] if q[2] is not None else 300
  ys = {}
  off = None
  for e in lines:
    pts = [tuple(int(v) for v in p.split(','))
           for p in e.get('points').split()]
    want = []
    for i, row in enumerate(m.times[ids[flat(e.get('id'))]]):
      if row[u'arrival_time'] and row[u'departure_time']:
        for c in (u'arrival_time', u'departure_time'):
          want.append((model.secs_of(row[c]) // 60, i))
    ctx.check(len(pts) == len(want), 'graph-points', d(pts, want))
    for (x, y), (minute, i) in zip(pts, want):
      if off is None:
        off = (minute - (x - 20) + 1) // 60 * 60
      ctx.check(x - 20 + off in (minute - 1, minute), 'graph-times',
                d(pts, want))
      ys.setdefault(i, set()).add(y)
  ctx.check(all(len(v) == 1 for v in ys.values()), 'graph-stations',
            d(sorted((k, sorted(v)) for k, v in ys.items())))
  line = [min(ys[i]) for i in sorted(ys)]
  ctx.check(line == sorted(line) and (not line or
                                      20 <= line[0] and line[-1] <= height),
            'graph-order', d(line))
  if len(trips) > 1:
    ctx.probe('graph_several')
