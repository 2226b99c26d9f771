# -*- coding: utf-8 -*-
"""Reports about timetables: blocks, time travel, speed, repeated times,
duplicates.

A timetable is loaded, validated, edited, validated again, saved and loaded
with other hash orders; every validation must report exactly the conflicts a
model finds by comparing every pair of trips on every day.
"""
import datetime
import math

import model
from core import canon, uni, u8
from world import World, simdictify
import drive
from drive import transitfeed
from props.p11 import dist

SHRINK = ('ops', 'trips', 'services', 'freqs')
SHRINK_KEYS = ()
BASE = datetime.date(2014, 5, 1)
SPEED = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50}


def gen_trip(rng, nr, ns, nsv, tier):
  n = rng.weighted([(0, 1), (1, 1), (2, 6), (3, 6), (5, 3), (9, 2), (14, 1)])
  style = rng.choice(['normal', 'normal', 'still', 'fast', 'wild'])
  rows = []
  for i in range(n):
    if style == 'still':
      dt = rng.weighted([(0, 14), (60, 1), (30, 1)])
    elif style == 'fast':
      dt = rng.choice([0, 1, 30, 60, 90, 300])
    elif style == 'wild':
      dt = rng.choice([-600, -1, 0, 60, 600])
    else:
      dt = rng.choice([300, 600, 600, 3600])
    ends = i in (0, n - 1)
    rows.append([rng.below(ns), dt, rng.choice([0, 0, 0, 0, 30]),
                 not rng.chance(4 if ends else 25),
                 rng.weighted([(None, 8), (0, 1), (1, 1), (2.5, 1), (-1, 0)])
                 if style != 'normal' else None])
  return [rng.below(nr), rng.below(nsv),
          rng.weighted([(None, 3), (0, 5), (1, 3), (2, 1)]),
          rng.choice([0, 21600, 21600, 25200, 28800, 36000, 86000,
                      21600 + 60 * rng.below(300)]) + rng.choice([0, 0, 30]),
          rows, rng.chance(4)]


def gen_service(rng):
  a = rng.between(0, 20)
  return [a, a + rng.between(0, 20), rng.choice([127, 127, 31, 96, 1, 64,
                                                 rng.below(128)]),
          [[rng.between(0, 40), rng.choice([1, 2])]
           for _ in range(rng.weighted([(0, 4), (1, 2), (5, 1)]))],
          rng.chance(80)]


def gen_freq(rng, nt):
  a = 3600 * rng.between(5, 12)
  return [rng.below(nt), a, a + 3600 * rng.between(1, 4), 600]


def gen(rng, tier, index):
  ns, nr, nsv = rng.between(1, 6), rng.between(1, 4), rng.between(1, 4)
  stops = []
  for i in range(ns):
    stops.append([45 + rng.choice([0, 0.01, 0.02, 0.5, 0.015, 2, rng.below(
        300) / 1000.0]), -120 + rng.choice([0, 0.01, 0.3, 0.015])])
  trips = [gen_trip(rng, nr, ns, nsv, tier)
           for _ in range(rng.weighted([(1, 2), (2, 3), (4, 4), (7, 3),
                                        (12, 1)]))]
  if rng.chance(40):       # twins
    for _ in range(rng.between(1, 3)):
      t = list(rng.choice(trips))
      if rng.chance(30):
        t[1] = rng.below(nsv)
      if rng.chance(30):
        t[0] = rng.below(nr)
      trips.append(t)
  ops = []
  for _ in range(rng.between(0, 6)):
    ops.append(rng.weighted([
        (['block', rng.below(len(trips)), rng.weighted(
            [(None, 1), (0, 2), (1, 2), (3, 1)])], 4),
        (['service', rng.below(len(trips)), -1 if rng.chance(25) else
          rng.below(nsv)], 3),
        (['exception', rng.below(nsv), rng.between(0, 40),
          rng.choice([0, 1])], 3),
        (['route_type', rng.below(nr), rng.below(8)], 2),
        (['move', rng.below(ns), 45 + rng.below(600) / 1000.0, -120.0], 2),
        (['retime', rng.below(len(trips)), rng.between(-7200, 7200)], 3),
        (['trip', gen_trip(rng, nr, ns, nsv, tier)], 2),
        (['reload', rng.below(1000)], 2)]))
  names = [rng.choice(['one', 'two', 'one ', 'One', 'three'])
           for _ in range(nr)]
  return {'stops': stops, 'routes': [rng.weighted([(3, 5), (1, 4), (0, 1),
                                                   (2, 1), (7, 1)])
                                     for _ in range(nr)],
          'names': names, 'services': [gen_service(rng) for _ in range(nsv)],
          'trips': trips, 'ops': ops, 'salt': rng.below(1000),
          'freqs': [gen_freq(rng, len(trips)) for _ in range(
              rng.weighted([(0, 5), (2, 2), (3, 2)]))],
          'dups': rng.chance(50), 'memory_db': rng.chance(70)}


class State(object):
  pass


def make_rows(ns, start, rows):
  out = []
  t = start
  for j, (si, dt, dwell, timed, d) in enumerate(rows):
    if j:
      t = max(0, t + dt)
    if timed:
      out.append([u'S%d' % (si % ns), t, t + dwell, j + 1, d])
      t += dwell
    else:
      out.append([u'S%d' % (si % ns), None, None, j + 1, d])
  return out


def state_of(trace):
  st = State()
  ns = len(trace['stops'])
  st.pos = dict((u'S%d' % i, tuple(p)) for i, p in enumerate(trace['stops']))
  st.types = dict((u'R%d' % i, t) for i, t in enumerate(trace['routes']))
  st.names = dict((u'R%d' % i, uni(trace['names'][i]))
                  for i in range(len(trace['routes'])))
  nsv = max(1, len(trace['services']))
  st.services = {}
  for i in range(nsv):
    sv = trace['services'][i] if i < len(trace['services']) else \
        [0, 30, 127, [], True]
    exc = {}
    for d, ty in sv[3]:
      exc[BASE + datetime.timedelta(d)] = ty
    per = [BASE + datetime.timedelta(sv[0]), BASE + datetime.timedelta(sv[1]),
           [sv[2] >> k & 1 for k in range(7)]]
    if not sv[4]:
      per = None
      if not exc:
        exc[BASE] = 2
    st.services[u'C%d' % i] = [per, exc]
  st.trips = {}
  for i, t in enumerate(trace['trips']):
    add_trip(st, i, t, ns, nsv)
  st.freqs = {}
  for k, a, b, h in trace['freqs']:
    tid = u'T%02d' % k
    if tid in st.trips:
      st.freqs.setdefault(tid, []).append((a, b, h))
  return st


def add_trip(st, i, t, ns, nsv):
  rows = make_rows(ns, t[3], t[4])
  if t[5] and len(rows) > 2:
    rows[1][3] = rows[0][3]
  tid = u'T%02d' % i
  st.trips[tid] = {
      'route': u'R%d' % (t[0] % len(st.types)), 'service': u'C%d' % (t[1] % nsv),
      'block': None if t[2] is None else u'B%d' % t[2], 'rows': rows,
      'odd': bool(t[5] and len(rows) > 2)}
  return tid


def feed_of(st):
  T = model.new_table
  feed = {}
  t = feed['agency'] = T([u'agency_id', u'agency_name', u'agency_url',
                          u'agency_timezone'])
  t['rows'].append([u'A', u'Agency', u'http://a.example.com',
                    u'America/Los_Angeles'])
  t = feed['stops'] = T([u'stop_id', u'stop_name', u'stop_lat', u'stop_lon'])
  for sid in sorted(st.pos):
    t['rows'].append([sid, u'Stop ' + sid] + [uni(repr(float(x)))
                                              for x in st.pos[sid]])
  t = feed['routes'] = T([u'route_id', u'route_short_name',
                          u'route_long_name', u'route_type'])
  for rid in sorted(st.types):
    t['rows'].append([rid, u'', st.names[rid], u'%d' % st.types[rid]])
  c = T([u'service_id'] + [uni(d) for d in model.DAYS] +
        [u'start_date', u'end_date'])
  e = T([u'service_id', u'date', u'exception_type'])
  for sid in sorted(st.services):
    per, exc = st.services[sid]
    if per:
      c['rows'].append([sid] + [u'%d' % x for x in per[2]] +
                       [model.ymd(per[0]), model.ymd(per[1])])
    for d in sorted(exc):
      e['rows'].append([sid, model.ymd(d), u'%d' % exc[d]])
  if c['rows']:
    feed['calendar'] = c
  if e['rows']:
    feed['calendar_dates'] = e
  t = feed['trips'] = T([u'route_id', u'service_id', u'trip_id', u'block_id'])
  s = feed['stop_times'] = T([u'trip_id', u'arrival_time', u'departure_time',
                              u'stop_id', u'stop_sequence',
                              u'shape_dist_traveled'])
  f = T([u'trip_id', u'start_time', u'end_time', u'headway_secs'])
  h = lambda x: u'' if x is None else model.hms(x)
  for tid in sorted(st.trips):
    x = st.trips[tid]
    t['rows'].append([x['route'], x['service'], tid, x['block'] or u''])
    for sid, arr, dep, seq, d in x['rows']:
      s['rows'].append([tid, h(arr), h(dep), sid, u'%d' % seq,
                        u'' if d is None else uni(repr(float(d)))])
    for a, b, hw in st.freqs.get(tid, ()):
      f['rows'].append([tid, h(a), h(b), u'%d' % hw])
  if f['rows']:
    feed['frequencies'] = f
  return feed


def run(trace, ctx):
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  st = state_of(trace)
  with w:
    drive.put_feed(w, feed_of(st), '/sim/a.zip')
    s = load(w, trace, '/sim/a.zip', trace['salt'])
    examine(ctx, st, s, trace)
    for op in trace['ops']:
      ctx.steps += 1
      s = step(ctx, w, trace, st, s, op)
      examine(ctx, st, s, trace)
    ctx.ev(len(st.trips))


def load(w, trace, path, salt):
  pr, rec = drive.reporter()
  s = transitfeed.Loader(path, problems=pr, extra_validation=False,
                         memory_db=trace['memory_db'],
                         check_duplicate_trips=trace['dups']).Load()
  simdictify(s, salt)
  return s


def step(ctx, w, trace, st, s, op):
  k = op[0]
  tids = sorted(st.trips)
  if k in ('block', 'service', 'retime'):
    if not tids:
      return s
    tid = tids[op[1] % len(tids)]
    x = st.trips[tid]
    trip = s.GetTrip(tid)
    if k == 'block':
      x['block'] = None if op[2] is None else u'B%d' % op[2]
      trip.block_id = x['block']
    elif k == 'service':
      x['service'] = u'C%d' % (op[2] % len(st.services)) if op[2] >= 0 \
          else u'CX'      # a service nobody has heard of
      trip.service_id = x['service']
    else:
      known = [v for r in x['rows'] for v in r[1:3] if v is not None]
      if x['odd'] or not known or min(known) + op[2] < 0:
        return s
      for r in x['rows']:
        for i in (1, 2):
          if r[i] is not None:
            r[i] += op[2]
      fill(s, trip, x)
  elif k == 'exception':
    sid = sorted(st.services)[op[1] % len(st.services)]
    d = BASE + datetime.timedelta(op[2])
    st.services[sid][1][d] = 1 if op[3] else 2
    s.GetServicePeriod(sid).SetDateHasService(model.ymd(d).encode('ascii'),
                                              bool(op[3]))
  elif k == 'route_type':
    rid = sorted(st.types)[op[1] % len(st.types)]
    st.types[rid] = op[2]
    s.GetRoute(rid).route_type = op[2]
  elif k == 'move':
    sid = sorted(st.pos)[op[1] % len(st.pos)]
    st.pos[sid] = (op[2], op[3])
    s.GetStop(sid).stop_lat, s.GetStop(sid).stop_lon = op[2], op[3]
  elif k == 'trip':
    tid = add_trip(st, len(st.trips), op[1][:5] + [False], len(st.pos),
                   len(st.services))
    x = st.trips[tid]
    trip = s.GetRoute(x['route']).AddTrip(
        s, trip_id=tid, service_period=s.GetServicePeriod(x['service']))
    trip.block_id = x['block']
    fill(s, trip, x)
  elif k == 'reload':
    if any(x['odd'] for x in st.trips.values()):
      return s
    for tid in tids:
      if st.trips[tid]['service'] == u'CX':
        st.trips[tid]['service'] = s.GetTrip(tid).service_id = u'C0'
    s.WriteGoogleTransitFeed('/sim/f.zip')
    w.fs.reboot()
    s = load(w, trace, '/sim/f.zip', op[1])
    ctx.probe('restart')
  return s


def fill(s, trip, x):
  pr, _ = drive.reporter()
  trip.ClearStopTimes()
  for i, (sid, arr, dep, seq, d) in enumerate(x['rows']):
    trip.AddStopTimeObject(transitfeed.StopTime(
        pr, s.GetStop(sid), arrival_secs=arr, departure_secs=dep,
        shape_dist_traveled=d), s, pr)
    x['rows'][i][3] = i + 1


# -- the model ---------------------------------------------------------------

def days(st, sid):
  per, exc = st.services[sid]
  out = set()
  for k in range(60):
    d = BASE + datetime.timedelta(k)
    if d in exc:
      on = exc[d] == 1
    else:
      on = per is not None and per[0] <= d <= per[1] and \
          per[2][d.weekday()]
    if on:
      out.add(d)
  return out


def expected(st, dups):
  """-> (required, allowed-only): lists of keys."""
  req, opt = [], []
  day = dict((c, days(st, c)) for c in st.services)
  day[u'CX'] = set()
  # blocks: every pair
  spans = []
  for tid in sorted(st.trips):
    x = st.trips[tid]
    rows = x['rows']
    if x['block'] and rows and rows[0][1] is not None and \
        rows[-1][2] is not None:
      spans.append((tid, x, rows[0][1], rows[-1][2]))
  for i, (ta, xa, a0, a1) in enumerate(spans):
    for tb, xb, b0, b1 in spans[i + 1:]:
      if xa['block'] != xb['block']:
        continue
      if not (xa['service'] == xb['service'] or
              day[xa['service']] & day[xb['service']]):
        continue
      key = ['block', sorted([ta, tb]), xa['block']]
      odd = a0 >= a1 or b0 >= b1 or xa['odd'] or xb['odd']
      if odd:
        opt.append(key)      # a trip which takes no time
      elif a0 < b1 and b0 < a1:
        req.append(key)
  for tid, x in sorted(st.trips.items()):
    rows = x['rows']
    if x['odd']:
      req.append(['sequence', tid, rows[0][3]])
      continue
    if not rows:
      req.append(['none', tid])
      if st.freqs.get(tid):
        req.append(['freq-none', tid])
    elif len(rows) == 1:
      req.append(['one', tid])
    else:
      if rows[0][1] is None:
        req.append(['first', tid])
      if rows[-1][1] is None:
        req.append(['last', tid])
    travel(st, tid, x, req, opt)
    still(tid, rows, req)
    prev = None
    for sid, arr, dep, seq, d in rows:
      if d is None:
        continue
      if prev is None or d > prev:
        prev = d
      else:
        req.append(['distance', tid, sid, d, 1 if d == prev else 0])
  for tid, fs in sorted(st.freqs.items()):
    for i, a in enumerate(fs):
      for b in fs[i + 1:]:
        if a[0] < b[1] and b[0] < a[1]:
          req.append(['freq', tid, sorted([a[:2], b[:2]])])
  kinds = {}
  for tid, x in st.trips.items():
    for r in x['rows']:
      if st.types[x['route']] in (1, 3):
        kinds.setdefault(r[0], set()).add(st.types[x['route']])
  for sid, k in kinds.items():
    if len(k) == 2:
      req.append(['types', sid])
  if dups:
    groups = {}
    for tid, x in sorted(st.trips.items()):
      if x['odd']:
        continue
      if x['rows']:
        groups.setdefault((x['service'], x['rows'][0][1],
                           tuple(r[0] for r in x['rows'])), []).append(tid)
    for g in groups.values():
      for tid in g[1:]:
        req.append(['twin', tid])
  names = {}
  for rid in sorted(st.names):
    names.setdefault(st.names[rid].strip().lower(), []).append(rid)
  for g in names.values():
    for rid in g[1:]:
      req.append(['name', rid])
  return req, opt


def travel(st, tid, x, req, opt):
  limit = SPEED[st.types[x['route']]]
  at = None            # (stop, departure) of the last stop in order of time
  for sid, arr, dep, seq, d in x['rows']:
    if arr is None:
      continue
    if at is not None:
      m = dist(st.pos[at[0]], st.pos[sid])
      secs = arr - at[1]
      key = ['fast', tid, u'Stop ' + at[0], u'Stop ' + sid, secs]
      if secs == 0:
        v = m / 1000 * 60
        if at[1] % 60:
          req.append(key)
        elif abs(v - limit) < 1e-6 * limit:
          opt.append(key)
        elif v > limit:
          req.append(key)
      elif secs > 0:
        v = m / 1000 / (secs / 3600.0)
        if abs(v - limit) < 1e-6 * limit:
          opt.append(key)
        elif v > limit:
          req.append(key)
      if secs < 0:
        req.append(['back', tid, seq])
        continue
    at = (sid, dep)


def still(tid, rows, req):
  """Runs of more than five stops at one and the same time."""
  timed = [i for i, r in enumerate(rows) if r[1] is not None]
  i = 0
  while i < len(timed):
    j = i
    while j + 1 < len(timed) and \
        rows[timed[j]][2] == rows[timed[j + 1]][1] == rows[timed[j + 1]][2]:
      j += 1
    n = timed[j] - timed[i] + 1
    if n > 5:
      req.append(['still', tid, n, rows[timed[j]][2]])
    i = j + 1


# -- what was reported -------------------------------------------------------

def got_keys(rec, st):
  out = []
  for e, it in zip(rec.raw, rec.items):
    c = it['cls']
    text = uni(it['text'])
    if c == 'OverlappingTripsInSameBlock':
      out.append(['block', sorted([uni(e.trip_id1), uni(e.trip_id2)]),
                  uni(e.block_id)])
    elif c == 'TooFastTravel':
      out.append(['fast', uni(e.trip_id), uni(e.prev_stop), uni(e.next_stop),
                  e.time])
    elif c == 'TooManyConsecutiveStopTimesWithSameTime':
      out.append(['still', uni(e.trip_id), e.number_of_stop_times,
                  secs(e.stop_time)])
    elif c == 'StopWithMultipleRouteTypes':
      out.append(['types', uni(e.stop_id)])
      ok = [st.types.get(uni(e.route_id1)), st.types.get(uni(e.route_id2))]
      if ok != [1, 3]:
        out.append(['bad-types', uni(e.stop_id), ok])
    elif c == 'DuplicateTrip':
      out.append(['twin', uni(e.trip_id2)])
    elif c == 'OtherProblem':
      if 'Timetravel' in text:
        q = text.split('sequence number ')[1].split(' ')
        out.append(['back', q[3].strip('\n '), int(q[0])])
      elif "doesn't have any stop times" in text:
        out.append(['none', text.split('"')[1]])
      elif 'only has one stop' in text:
        out.append(['one', text.split('"')[1]])
      elif 'Frequencies defined' in text:
        out.append(['freq-none', text.split('in trip ')[1].split()[0]])
      elif 'overlapping headway' in text:
        a, b = e.description.split('periods ')[1].split(' and ')
        a, b = eval(a), eval(b)
        out.append(['freq', uni(a[0]),
                    sorted([tuple(secs(x) for x in y[1:3]) for y in (a, b)])])
      elif 'no effective service dates' not in text:
        out.append(['other', text])
    elif c == 'InvalidValue':
      col, v = it['col'], it['value']
      if col == 'stop_sequence':
        out.append(['sequence', text.split('trip_id ')[1].split()[0],
                    int(v)])
      elif col == 'departure_time':
        out.append(['first', text.split('in trip ')[1].split()[0]])
      elif col == 'arrival_time':
        out.append(['last', text.split('in trip ')[1].split()[0]])
      elif col == 'stoptimes.shape_dist_traveled':
        q = text.split('For the trip ')[1]
        tid = q.split(' the stop ')[0]
        sid = q.split(' the stop ')[1].split(' has ')[0]
        out.append(['distance', tid, sid, float(v), e.type])
      elif col == 'route_long_name' and 'same combination' in text:
        out.append(['name', text.split('IDs "')[1].split('"')[0]])
      else:
        out.append(['other', text])
  return out


def secs(x):
  return x if isinstance(x, (int, long)) else model.secs_of(uni(x))


def examine(ctx, st, s, trace):
  pr, rec = drive.reporter()
  s.Validate(problems=pr, validate_children=trace['salt'] % 2 == 0)
  got = sorted(canon(k) for k in got_keys(rec, st))
  req, opt = expected(st, trace['dups'])
  for k in req:
    ctx.probe('expected_' + k[0])
  odd = [t for t in st.trips if st.trips[t]['odd']]
  left = list(got)
  for k in req:
    c = canon(k)
    if c not in left:
      if k[0] == 'twin' and odd:
        continue
      ctx.violate('unreported:' + k[0], canon([k, got]))
    left.remove(c)
  for c in left:
    if c in [canon(k) for k in opt]:
      continue
    if any("'%s'" % t in c or '"%s"' % t in c for t in odd) or (
        odd and 'twin' in c):
      continue          # rows with one sequence number: order is undefined
    ctx.violate('unfounded:' + c.split(',')[0].strip('["'),
                canon([c, sorted(canon(k) for k in req)]))
  ctx.sig = canon([got, sorted(canon(r) for r in req)])
