# -*- coding: utf-8 -*-
"""Times of trips: frequencies expanded to runs, times guessed between
timepoints, first and last times, in histories of edits and restarts."""
import math

import model
from core import canon, uni
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('ops', 'trips', 'db_faults')
SHRINK_KEYS = ()
RADIUS = 6371010.0


def gen_trip(rng, nstops):
  n = rng.weighted([(0, 1), (1, 1), (2, 3), (3, 3), (5, 3), (9, 2)])
  rows = []
  for i in range(n):
    ends = i in (0, n - 1)
    timed = rng.chance(93) if ends else rng.chance(40)
    rows.append([rng.below(nstops), timed,
                 rng.choice([0, 1, 7, 60, 60, 300, 3600]),
                 rng.choice([0, 0, 0, 30])])
  return rows


def gen_freq(rng):
  a = rng.choice([0, 21600, 21601, 36000, 86399, 90000, rng.below(100000)])
  h = rng.choice([1, 59, 60, 600, 3600, 7200, rng.between(1, 4000)])
  k = rng.choice([0, 1, 2, 3, 10])
  b = a + max(1, h * k + rng.choice([-1, 0, 0, 1]))
  return [a, b, h, rng.choice([0, 0, 1, None])]


def gen(rng, tier, index):
  nstops = rng.between(1, 6)
  stops = []
  for _ in range(nstops):
    stops.append(rng.weighted([
        ([rng.between(-80, 80) + 0.5, rng.between(-179, 179) + 0.25], 1),
        ([45 + rng.below(50) / 1000.0, -120 + rng.below(50) / 1000.0], 7),
        ([0.01 * rng.below(3), 0.01 * rng.below(3)], 1)]))
  trips = []
  for _ in range(rng.between(1, 4)):
    trips.append([gen_trip(rng, nstops),
                  [gen_freq(rng) for _ in range(rng.below(4))],
                  rng.choice([0, 1, 18000, 36000, 86000, 100000])])
  ops = []
  for _ in range(rng.between(2, 14 if tier == 'quick' else 30)):
    t = rng.below(len(trips))
    ops.append(rng.weighted([
        (['ask', t], 8),
        (['freq', t, gen_freq(rng), rng.choice(
            ['int', 'text', 'object', 'headway', 'headway_object'])], 4),
        (['badfreq', t, rng.below(10)], 2),
        (['clearfreq', t], 1),
        (['move', rng.below(nstops), 45 + rng.below(60) / 1000.0,
          -120 + rng.below(60) / 1000.0], 2),
        (['append', t, rng.below(nstops), rng.choice([0, 60, 1000])], 2),
        (['clear', t], 1),
        (['stop', rng.below(nstops)], 3),
        (['reload', rng.below(1000)], 1),
        (['forget', rng.below(nstops)], 1)]))
  faults = []
  if rng.chance(35):
    for _ in range(rng.between(1, 3)):
      faults.append({'nth': 1 + rng.below(40), 'kind': rng.choice(
          ['full', 'ioerr', 'locked'])})
  return {'stops': stops, 'trips': trips, 'ops': ops, 'db_faults': faults,
          'how': rng.choice(['feed', 'api']), 'memory_db': rng.chance(70)}


def dist(a, b):
  if a is None or b is None:
    return 0.0
  la, lb = math.radians(a[0]), math.radians(b[0])
  dl = math.radians(b[1] - a[1])
  # chord length formula, independent of the haversine of the library
  ax, ay, az = math.cos(la), 0.0, math.sin(la)
  bx, by, bz = (math.cos(lb) * math.cos(dl), math.cos(lb) * math.sin(dl),
                math.sin(lb))
  c = math.sqrt((ax - bx) ** 2 + (ay - by) ** 2 + (az - bz) ** 2)
  return RADIUS * 2 * math.asin(min(1.0, c / 2))


def runs_of(freqs):
  out = []
  for a, b, h, _ in freqs:
    n = -(-(b - a) // h) if b > a else 0
    out.extend(a + i * h for i in range(n))
  return sorted(out)


class State(object):
  pass


def run(trace, ctx):
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  st = State()
  st.rec = drive.Recorder()
  st.pr = pr = transitfeed.ProblemReporter(st.rec)
  with w:
    st.pos = dict((u'S%d' % i, tuple(p)) for i, p in enumerate(trace['stops']))
    st.sids = sorted(st.pos)
    st.rows = {}
    st.freqs = {}
    st.tids = []
    for i, (rows, freqs, start) in enumerate(trace['trips']):
      tid = u'T%d' % i
      t = start
      out = []
      for j, (si, timed, dt, dwell) in enumerate(rows):
        if j and timed:
          t += dt
        arr = t if timed else None
        if timed:
          t += dwell
        out.append([st.sids[si % len(st.sids)], arr, t if timed else None])
      st.rows[tid] = out
      st.freqs[tid] = [list(f) for f in freqs]
      st.tids.append(tid)
    if trace['how'] == 'feed':
      drive.put_feed(w, feed_of(st), '/sim/a.zip')
      st.s, _ = drive.load(w, '/sim/a.zip', rec=st.rec,
                           memory_db=trace['memory_db'])
    else:
      api(trace, st)
    w.db.faults = [dict(f) for f in trace['db_faults']]
    w.db.statements = 0
    for op in trace['ops']:
      ctx.steps += 1
      del st.rec.items[:]
      step(ctx, w, trace, st, op)
    w.db.faults = []
    for tid in st.tids:
      ask(ctx, w, st, tid)
    ctx.sig = canon([trace['stops'], trace['trips'], trace['ops'],
                     trace['db_faults']])
    ctx.ev(len(st.tids))


def feed_of(st):
  T = model.new_table
  feed = {}
  t = feed['agency'] = T([u'agency_id', u'agency_name', u'agency_url',
                          u'agency_timezone'])
  t['rows'].append([u'A', u'Agency', u'http://a.example.com',
                    u'America/Los_Angeles'])
  t = feed['stops'] = T([u'stop_id', u'stop_name', u'stop_lat', u'stop_lon'])
  for sid in st.sids:
    t['rows'].append([sid, u'Stop ' + sid] + [uni(repr(x))
                                              for x in st.pos[sid]])
  t = feed['routes'] = T([u'route_id', u'route_short_name',
                          u'route_long_name', u'route_type'])
  t['rows'].append([u'R', u'1', u'One', u'3'])
  t = feed['calendar'] = T([u'service_id'] + [uni(d) for d in model.DAYS] +
                           [u'start_date', u'end_date'])
  t['rows'].append([u'C'] + [u'1'] * 7 + [u'20140101', u'20151231'])
  t = feed['trips'] = T([u'route_id', u'service_id', u'trip_id'])
  s = feed['stop_times'] = T([u'trip_id', u'arrival_time', u'departure_time',
                              u'stop_id', u'stop_sequence'])
  f = feed['frequencies'] = T([u'trip_id', u'start_time', u'end_time',
                               u'headway_secs', u'exact_times'])
  h = lambda x: u'' if x is None else model.hms(x)
  for tid in st.tids:
    t['rows'].append([u'R', u'C', tid])
    for j, (sid, arr, dep) in enumerate(st.rows[tid]):
      s['rows'].append([tid, h(arr), h(dep), sid, u'%d' % (3 * j)])
    for a, b, hw, ex in st.freqs[tid]:
      f['rows'].append([tid, h(a), h(b), u'%d' % hw,
                        u'' if ex is None else u'%d' % ex])
  return feed


def api(trace, st):
  s = st.s = transitfeed.Schedule(problem_reporter=st.pr,
                                  memory_db=trace['memory_db'])
  s.AddAgency('A', 'http://a.example.com', 'America/Los_Angeles', 'A')
  sp = s.GetDefaultServicePeriod()
  sp.SetStartDate('20140101')
  sp.SetEndDate('20151231')
  sp.SetWeekdayService()
  for sid in st.sids:
    s.AddStop(st.pos[sid][0], st.pos[sid][1], u'Stop ' + sid, sid)
  r = s.AddRoute('1', 'One', 'Bus', 'R')
  for tid in st.tids:
    t = r.AddTrip(s, headsign='x', trip_id=tid)
    for sid, arr, dep in st.rows[tid]:
      t.AddStopTimeObject(transitfeed.StopTime(
          st.pr, s.GetStop(sid), arrival_secs=arr, departure_secs=dep), s)
    for f in st.freqs[tid]:
      t.AddFrequency(f[0], f[1], f[2], f[3], st.pr)


def guarded(ctx, w, fn, *a):
  n = w.db.raised
  try:
    return True, fn(*a)
  except Exception as e:
    if w.db.raised > n and ('database' in str(e) or 'disk I/O' in str(e)):
      ctx.probe('db_error_raised')
      return False, e
    raise


BAD = [('', 10, 5), (None, 10, 5), (5, '', 5), (5, 100, 0), (5, 100, -3),
       (5, 100, 'x'), ('25:61:00', 100, 5), (5, 'noon', 5), (5, -1, 5),
       (-5, 100, 5)]


def step(ctx, w, trace, st, op):
  k = op[0]
  s = st.s
  if k == 'ask':
    guarded(ctx, w, ask, ctx, w, st, st.tids[op[1] % len(st.tids)])
  elif k == 'stop':
    guarded(ctx, w, ask_stop, ctx, st, st.sids[op[1] % len(st.sids)])
  elif k == 'freq':
    tid = st.tids[op[1] % len(st.tids)]
    a, b, h, ex = op[2]
    trip = s.GetTrip(tid)
    how = op[3]
    if how == 'int':
      trip.AddFrequency(a, b, h, ex, st.pr)
    elif how == 'text':
      trip.AddFrequency(model.hms(a), model.hms(b), '%d' % h,
                        problem_reporter=st.pr)
      ex = 0
    elif how == 'headway':
      trip.AddHeadwayPeriod(a, b, h, st.pr)
      ex = 0
    else:
      o = transitfeed.Frequency({'trip_id': tid, 'start_time': model.hms(a),
                                 'end_time': model.hms(b), 'headway_secs': h,
                                 'exact_times': ex or 0})
      if how == 'object':
        trip.AddFrequencyObject(o, st.pr)
      else:
        trip.AddHeadwayPeriodObject(o, st.pr)
    st.freqs[tid].append([a, b, h, ex])
    ctx.check(not st.rec.items, 'sound-frequency-reported',
              lambda: canon([op, st.rec.items]))
    ctx.probe('frequency_added')
  elif k == 'badfreq':
    tid = st.tids[op[1] % len(st.tids)]
    a, b, h = BAD[op[2] % len(BAD)]
    s.GetTrip(tid).AddFrequency(a, b, h, problem_reporter=st.pr)
    ctx.check(len(st.rec.items) == 1, 'bad-frequency-not-reported',
              lambda: canon([op, BAD[op[2] % len(BAD)], st.rec.items]))
    ctx.probe('frequency_refused')
  elif k == 'clearfreq':
    tid = st.tids[op[1] % len(st.tids)]
    s.GetTrip(tid).ClearFrequencies()
    st.freqs[tid] = []
  elif k == 'move':
    sid = st.sids[op[1] % len(st.sids)]
    stop = s.GetStop(sid)
    stop.stop_lat, stop.stop_lon = op[2], op[3]
    st.pos[sid] = (op[2], op[3])
    ctx.probe('moved')
  elif k == 'forget':
    sid = st.sids[op[1] % len(st.sids)]
    stop = s.GetStop(sid)
    stop.stop_lat = stop.stop_lon = None
    st.pos[sid] = None
  elif k == 'append':
    tid = st.tids[op[1] % len(st.tids)]
    rows = st.rows[tid]
    sid = st.sids[op[2] % len(st.sids)]
    last = [x for r in rows for x in r[1:] if x is not None]
    t = (max(last) if last else 30000) + op[3]
    if rows and rows[-1][1] is None:
      return      # an end without a time stays the end
    o = transitfeed.StopTime(st.pr, s.GetStop(sid), arrival_secs=t,
                             departure_secs=t)
    ok, _ = guarded(ctx, w, s.GetTrip(tid).AddStopTimeObject, o, s)
    if ok:
      rows.append([sid, t, t])
  elif k == 'clear':
    tid = st.tids[op[1] % len(st.tids)]
    ok, _ = guarded(ctx, w, s.GetTrip(tid).ClearStopTimes)
    if ok:
      st.rows[tid] = []
  elif k == 'reload':
    if any(p is None for p in st.pos.values()):
      return      # the writer of a stop without a position is P01's business
    w.db.faults, keep = [], w.db.faults
    s.WriteGoogleTransitFeed('/sim/f.zip')
    w.fs.reboot()
    st.s, _ = drive.load(w, '/sim/f.zip', rec=st.rec,
                         memory_db=trace['memory_db'])
    simdictify(st.s, op[1])
    w.db.faults = keep
    ctx.probe('restart')


def guesses(st, tid):
  """[(low, high, stop, timed)] or None when the ends have no time."""
  rows = st.rows[tid]
  if not rows:
    return []
  if rows[0][1] is None or rows[-1][1] is None:
    return None
  out = []
  for i, (sid, arr, dep) in enumerate(rows):
    if arr is not None:
      out.append((arr, arr, sid, True))
      continue
    p = max(j for j in range(i) if rows[j][1] is not None)
    n = min(j for j in range(i + 1, len(rows)) if rows[j][1] is not None)
    leg = [dist(st.pos[rows[j][0]], st.pos[rows[j + 1][0]])
           for j in range(p, n)]
    total = sum(leg)
    share = sum(leg[:i - p]) / total if total > 1e-9 else None
    if share is None:
      out.append((rows[p][1], rows[n][1], sid, False))
    else:
      x = rows[p][1] + share * (rows[n][1] - rows[p][1])
      out.append((x - 0.502, x + 0.502, sid, False))
  return out


def ask(ctx, w, st, tid):
  trip = st.s.GetTrip(tid)
  rows = st.rows[tid]
  runs = runs_of(st.freqs[tid])
  got = trip.GetFrequencyStartTimes()
  ctx.check(list(got) == runs, 'run-starts',
            lambda: canon([tid, got, runs, st.freqs[tid]]))
  ctx.check(list(trip.GetHeadwayStartTimes()) == runs, 'headway-run-starts',
            tid)
  if runs:
    ctx.probe('runs')
  # each run repeats the pattern of the trip, moved in time
  first = rows[0][1] if rows else None
  if rows and first is not None:
    got = trip.GetFrequencyStopTimes(st.pr)
    move = lambda x, r: None if x is None else x - first + r
    want = [[[sid, move(a, r), move(d, r)] for sid, a, d in rows]
            for r in runs]
    have = [[[uni(x.stop_id), x.arrival_secs, x.departure_secs] for x in r]
            for r in got]
    ctx.check(have == want, 'runs', lambda: canon([tid, have, want]))
    if want:
      ctx.probe('expanded')
  elif not rows:
    ctx.check(trip.GetFrequencyStopTimes(st.pr) == [], 'runs-of-nothing', tid)
  del st.rec.items[:]
  a, b = trip.GetStartTime(st.pr), trip.GetEndTime(st.pr)
  ctx.check(a == (rows[0][1] if rows else None), 'start-time',
            lambda: canon([tid, a, rows]))
  ctx.check(b == (rows[-1][2] if rows else None), 'end-time',
            lambda: canon([tid, b, rows]))
  ctx.check(len(st.rec.items) == (a is None) + (b is None), 'end-reports',
            lambda: canon([tid, st.rec.items]))
  del st.rec.items[:]
  want = guesses(st, tid)
  try:
    got = trip.GetTimeInterpolatedStops()
  except ValueError:
    ctx.check(want is None, 'no-guess', lambda: canon([tid, rows]))
    ctx.probe('no_guess')
    return
  ctx.check(want is not None, 'guess-without-ends', tid)
  compare(ctx, tid, rows, got, want)


def compare(ctx, tid, rows, got, want):
  ctx.check(len(got) == len(want), 'guess-count', tid)
  last = None
  for (secs, x, timed), (lo, hi, sid, t) in zip(got, want):
    ctx.check(isinstance(secs, (int, long)) and lo <= secs <= hi and
              uni(x.stop_id) == sid and bool(timed) == t, 'guess',
              lambda: canon([tid, secs, lo, hi, sid, rows]))
    ctx.check(last is None or secs >= last, 'guess-backwards', tid)
    last = secs
    if not t:
      ctx.probe('guessed')


def ask_stop(ctx, st, sid):
  want = {}
  for tid in st.tids:
    g = None
    for i, r in enumerate(st.rows[tid]):
      if r[0] == sid:
        if g is None:
          g = guesses(st, tid)
        if g is None:
          return ask_bad_stop(ctx, st, sid)
        want[(tid, i)] = g[i]
  got = st.s.GetStop(sid).GetStopTimeTrips()
  keys = sorted((uni(t.trip_id), i) for _, (t, i), _ in got)
  ctx.check(keys == sorted(want), 'stop-visits',
            lambda: canon([sid, keys, sorted(want)]))
  for secs, (t, i), timed in got:
    lo, hi, _, tp = want[(uni(t.trip_id), i)]
    ctx.check(lo <= secs <= hi and bool(timed) == tp, 'stop-visit-time',
              lambda: canon([sid, secs, lo, hi]))
    ctx.probe('visit')


def ask_bad_stop(ctx, st, sid):
  try:
    st.s.GetStop(sid).GetStopTimeTrips()
  except ValueError:
    ctx.probe('no_guess')
  else:
    ctx.violate('guess-without-ends', sid)
