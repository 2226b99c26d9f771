# -*- coding: utf-8 -*-
"""The stop time store: histories of edits with failing database statements.

Trips keep their stop times in an SQL table.  Every history of adding,
replacing and clearing must leave exactly what a list model holds, seen from
the trip, from the stop, from the pattern index and in the written feed,
whichever store is used; a statement which fails leaves the store as it was.
"""
import model
from core import canon, uni
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('ops', 'db_faults')
SHRINK_KEYS = ()


def gen(rng, tier, index):
  ntrips = rng.between(1, 4)
  nstops = rng.between(1, 5)
  ops = []
  for _ in range(rng.between(3, 30 if tier == 'quick' else 70)):
    t = rng.below(ntrips)
    ops.append(rng.weighted([
        (['add', t, rng.below(nstops), rng.choice([None, 0, 60, 60, 3600, -50]),
          rng.choice(['both', 'both', 'stop_time', 'object', 'none', 'dwell',
                      'object']), rng.below(1 << 30)], 14),
        (['replace', t, rng.below(8), rng.below(1 << 30)], 4),
        (['replace_missing', t, rng.below(nstops)], 1),
        (['clear', t], 1), (['view', t], 4), (['stopview', rng.below(nstops)],
                                              3),
        (['patterns'], 2), (['reload', rng.below(1000)], 1),
        (['newtrip'], 1)]))
  faults = []
  if rng.chance(45):
    for _ in range(rng.between(1, 4)):
      faults.append({'nth': 5 + rng.below(60), 'kind': rng.choice(
          ['full', 'ioerr', 'locked'])} if rng.chance(50) else
          {'nth': 1 + rng.below(20), 'verb': rng.choice(
              ['INSERT', 'SELECT', 'DELETE', 'UPDATE']),
           'kind': rng.choice(['full', 'ioerr', 'locked'])})
  return {'ntrips': ntrips, 'nstops': nstops, 'ops': ops, 'db_faults': faults,
          'memory_db': rng.chance(70), 'ids': rng.choice(['plain', 'exotic'])}


EX = [u"T'1", u'caf\xe9', u'a"b;--', u'%s', u'T?', u' x']


def attrs(seed):
  """Optional attributes of a stop time, derived from one number."""
  d = {}
  if seed & 1:
    d['stop_headsign'] = [u'North', u"caf\xe9 'x'", u'%d'][seed >> 1 & 1]
  if seed & 8:
    d['pickup_type'] = seed >> 4 & 3
  if seed & 64:
    d['drop_off_type'] = seed >> 7 & 3
  if seed & 512:
    d['timepoint'] = seed >> 10 & 1
  if seed & 2048:
    d['shape_dist_traveled'] = (seed >> 12 & 255) / 4.0
  return d


FIELDS = ('stop_headsign', 'pickup_type', 'drop_off_type', 'timepoint',
          'shape_dist_traveled')


def row(stop, arr, dep, seq, at):
  return {'stop': stop, 'arr': arr, 'dep': dep, 'seq': seq,
          'at': dict((k, at.get(k)) for k in FIELDS)}


class State(object):
  pass


def run(trace, ctx):
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  rec = drive.Recorder()
  pr = transitfeed.ProblemReporter(rec)
  with w:
    st = State()
    st.pr = pr
    st.rec = rec
    s = st.s = transitfeed.Schedule(problem_reporter=pr,
                                    memory_db=trace['memory_db'])
    s.AddAgency('A', 'http://a.example.com', 'America/Los_Angeles', 'A1')
    sp = s.GetDefaultServicePeriod()
    sp.SetStartDate('20140101')
    sp.SetEndDate('20151231')
    sp.SetWeekdayService()
    st.sids = [u'S%d' % i if trace['ids'] == 'plain' else EX[i] + u'S'
               for i in range(trace['nstops'])]
    for i, sid in enumerate(st.sids):
      s.AddStop(45 + 0.01 * i, -120.0, 'Stop %d' % i, sid)
    s.AddRoute('1', 'One', 'Bus', 'R1')
    st.tids = []
    st.m = {}
    for i in range(trace['ntrips']):
      new_trip(trace, st)
    w.db.faults = [dict(f) for f in trace['db_faults']]
    w.db.statements = 0
    for op in trace['ops']:
      ctx.steps += 1
      del rec.items[:]
      del rec.raw[:]
      step(ctx, w, trace, st, op)
    # the device works again: everything must be as the model says
    w.db.faults = []
    for tid in st.tids:
      view(ctx, st, tid)
    for sid in st.sids:
      stopview(ctx, st, sid)
    patterns(ctx, st)
    if trace['db_faults'] and w.db.raised:
      ctx.probe('recovered')
    ctx.sig = canon([trace['ops'], trace['db_faults'], trace['memory_db']])
    ctx.ev(len(st.tids), sum(len(v) for v in st.m.values()))


def new_trip(trace, st):
  i = len(st.tids)
  tid = u'T%d' % i if trace['ids'] == 'plain' else \
      EX[i % len(EX)] + u'%d' % i
  st.s.GetRoute('R1').AddTrip(st.s, headsign='x', trip_id=tid)
  st.tids.append(tid)
  st.m[tid] = []


def guarded(ctx, w, fn, *a):
  """Runs fn; an injected database error may come out of it."""
  n = w.db.raised
  try:
    return True, fn(*a)
  except Exception as e:
    if w.db.raised > n and 'database' in str(e) or 'disk I/O' in str(e):
      ctx.probe('db_error_raised')
      return False, e
    raise


def step(ctx, w, trace, st, op):
  k = op[0]
  s = st.s
  if k == 'newtrip':
    if len(st.tids) < 6:
      new_trip(trace, st)
    return
  if k == 'reload':
    n = w.db.raised
    w.db.faults, keep = [], w.db.faults
    st.s.WriteGoogleTransitFeed('/sim/f.zip')
    w.fs.reboot()
    s2 = transitfeed.Schedule(problem_reporter=st.pr,
                              memory_db=not trace['memory_db']
                              if op[1] % 3 == 0 else trace['memory_db'])
    transitfeed.Loader('/sim/f.zip', schedule=s2, problems=st.pr,
                       extra_validation=False).Load()
    simdictify(s2, op[1])
    st.s = s2
    w.db.faults = keep
    # AddStopTime checks are about the row before; times stay as they are
    for tid in list(st.tids):
      if tid.strip() != tid or tid not in s2.trips:
        # cells are stripped on load; the trip goes by its stripped id now
        new = tid.strip()
        ctx.check(new in s2.trips, 'trip-lost-at-restart', tid)
        st.tids[st.tids.index(tid)] = new
        st.m[new] = st.m.pop(tid)
    ctx.probe('restart')
    st.sids = [x.strip() for x in st.sids]
    for tid in st.tids:
      for r in st.m[tid]:
        r['stop'] = r['stop'].strip()
        if isinstance(r['at']['stop_headsign'], basestring):
          r['at']['stop_headsign'] = r['at']['stop_headsign'].strip() or None
    return
  if k == 'patterns':
    ok, _ = guarded(ctx, w, patterns, ctx, st)
    return
  if k == 'stopview':
    guarded(ctx, w, stopview, ctx, st, st.sids[op[1] % len(st.sids)])
    return
  tid = st.tids[op[1] % len(st.tids)]
  trip = s.GetTrip(tid)
  rows = st.m[tid]
  if k == 'view':
    guarded(ctx, w, view, ctx, st, tid)
  elif k == 'clear':
    ok, _ = guarded(ctx, w, trip.ClearStopTimes)
    if ok:
      st.m[tid] = []
      ctx.probe('cleared')
  elif k == 'add':
    _, _, si, dt, how, seed = op
    sid = st.sids[si % len(st.sids)]
    known = [x for r in rows for x in (r['arr'], r['dep']) if x is not None]
    last = max(known) if known else None
    at = attrs(seed)
    arr = dep = None
    if dt is not None and how != 'none':
      arr = dep = max(0, (last if last is not None else 36000) + dt)
      if how == 'dwell':
        dep = arr + 30
    kw = dict(at)
    fmt = model.hms
    stop = s.GetStop(sid)
    if how == 'object':
      o = transitfeed.StopTime(st.pr, stop, arrival_secs=arr,
                               departure_secs=dep, **kw)
      ok, _ = guarded(ctx, w, trip.AddStopTimeObject, o, s)
    else:
      if arr is not None:
        if how == 'stop_time':
          kw['stop_time'] = fmt(arr)
        else:
          kw['arrival_time'] = fmt(arr)
          kw['departure_time'] = fmt(dep)
      ok, _ = guarded(ctx, w, lambda: trip.AddStopTime(
          stop, schedule=s, problems=st.pr, **kw))
    if ok:
      seq = max(r['seq'] for r in rows) + 1 if rows else 1
      rows.append(row(sid, arr, dep, seq, at))
      ctx.probe('added')
      new = arr if arr is not None else dep
      text = [i['text'] for i in rec_errors(st.rec)]
      if len(rows) == 1:
        ctx.check(any('No time for first' in t for t in text) ==
                  (new is None), 'first-time-report',
                  lambda: canon([op, text]))
      else:
        late = new is not None and last is not None and new < last
        ctx.check(any('out of order' in t for t in text) == late,
                  'order-report', lambda: canon([op, last, new, text]))
        late and ctx.probe('out_of_order')
  elif k == 'replace':
    if not rows:
      return
    i = op[2] % len(rows)
    r = rows[i]
    at = attrs(op[3])
    arr = r['arr']
    dep = arr + op[3] % 50 if arr is not None else None
    o = transitfeed.StopTime(st.pr, s.GetStop(r['stop']), arrival_secs=arr,
                             departure_secs=dep, stop_sequence=r['seq'], **at)
    ok, _ = guarded(ctx, w, trip.ReplaceStopTimeObject, o, s)
    if ok:
      rows[i] = row(r['stop'], arr, dep, r['seq'], at)
      ctx.probe('replaced')
  elif k == 'replace_missing':
    o = transitfeed.StopTime(
        st.pr, s.GetStop(st.sids[op[2] % len(st.sids)]), arrival_secs=10,
        departure_secs=10, stop_sequence=999)
    n = w.db.raised
    try:
      trip.ReplaceStopTimeObject(o, schedule=s)
    except transitfeed.Error:
      ctx.probe('missing_noticed')
    except Exception:
      if w.db.raised == n:
        raise
    else:
      ctx.violate('replaced-a-missing-stop-time', canon(op))
  w2 = w.db.faults
  w.db.faults = []
  view(ctx, st, tid)     # whatever happened, the store agrees with the model
  w.db.faults = w2


def rec_errors(rec):
  return [i for i in rec.items if i['type'] == 0]


def key(r):
  return [r['stop'], r['arr'], r['dep'], r['seq'],
          [r['at'][k] for k in FIELDS]]


def blank(v):
  return None if v in (None, '') else v


def view(ctx, st, tid):
  s = st.s
  trip = s.GetTrip(tid)
  want = [key(r) for r in st.m[tid]]
  got = [[uni(x.stop_id), x.arrival_secs, x.departure_secs, x.stop_sequence,
          [blank(getattr(x, k)) for k in FIELDS]]
         for x in trip.GetStopTimes(st.pr)]
  ctx.check(canon(got) == canon(want), 'stop-times',
            lambda: canon([tid, got, want]))
  ctx.check(trip.GetCountStopTimes() == len(want), 'count', tid)
  ctx.check([uni(x.stop_id) for x in trip.GetPattern()] ==
            [r[0] for r in want], 'pattern', tid)
  for (a, d, p), r in zip(trip.GetTimeStops(), want):
    ctx.check((a, d, uni(p.stop_id)) == (r[1], r[2], r[0]), 'time-stops',
              lambda: canon([tid, a, d, r]))
  fields = list(transitfeed.StopTime._FIELD_NAMES)
  for t, r in zip(trip.GetStopTimesTuples(), want):
    d = dict(zip(fields, t))
    ctx.check(uni(d['trip_id']) == tid and uni(d['stop_id']) == r[0] and
              d['stop_sequence'] == r[3] and
              d['arrival_time'] == ('' if r[1] is None else model.hms(r[1]))
              and d['departure_time'] ==
              ('' if r[2] is None else model.hms(r[2])), 'tuples',
              lambda: canon([tid, list(t), r]))
  if want:
    ends = [want[0][1] if want[0][1] is not None else want[0][2],
            want[-1][2] if want[-1][2] is not None else want[-1][1]]
    ctx.check([trip.GetStartTime(st.pr), trip.GetEndTime(st.pr)] == ends,
              'ends', lambda: canon([tid, ends]))
  ctx.probe('viewed')


def stopview(ctx, st, sid):
  s = st.s
  want = sorted([tid, r['seq'], i] for tid in st.tids
                for i, r in enumerate(st.m[tid]) if r['stop'] == sid)
  stop = s.GetStop(sid)
  got = sorted(uni(t.trip_id) for t in stop.GetTrips())
  ctx.check(got == [x[0] for x in want], 'trips-of-stop',
            lambda: canon([sid, got, want]))
  got = sorted([uni(t.trip_id), i] for t, i in stop.trip_index)
  ctx.check(got == sorted([x[0], x[2]] for x in want), 'trip-index',
            lambda: canon([sid, got, want]))
  if want:
    ctx.probe('stop_used')


def patterns(ctx, st):
  s = st.s
  want = {}
  for tid in st.tids:
    want.setdefault(tuple(r['stop'] for r in st.m[tid]), []).append(tid)
  got = s.GetRoute('R1').GetPatternIdTripDict()
  got = sorted(sorted(uni(t.trip_id) for t in v) for v in got.values())
  ctx.check(got == sorted(sorted(v) for v in want.values()), 'pattern-groups',
            lambda: canon([got, sorted(want.items())]))
  ctx.probe('patterns')
