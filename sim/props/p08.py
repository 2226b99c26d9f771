# -*- coding: utf-8 -*-
"""Service days: histories of edits, saves and restarts against a calendar
model.

The model answers "does this service run on this day" from first principles
(exceptions, then date range and day of week); every query of the library must
agree with it at every point of the history, under any hash order.
"""
import datetime

import model
from core import canon, HarnessError
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('ops', 'trips')
SHRINK_KEYS = ()
BASES = ['20140513', '20131228', '20160226', '20150225', '20000227',
         '19000102', '21001203', '21000226', '20140330', '20141101', '19991230']


def gen(rng, tier, index):
  base = model.todate(rng.choice(BASES))
  day = lambda: rng.below(24)
  ids = [u'WD', u'WE', u's,3', u'caf\xe9'][:rng.between(1, 4)]
  ops = []
  for i in range(len(ids)):
    if rng.chance(75):
      a = day()
      ops.append(['range', i, a, min(23, a + rng.below(20))])
      ops.append(['dows', i, [rng.below(2) for _ in range(7)]])
  for _ in range(rng.between(2, 18 if tier == 'quick' else 40)):
    i = rng.below(len(ids))
    ops.append(rng.weighted([
        (['date', i, day(), rng.below(2)], 8),
        (['reset', i, day()], 3),
        (['dow', i, rng.below(7), rng.below(2)], 4),
        (['weekday', i, rng.below(2)], 2),
        (['weekend', i, rng.below(2)], 2),
        (['start', i, day()], 2), (['end', i, day()], 2),
        (['reload', rng.below(4)], 2), (['query', day(), day()], 4),
        (['salt', rng.below(1000)], 1)]))
  trips = []
  for k in range(rng.below(6)):
    freqs = []
    for _ in range(rng.weighted([(0, 5), (1, 3), (2, 2)])):
      s = rng.below(100) * 60
      freqs.append([s, s + rng.between(1, 120) * 60 + rng.below(3),
                    rng.choice([1, 59, 60, 300, 601, 7200])])
    trips.append([rng.below(len(ids)), rng.weighted([(0, 1), (1, 1), (2, 4),
                                                     (3, 3), (5, 1)]), freqs])
  return {'base': model.ymd(base), 'ids': ids, 'ops': ops, 'trips': trips,
          'memory_db': rng.chance(85), 'feed_info':
          rng.choice([None, None, [0, 0], [day(), day()]])}


class Model(object):
  def __init__(self):
    self.start = self.end = None
    self.dow = [False] * 7
    self.exc = {}

  def active(self, d):
    if d in self.exc:
      return self.exc[d]
    return (self.start is not None and self.end is not None and
            self.start <= d <= self.end and self.dow[d.weekday()])

  def durable(self):
    return (self.start is not None and self.end is not None) or bool(self.exc)


def run(trace, ctx):
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  base = model.todate(trace['base'])
  D = lambda n: base + datetime.timedelta(n)
  S = model.ymd
  rec = drive.Recorder()
  pr = transitfeed.ProblemReporter(rec)
  sched = transitfeed.Schedule(problem_reporter=pr,
                               memory_db=trace['memory_db'])
  ids = trace['ids']
  m = dict((i, Model()) for i in ids)
  with w:
    sched.AddAgency('A', 'http://a.example.com', 'America/Los_Angeles', 'A1')
    stops = [sched.AddStop(45.0 + 0.01 * i, -120.0, 'Stop %d' % i, 'S%d' % i)
             for i in range(6)]
    route = sched.AddRoute('1', 'One', 'Bus', 'R1')
    for i in ids:
      sp = transitfeed.ServicePeriod(i)
      sched.AddServicePeriodObject(sp, validate=False)
    for k, (i, n, freqs) in enumerate(trace['trips']):
      t = route.AddTrip(sched, headsign='x',
                        service_period=sched.GetServicePeriod(ids[i]),
                        trip_id='T%d' % k)
      for j in range(n):
        t.AddStopTime(stops[j], stop_time=model.hms(36000 + 300 * j))
      for s, e, h in freqs:
        t.AddFrequency(model.hms(s), model.hms(e), h)
    if trace['feed_info']:
      a, b = trace['feed_info']
      sched.AddFeedInfoObject(transitfeed.FeedInfo(field_dict=dict(
          feed_publisher_name='p', feed_publisher_url='http://p.example.com',
          feed_lang='en', feed_start_date=S(D(min(a, b))) if a else '',
          feed_end_date=S(D(max(a, b))) if b else '')))
    salt = 0
    for n, op in enumerate(trace['ops']):
      ctx.steps += 1
      k = op[0]
      if k in ('query', 'reload', 'salt'):
        if k == 'salt':
          salt = op[1]
          simdictify(sched, salt)
          ctx.fault('rehash')
        elif k == 'query':
          a, b = sorted(op[1:])
          windows(ctx, trace, sched, m, D(a - 3), D(b + 4 if b != a else a - 3))
        else:
          sched = reload(ctx, w, trace, sched, m, op[1])
        continue
      sid = ids[op[1]]
      mm = m[sid]
      if sid not in sched.service_periods:
        # lost at a restart because it had no dates; the user makes it again
        sched.AddServicePeriodObject(transitfeed.ServicePeriod(sid),
                                     validate=False)
      sp = sched.GetServicePeriod(sid)
      if k == 'range':
        sp.SetStartDate(S(D(op[2])))
        sp.SetEndDate(S(D(op[3])))
        mm.start, mm.end = D(op[2]), D(op[3])
      elif k == 'dows':
        for i, v in enumerate(op[2]):
          sp.SetDayOfWeekHasService(i, bool(v))
        mm.dow = [bool(v) for v in op[2]]
      elif k == 'dow':
        sp.SetDayOfWeekHasService(op[2], bool(op[3]))
        mm.dow[op[2]] = bool(op[3])
      elif k == 'weekday':
        sp.SetWeekdayService(bool(op[2]))
        mm.dow[:5] = [bool(op[2])] * 5
      elif k == 'weekend':
        sp.SetWeekendService(bool(op[2]))
        mm.dow[5:] = [bool(op[2])] * 2
      elif k == 'start':
        sp.SetStartDate(S(D(op[2])))
        mm.start = D(op[2])
      elif k == 'end':
        sp.SetEndDate(S(D(op[2])))
        mm.end = D(op[2])
      elif k == 'date':
        sp.SetDateHasService(S(D(op[2])), bool(op[3]))
        mm.exc[D(op[2])] = bool(op[3])
      elif k == 'reset':
        sp.ResetDateToNormalService(S(D(op[2])))
        mm.exc.pop(D(op[2]), None)
      period(ctx, sp, mm, D, sid)
      ctx.ev(k, op[1:])
    for sid in ids:
      if sid in sched.service_periods:
        period(ctx, sched.GetServicePeriod(sid), m[sid], D, sid)
    simdictify(sched, salt + 1)
    windows(ctx, trace, sched, m, D(-2), D(27))
    ctx.sig = canon([trace['ops'], trace['trips'], trace['base']])


def period(ctx, sp, mm, D, sid):
  S = model.ymd
  days = [D(i) for i in range(-1, 26)]
  for d in days:
    ctx.check(bool(sp.IsActiveOn(S(d))) == mm.active(d), 'active-on',
              lambda: canon([sid, S(d), mm.active(d), S2(mm)]))
    ctx.check(bool(sp.IsActiveOn(S(d), d)) == mm.active(d), 'active-on-object',
              lambda: canon([sid, S(d), mm.active(d), S2(mm)]))
    for ty in (1, 2):
      ctx.check(bool(sp.HasDateExceptionOn(S(d), ty)) ==
                (mm.exc.get(d) is (ty == 1)), 'exception-on',
                lambda: canon([sid, S(d), ty]))
  ctx.check(bool(sp.HasExceptions()) == bool(mm.exc), 'has-exceptions', sid)
  ctx.check(bool(sp.HasDateExceptionTypeAdded()) ==
            (True in mm.exc.values()), 'has-added', sid)
  want = [S(d) for d in days if mm.active(d)]
  ctx.check(list(sp.ActiveDates()) == want, 'active-dates',
            lambda: canon([sid, sp.ActiveDates(), want, S2(mm)]))
  if (mm.start is None) == (mm.end is None) and \
      (mm.start is None or mm.start <= mm.end):
    adds = [d for d in mm.exc if mm.exc[d]]
    cand = adds + ([mm.start, mm.end] if mm.start else [])
    want = (S(min(cand)), S(max(cand))) if cand else (None, None)
    ctx.check(tuple(sp.GetDateRange()) == want, 'date-range',
              lambda: canon([sid, sp.GetDateRange(), want, S2(mm)]))
  want = sorted((sid, S(d), u'1' if v else u'2') for d, v in mm.exc.items())
  ctx.check(sorted(sp.GetCalendarDatesFieldValuesTuples()) == want,
            'calendar-dates-tuples', sid)
  for i, name in enumerate(model.DAYS):
    ctx.check(getattr(sp, name) == (1 if mm.dow[i] else 0), 'day-column',
              lambda: canon([sid, name, mm.dow]))
  if mm.active(days[3]):
    ctx.probe('active_day')
  if mm.exc:
    ctx.probe('exceptions')


def S2(mm):
  return [mm.start and model.ymd(mm.start), mm.end and model.ymd(mm.end),
          mm.dow, sorted((model.ymd(d), v) for d, v in mm.exc.items())]


def runs(freqs):
  n = 0
  for s, e, h in freqs:
    n += len(range(s, e, h))
  return n if freqs else 1


def windows(ctx, trace, sched, m, a, b):
  """Queries over the half-open window [a, b)."""
  if a.year < 1900:
    a = datetime.date(1900, 1, 1)
  b = max(a, b)
  days = [a + datetime.timedelta(i) for i in range((b - a).days)]
  live = [sid for sid in trace['ids'] if sid in sched.service_periods]
  got = sched.GetServicePeriodsActiveEachDate(a, b)
  ctx.check([d for d, _ in got] == days, 'window-dates',
            lambda: canon([model.ymd(a), model.ymd(b)]))
  for d, ps in got:
    want = sorted(sid for sid in live if m[sid].active(d))
    ctx.check(sorted(p.service_id for p in ps) == want, 'active-each-date',
              lambda: canon([model.ymd(d), want]))
  got = sched.GenerateDateTripsDeparturesList(a, b)
  ctx.check([x[0] for x in got] == days, 'window-dates', 'departures')
  for d, nt, nd in got:
    wt = wd = 0
    for i, n, freqs in trace['trips']:
      sid = trace['ids'][i]
      if sid in live and m[sid].active(d):
        wt += runs(freqs)
        wd += max(n - 1, 0) * runs(freqs)
    ctx.check((nt, nd) == (wt, wd), 'trips-departures',
              lambda: canon([model.ymd(d), nt, nd, wt, wd]))
  ctx.probe('window')
  # whole schedule
  if all((m[s].start is None) == (m[s].end is None) and
         (m[s].start is None or m[s].start <= m[s].end) for s in live):
    lo, hi = [], []
    for s in live:
      adds = [(d, True) for d in m[s].exc if m[s].exc[d]]
      lo += adds + ([(m[s].start, False)] if m[s].start else [])
      hi += adds + ([(m[s].end, False)] if m[s].end else [])
    fi = trace['feed_info']
    if not lo:
      ctx.check(tuple(sched.GetDateRange()) == (None, None),
                'schedule-range-none', '')
    else:
      mn, mx = min(x[0] for x in lo), max(x[0] for x in hi)
      mno = mxo = None
      base = model.todate(trace['base'])
      if fi and fi[0]:
        mn, mno = base + datetime.timedelta(min(fi)), 'feed_info'
      if fi and fi[1]:
        mx, mxo = base + datetime.timedelta(max(fi)), 'feed_info'
      want = (model.ymd(mn), model.ymd(mx))
      ctx.check(tuple(sched.GetDateRange()) == want, 'schedule-range',
                lambda: canon([sched.GetDateRange(), want]))
      got = sched.GetDateRangeWithOrigins()
      if mno is None:
        mno = 'calendar_dates' if (mn, True) in lo else 'calendar.txt'
      if mxo is None:
        mxo = 'calendar_dates' if (mx, True) in hi else 'calendar.txt'
      ctx.check(tuple(got[:2]) == want and mno in got[2] and mxo in got[3],
                'range-origins', lambda: canon([got, want, mno, mxo]))
      ctx.probe('schedule_range')


def reload(ctx, w, trace, sched, m, how):
  """Save, forget everything in memory, start again from the disk."""
  sched.WriteGoogleTransitFeed('/sim/feed.zip')
  w.fs.reboot()
  rec = drive.Recorder()
  pr = transitfeed.ProblemReporter(rec)
  s2 = transitfeed.Schedule(problem_reporter=pr, memory_db=trace['memory_db'])
  transitfeed.Loader('/sim/feed.zip', schedule=s2, problems=pr,
                     extra_validation=False).Load()
  ctx.probe('restart')
  for sid in trace['ids']:
    mm = m[sid]
    if not (mm.start is not None and mm.end is not None):
      # no calendar row is written for it
      mm.start = mm.end = None
      mm.dow = [False] * 7
    there = sid in s2.service_periods
    ctx.check(there == mm.durable(), 'service-lost-at-restart',
              lambda: canon([sid, S2(mm)]))
  if not any(t[1] for t in trace['trips']):
    pass
  simdictify(s2, how)
  return s2
