# -*- coding: utf-8 -*-
"""Expiry, future service, gaps and missing exceptions while the clock moves.

One feed is validated again and again while the simulated clock advances,
jumps back, and sits in different time zones; after every validation the
reports about service dates must be exactly what a calendar model says for the
local day, and all other reports must be the same as before.
"""
import datetime

import model
from core import canon
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('steps', 'exc', 'periods', 'trips')
SHRINK_KEYS = ()
DAY = 86400
CLASSES = ('ExpirationDate', 'FutureService', 'TooManyDaysWithoutService',
           'NoServiceExceptions')
BASES = ['20140513', '20131201', '20151220', '20160215', '20140309',
         '20141020']


def gen(rng, tier, index):
  base = rng.choice(BASES)
  span = rng.choice([1, 5, 20, 59, 60, 61, 100, 181, 182, 183, 250, 400, 800])
  periods = []
  for i in range(rng.between(1, 3)):
    days = [1 if rng.chance(55) else 0 for _ in range(7)]
    a = rng.below(max(1, span // 3)) if i else 0
    b = span - (rng.below(max(1, span // 3)) if i else 0)
    periods.append([a, max(a, b), days, rng.chance(85)])
  exc = []
  for _ in range(rng.weighted([(0, 5), (1, 3), (4, 3), (30, 1)])):
    exc.append([rng.below(len(periods)), rng.between(-20, span + 20),
                rng.weighted([(1, 1), (2, 2)])])
  trips = [rng.below(len(periods)) for _ in range(rng.weighted(
      [(1, 2), (2, 3), (4, 2)]))]
  fi = None
  if rng.chance(40):
    a = rng.between(-30, span)
    fi = [a if rng.chance(70) else None,
          rng.between(a, span + 60) if rng.chance(70) else None]
  edges = [0, span, span - 60, span - 59, span - 61, 1, -1, span + 1,
           span - 365, span + 13]
  steps = []
  for _ in range(rng.between(2, 8)):
    d = rng.choice(edges) if rng.chance(65) else rng.between(-400, span + 100)
    secs = rng.choice([0, 1, DAY - 1, 43200, rng.below(DAY)])
    gap = rng.choice([None, 1, 2, 3, 7, 13, 13, 30])
    steps.append([d, secs, gap, rng.choice(['again', 'again', 'load', 'given',
                                            'loadval'])])
  return {'base': base, 'periods': periods, 'exc': exc, 'trips': trips,
          'feed_info': fi, 'steps': steps, 'salt': rng.below(1000),
          'tz': rng.choice([0, 0, -8 * 3600, 9 * 3600, 5 * 3600 + 1800,
                            -11 * 3600, 13 * 3600]),
          'dst': rng.choice([None, None, [rng.between(-5, 60),
                                          rng.between(61, 300)]])}


def make_feed(trace):
  base = model.todate(trace['base'])
  S = lambda n: model.ymd(base + datetime.timedelta(n))
  T = model.new_table
  feed = {}
  t = feed['agency'] = T([u'agency_id', u'agency_name', u'agency_url',
                          u'agency_timezone'])
  t['rows'].append([u'A', u'Agency', u'http://a.example.com',
                    u'America/Los_Angeles'])
  t = feed['stops'] = T([u'stop_id', u'stop_name', u'stop_lat', u'stop_lon'])
  for i in range(2):
    t['rows'].append([u'S%d' % i, u'Stop %d' % i, u'%.3f' % (45 + i * 0.01),
                      u'-120.0'])
  t = feed['routes'] = T([u'route_id', u'route_short_name',
                          u'route_long_name', u'route_type'])
  t['rows'].append([u'R', u'1', u'One', u'3'])
  cal = T([u'service_id'] + [model.uni(d) for d in model.DAYS] +
          [u'start_date', u'end_date'])
  for i, (a, b, days, has) in enumerate(trace['periods']):
    if has:
      cal['rows'].append([u'C%d' % i] + [u'%d' % d for d in days] +
                         [S(a), S(b)])
  if cal['rows']:
    feed['calendar'] = cal
  cd = T([u'service_id', u'date', u'exception_type'])
  seen = set()
  for i, d, ty in trace['exc']:
    if i < len(trace['periods']) and (i, d) not in seen:
      seen.add((i, d))
      cd['rows'].append([u'C%d' % i, S(d), u'%d' % ty])
  if cd['rows']:
    feed['calendar_dates'] = cd
  if not cal['rows'] and not cd['rows']:
    cd['rows'].append([u'C0', S(0), u'2'])
    feed['calendar_dates'] = cd
  t = feed['trips'] = T([u'route_id', u'service_id', u'trip_id'])
  st = feed['stop_times'] = T([u'trip_id', u'arrival_time', u'departure_time',
                               u'stop_id', u'stop_sequence'])
  for k, i in enumerate(trace['trips']):
    t['rows'].append([u'R', u'C%d' % (i % len(trace['periods'])), u'T%d' % k])
    for j in range(2):
      h = model.hms(36000 + 600 * j + 3600 * k)
      st['rows'].append([u'T%d' % k, h, h, u'S%d' % j, u'%d' % (j + 1)])
  if trace['feed_info']:
    a, b = trace['feed_info']
    t = feed['feed_info'] = T([u'feed_publisher_name', u'feed_publisher_url',
                               u'feed_lang', u'feed_start_date',
                               u'feed_end_date'])
    t['rows'].append([u'P', u'http://p.example.com', u'en',
                      S(a) if a is not None else u'',
                      S(b) if b is not None else u''])
  return feed


class Cal(object):
  """Calendar model over the stored rows."""

  def __init__(self, feed):
    self.per = {}
    self.exc = {}
    for d in model.dicts(feed, 'calendar'):
      self.per[d[u'service_id']] = (
          model.todate(d[u'start_date']), model.todate(d[u'end_date']),
          [d[model.uni(x)] == u'1' for x in model.DAYS])
    for d in model.dicts(feed, 'calendar_dates'):
      self.exc[(d[u'service_id'], model.todate(d[u'date']))] = \
          d[u'exception_type'] == u'1'
    self.trips = [d[u'service_id'] for d in model.dicts(feed, 'trips')]
    adds = [k[1] for k, v in self.exc.items() if v]
    lo = adds + [p[0] for p in self.per.values()]
    hi = adds + [p[1] for p in self.per.values()]
    self.first = min(lo) if lo else None
    self.last = max(hi) if hi else None
    if lo:
      for d in model.dicts(feed, 'feed_info'):
        if d[u'feed_start_date']:
          self.first = model.todate(d[u'feed_start_date'])
        if d[u'feed_end_date']:
          self.last = model.todate(d[u'feed_end_date'])

  def runs(self, sid, d):
    if (sid, d) in self.exc:
      return self.exc[(sid, d)]
    p = self.per.get(sid)
    return p is not None and p[0] <= d <= p[1] and p[2][d.weekday()]

  def served(self, d):
    return any(self.runs(s, d) for s in self.trips)


def fmt(d):
  return d.strftime('%B %d, %Y')


def expect(cal, today, now, gap):
  """Expected (class, key facts) for the day."""
  out = []
  if cal.first is None:
    return [('OtherProblem', 'no effective service dates')]
  td = datetime.timedelta
  if (cal.last - cal.first).days >= 182 and not cal.exc:
    out.append(('NoServiceExceptions', str(cal.first), str(cal.last)))
  if (cal.last - today).days < 60:
    out.append(('ExpirationDate', fmt(cal.last),
                'expired' if cal.last < now else 'soon'))
  if cal.first > today:
    out.append(('FutureService', fmt(cal.first)))
  if gap is not None:
    a = max(cal.first, today - td(gap - 1))
    b = min(cal.last, today + td(365))
    run = []
    d = a
    while d < b:
      if cal.served(d):
        if len(run) >= gap:
          out.append(('TooManyDaysWithoutService', str(run[0]), str(run[-1]),
                      len(run)))
        run = []
      else:
        run.append(d)
      d += td(1)
    if len(run) >= gap:
      out.append(('TooManyDaysWithoutService', str(run[0]), str(run[-1]),
                  len(run)))
  return sorted(out)


def facts(items, raw):
  out = []
  for i, e in zip(items, raw):
    c = i['cls']
    if c == 'ExpirationDate':
      t = i['text']
      d = ' '.join(t.split(' on ')[1].split(' (')[0].split())
      out.append((c, d, 'expired' if t.startswith('This feed expired') else
                  'soon' if 'will soon expire' in t else '?'))
    elif c == 'FutureService':
      out.append((c, i['text'].split('future, on ')[1].split('. ')[0]))
    elif c == 'NoServiceExceptions':
      w = i['text'].split(' from ')[1].split(' with ')[0].split(' to ')
      out.append((c, w[0], w[1]))
    elif c == 'TooManyDaysWithoutService':
      t = i['text']
      n = int(t.split('There are ')[1].split()[0])
      a = t.split(' from ')[1].split(' to ')[0]
      b = t.split(' to ')[1].split(',')[0]
      out.append((c, a, b, n))
    elif c == 'OtherProblem' and 'no effective service' in i['text']:
      out.append((c, 'no effective service dates'))
  return sorted(out)


def run(trace, ctx):
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  base = model.todate(trace['base'])
  w.tz = trace['tz']
  epoch = datetime.date(1970, 1, 1)
  mid = lambda n: ((base - epoch).days + n) * DAY - trace['tz']
  if trace['dst']:
    w.dst = [mid(trace['dst'][0]) + 7200, mid(trace['dst'][1]) + 7200]
    ctx.fault('daylight_saving')
  feed = make_feed(trace)
  cal = Cal(feed)
  with w:
    drive.put_feed(w, feed, '/sim/in.zip')
    sched = None
    others = None
    for d, secs, gap, how in trace['steps']:
      ctx.steps += 1
      t = float(mid(d) + secs)
      if w._offset(t) != trace['tz']:
        t -= 3600
      ctx.fault('clock_back' if t < w.clock.now else 'clock_forward')
      w.clock.advance(t - w.clock.now)
      lt = w._localtime(t)
      now = datetime.date(lt[0], lt[1], lt[2])
      rec = drive.Recorder()
      pr = transitfeed.ProblemReporter(rec)
      day = now
      if how == 'loadval':
        lrec = rec
        kw = {'extra_validation': True}
        s = transitfeed.Loader('/sim/in.zip', problems=pr,
                               gtfs_factory=None, **kw).Load()
        gap = None
        ctx.probe('validated_by_loader')
      else:
        if how == 'load' or sched is None:
          lrec = drive.Recorder()
          sched, _ = drive.load(w, '/sim/in.zip', rec=lrec)
          simdictify(sched, trace['salt'] + len(lrec.items))
          ctx.check(all('have service on any days' in i['text'] or
                      i['col'] == 'service_id'
                      for i in lrec.bad()), 'load-reports',
                  lambda: canon(lrec.items[:3]))
        kw = {}
        if how == 'given':
          # the caller fixes the day, the clock says something else
          day = now + datetime.timedelta(secs % 50 - 25)
          kw['today'] = day
          ctx.probe('given_day')
        sched.Validate(pr, service_gap_interval=gap, **kw)
      want = expect(cal, day, now, gap)
      got = facts(rec.items, rec.raw)
      ctx.check(got == want, 'service-date-reports:%s' % ','.join(sorted(set(
          x[0] for x in got if x not in want) | set(
              x[0] for x in want if x not in got))),
                lambda: canon([str(day), str(now), gap, how, got, want,
                               str(cal.first), str(cal.last)]))
      for x in want:
        ctx.probe('reported_' + x[0])
        if x[0] == 'ExpirationDate':
          ctx.probe('text_' + x[2])
      if not want:
        ctx.probe('quiet_day')
      rest = sorted((i['cls'], i['type'], i['text']) for i in rec.bad()
                    if i['cls'] not in CLASSES and
                    'no effective service' not in i['text'])
      bad = [i for i in rec.bad() if i['cls'] in CLASSES and i['type'] != 1]
      ctx.check(not bad, 'severity', lambda: canon(bad[:2]))
      if how != 'loadval':
        ctx.check(others is None or rest == others, 'other-reports-changed',
                  lambda: canon([rest, others]))
        others = rest
      ctx.ev(str(day), gap, how, want)
    ctx.sig = canon([trace['periods'], trace['exc'], trace['steps'],
                     trace['feed_info']])
