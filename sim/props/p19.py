# -*- coding: utf-8 -*-
"""Merged calendars: every trip runs on its own days, cut at the cutoff date."""
import datetime

import model
from core import canon
from world import World, simdictify
import drive
import merging
from props import p16
import merge

SHRINK = ('feeds',)
SHRINK_KEYS = ()
ONE = datetime.timedelta(1)


def gen(rng, tier, index):
  feeds = merging.gen_feeds(rng, shapes=5, fares=5, transfers=5,
                            exc_only=rng.choice([20, 60]),
                            services=(1, 4))[:2]
  if rng.chance(60):
    merging.shift_days(feeds[1], -rng.choice([20, 60, 100, 165, 170, 200, 400,
                                              10 + rng.below(400)]))
  if rng.chance(25) and span(feeds[0]) and span(feeds[1]):
    # one ends about when the other starts
    gap = (model.todate(span(feeds[1])[0]) - model.todate(span(feeds[0])[1]))
    merging.shift_days(feeds[1], -gap.days + rng.choice([0, 0, 1, -1]))
  base = datetime.date(2014, 5, 13)
  days = [model.todate(d[c]) for f in feeds for n, c in (
      ('calendar', u'start_date'), ('calendar', u'end_date'),
      ('calendar_dates', u'date')) for d in model.dicts(f, n)]
  cut = rng.choice(days) if days and rng.chance(60) else base
  cut += ONE * rng.choice([0, 0, 1, -1, 7, -30, 100, 400, -400,
                           rng.below(200)])
  return {'feeds': feeds, 'salt': rng.below(1 << 30), 'memory_db': True,
          'stop_limit': 10.0, 'shape_limit': 10.0, 'store': 'zip',
          'cutoff': model.ymd(cut) if rng.chance(75) else None}


def active(feed):
  """{service: set of days as YYYYMMDD}"""
  out = {}
  for d in model.dicts(feed, 'calendar'):
    days = out.setdefault(d[u'service_id'], set())
    day, end = model.todate(d[u'start_date']), model.todate(d[u'end_date'])
    while day <= end:
      if d.get(model.DAYS[day.weekday()]) == u'1':
        days.add(model.ymd(day))
      day += ONE
  for d in model.dicts(feed, 'calendar_dates'):
    days = out.setdefault(d[u'service_id'], set())
    if d[u'exception_type'] == u'1':
      days.add(d[u'date'])
    else:
      days.discard(d[u'date'])
  return out


def span(feed):
  days = [d[c] for n, c in (('calendar', u'start_date'),
                            ('calendar', u'end_date'),
                            ('calendar_dates', u'date'))
          for d in model.dicts(feed, n)]
  return (min(days), max(days)) if days else None


def trip_days(feed):
  a = active(feed)
  return dict((d[u'trip_id'], a.get(d[u'service_id'], set()))
              for d in model.dicts(feed, 'trips'))


def run(trace, ctx):
  w = World(ctx)
  with w:
    a, b = trace['feeds']
    drive.put_feed(w, a, '/sim/a.zip')
    drive.put_feed(w, b, '/sim/b.zip')
    m = p16.Merge(w, a, b, trace, ctx)
    sa, ea = p16.load(w, '/sim/a.zip', trace, ctx)
    sb, eb = p16.load(w, '/sim/b.zip', trace, ctx)
    if ea or eb:
      ctx.probe('input_errors')
      return
    m.setup(sa, sb)
    cut = trace['cutoff']
    da, db = trip_days(a), trip_days(b)
    if cut:
      m.fm.GetMerger(merge.ServicePeriodMerger).DisjoinCalendars(cut)
      judge_services(sa, active(a), lambda d: d < cut, ctx, 'old')
      judge_services(sb, active(b), lambda d: d >= cut, ctx, 'new')
    ok = m.fm.MergeSchedules()
    ctx.steps += 1
    alla = set(d for s in active(a).values() for d in s)
    allb = set(d for s in active(b).values() for d in s)
    spans = span(a), span(b)
    refused = [i for i in m.rec.items if i['cls'] == 'CalendarsNotDisjoint']
    ctx.check(bool(refused) == (not ok), 'refusal-report',
              lambda: canon([ok, len(refused)]))
    ctx.check(not [i for i in refused if i['type'] != 0], 'refusal-severity')
    if cut:
      ctx.check(ok, 'refused-after-cutoff', lambda: canon([cut, spans]))
    elif alla & allb:
      ctx.check(not ok, 'merged-overlapping',
                lambda: canon(sorted(alla & allb)[:3]))
    elif spans[0] and spans[1] and (spans[0][1] < spans[1][0] or
                                    spans[1][1] < spans[0][0]):
      ctx.check(ok, 'refused-disjoint', lambda: canon(spans))
    ctx.probe('cut_' + str(ok) if cut else 'plain_' + str(ok))
    ctx.ev(canon([ok, cut]))
    ctx.sig = canon([ok, bool(cut), len(alla), len(allb),
                     len([d for d in alla if not cut or d < cut])])
    if not ok:
      return
    m.maps()
    m.sm.WriteGoogleTransitFeed('/sim/out.zip')
    got = trip_days(model.read_zip_feed(w.fs.get('/sim/out.zip')))
    n = 0
    for which, days in ((0, da), (1, db)):
      for t in days:
        want = set(d for d in days[t] if not cut or
                   (d < cut) == (which == 0))
        new = m.ids[which]['trips'].get(t)
        ctx.check(new in got, 'trip-lost', lambda: canon([which, t, new]))
        ctx.check(got[new] == want, 'trip-days:%s-%s' % (
            which, 'more' if got[new] - want else 'fewer'),
            lambda: canon([t, cut, sorted(got[new] ^ want)[:6]]))
        n += 1
        if cut and want and want != days[t]:
          ctx.probe('trip_cut')
        if cut and days[t] and not want:
          ctx.probe('trip_emptied')
    ctx.check(len(got) == n, 'trips-extra', lambda: canon([len(got), n]))
    s2, errors = p16.load(w, '/sim/out.zip', trace, ctx)
    for e in errors:
      ctx.violate('merged-feed-invalid:%s' % e['cls'], canon(drive.pkey(e)))
    if span(a) != span(b):
      ctx.probe('shifted')


def judge_services(s, want, keep, ctx, which):
  for sp in s.GetServicePeriodList():
    sid = drive.clean(sp.service_id)
    got = set(drive.clean(d) for d in sp.ActiveDates())
    w = set(d for d in want.get(sid, set()) if keep(d))
    ctx.check(got == w, 'cut-days:%s-%s' % (
        which, 'more' if got - w else 'fewer'),
        lambda: canon([sid, sorted(got ^ w)[:6]]))
