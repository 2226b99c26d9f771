# -*- coding: utf-8 -*-
"""Drivers around the real code: loading, dumping, recording problems."""
import sys
from StringIO import StringIO

import model
from core import canon, uni, u8, HarnessError
from world import World, simdictify

import transitfeed
from transitfeed import problems as tf_problems
from transitfeed import util as tf_util

NOW = 1400000000.0        # 2014-05-13 16:53:20 UTC


class Recorder(tf_problems.ProblemAccumulatorInterface):
  """Accumulator keeping every reported problem."""

  def __init__(self):
    self.items = []
    self.raw = []

  def _Report(self, e):
    self.raw.append(e)
    self.items.append(describe(e))

  def kinds(self):
    return sorted(set(i['cls'] for i in self.items))

  def errors(self):
    return [i for i in self.items if i['type'] == tf_problems.TYPE_ERROR]

  def warnings(self):
    return [i for i in self.items if i['type'] == tf_problems.TYPE_WARNING]

  def bad(self):
    """errors and warnings, no notices"""
    return [i for i in self.items if i['type'] != tf_problems.TYPE_NOTICE]


def text_of(e):
  try:
    t = e.FormatProblem()
  except (UnicodeDecodeError, UnicodeEncodeError):
    t = '<unicode trouble>'
  return u8(t)


def describe(e):
  g = lambda n: getattr(e, n, None)
  row = g('row_num')
  return {'cls': e.__class__.__name__, 'type': e.GetType(),
          'file': u8(g('file_name')) if g('file_name') is not None else None,
          'row': row, 'col': u8(g('column_name'))
          if g('column_name') is not None else None,
          'value': u8(uni(g('value'))) if g('value') is not None else None,
          'text': text_of(e)}


def pkey(i):
  return (i['cls'], i['type'], i['file'] or '', i['row'] or 0, i['col'] or '',
          i['text'])


def pset(items):
  """Multiset of problems, order-free."""
  return sorted(pkey(i) for i in items)


def reporter():
  rec = Recorder()
  return tf_problems.ProblemReporter(rec), rec


def load(world, path, extra=False, memory_db=True, rec=None, **kw):
  """Load path (simulated) -> (schedule, recorder)."""
  if rec is None:
    pr, rec = reporter()
  else:
    pr = tf_problems.ProblemReporter(rec)
  loader = transitfeed.Loader(path, problems=pr, extra_validation=extra,
                              memory_db=memory_db, **kw)
  return loader.Load(), rec


def put_feed(world, feed, path, rng=None, order=None, **kw):
  """Store a feed: a path ending in .zip is an archive, else a directory."""
  files = model.feed_files(feed, **kw)
  put_files(world, files, path, rng)
  return files


def put_files(world, files, path, rng=None, method=0):
  names = sorted(files)
  if rng is not None:
    rng.shuffle(names)
  if path.endswith('.zip'):
    world.fs.put(path, model.zip_bytes([(n, files[n]) for n in names], method))
  else:
    world.fs.mkdir(path)
    for n in names:
      world.fs.put(path + '/' + n, files[n])


def clean(v):
  if v is None:
    return u''
  if isinstance(v, bool):
    return u'1' if v else u'0'
  if isinstance(v, float):
    return uni('%r' % v)
  return uni(v)


def _public(obj):
  d = {}
  for k, v in vars(obj).items():
    if k.startswith('_'):
      continue
    if isinstance(v, (list, dict, tuple)):
      continue
    v = clean(v)
    if v != u'':
      d[uni(k)] = v
  return d


def dump(schedule):
  """What the schedule holds, as a feed (model.meaning applies), read through
  the public API only."""
  feed = {}

  def add(table, dd):
    t = feed.setdefault(table, {'cols': [], 'rows': [], 'd': []})
    t['d'].append(dd)

  for a in schedule.GetAgencyList():
    add('agency', _public(a))
  for s in schedule.GetStopList():
    add('stops', _public(s))
  for r in schedule.GetRouteList():
    add('routes', _public(r))
  for sp in schedule.GetServicePeriodList():
    # GetCalendarFieldValuesTuple is what goes to calendar.txt; read fields
    # directly instead
    if sp.start_date and sp.end_date:
      d = {u'service_id': clean(sp.service_id),
           u'start_date': clean(sp.start_date),
           u'end_date': clean(sp.end_date)}
      for i, day in enumerate(model.DAYS):
        d[uni(day)] = u'1' if sp.day_of_week[i] else u'0'
      add('calendar', d)
    for date in sp.date_exceptions.keys():
      ty = None
      for x in (1, 2):
        if sp.HasDateExceptionOn(date, x):
          ty = x
      add('calendar_dates', {u'service_id': clean(sp.service_id),
                             u'date': clean(date),
                             u'exception_type': clean(ty)})
  for t in schedule.GetTripList():
    add('trips', _public(t))
    for st in t.GetStopTimes(tf_problems.ProblemReporter(Recorder())):
      d = {u'trip_id': clean(t.trip_id), u'stop_id': clean(st.stop_id),
           u'stop_sequence': clean(st.stop_sequence)}
      if st.arrival_secs is not None:
        d[u'arrival_time'] = model.hms(st.arrival_secs)
      if st.departure_secs is not None:
        d[u'departure_time'] = model.hms(st.departure_secs)
      for n in ('stop_headsign', 'pickup_type', 'drop_off_type',
                'shape_dist_traveled', 'timepoint'):
        v = getattr(st, n)
        if v is not None and v != '':
          d[uni(n)] = clean(v)
      add('stop_times', d)
    for f in t.GetFrequencyTuples():
      add('frequencies', {u'trip_id': clean(t.trip_id),
                          u'start_time': model.hms(f[0]),
                          u'end_time': model.hms(f[1]),
                          u'headway_secs': clean(f[2]),
                          u'exact_times': clean(f[3])})
  for sh in schedule.GetShapeList():
    for i, p in enumerate(sh.points):
      d = {u'shape_id': clean(sh.shape_id), u'shape_pt_lat': clean(p[0]),
           u'shape_pt_lon': clean(p[1]), u'shape_pt_sequence': clean(i)}
      if p[2] is not None:
        d[u'shape_dist_traveled'] = clean(p[2])
      add('shapes', d)
  for f in schedule.GetFareAttributeList():
    d = _public(f)
    add('fare_attributes', d)
    for r in f.GetFareRuleList():
      add('fare_rules', _public(r))
  for tr in schedule.GetTransferList():
    add('transfers', _public(tr))
  if schedule.feed_info is not None:
    add('feed_info', _public(schedule.feed_info))
  out = {}
  for name, t in feed.items():
    cols = sorted(set(k for d in t['d'] for k in d))
    out[name] = {'cols': cols,
                 'rows': [[d.get(c, u'') for c in cols] for d in t['d']]}
  return out


def dump_stops(schedule):
  """Agencies and stops only."""
  out = {}
  for name, objs in (('agency', schedule.GetAgencyList()),
                     ('stops', schedule.GetStopList())):
    ds = [_public(o) for o in objs]
    cols = sorted(set(k for d in ds for k in d))
    if ds:
      out[name] = {'cols': cols,
                   'rows': [[d.get(c, u'') for c in cols] for d in ds]}
  return out


def loaded_meaning(schedule):
  return model.meaning(dump(schedule))
