# -*- coding: utf-8 -*-
"""Builds a real Schedule from a model feed through the public editing API
(what a converter script does), as opposed to loading it from files."""
import transitfeed

import model
from core import HarnessError
from drive import reporter


def field_dict(cols, row):
  return dict((c, v) for c, v in zip(cols, row) if v != u'')


def renumber(feed):
  """AddStopTime numbers the stops of a trip 1, 2, 3...; make the model say
  the same."""
  feed = model.copy_feed(feed)
  t = feed.get('stop_times')
  if t:
    ti, si = model.col(t, 'trip_id'), model.col(t, 'stop_sequence')
    seen = {}
    order = sorted(range(len(t['rows'])),
                   key=lambda i: (t['rows'][i][ti], int(t['rows'][i][si])))
    for i in order:
      r = t['rows'][i]
      seen[r[ti]] = seen.get(r[ti], 0) + 1
      r[si] = u'%d' % seen[r[ti]]
  return feed


def api_build(feed, style=0, memory_db=True, problems=None):
  """style bit 0: keyword helpers (AddStop, AddRoute, AddTrip) versus objects
  with field_dict.  Extra attributes are set after the object is in the
  schedule."""
  pr, rec = reporter()
  s = transitfeed.Schedule(problem_reporter=pr, memory_db=memory_db)
  t = feed.get('agency')
  if t:
    for d in model.dicts(feed, 'agency'):
      d = dict((k, v) for k, v in d.items() if v != u'')
      if style & 1:
        a = s.AddAgency(d[u'agency_name'], d[u'agency_url'],
                        d[u'agency_timezone'], d[u'agency_id'])
        for k in sorted(d):
          if k not in (u'agency_name', u'agency_url', u'agency_timezone',
                       u'agency_id'):
            setattr(a, k.encode('ascii'), d[k])
      else:
        s.AddAgencyObject(transitfeed.Agency(field_dict=d))
  for d in model.dicts(feed, 'feed_info'):
    s.AddFeedInfoObject(transitfeed.FeedInfo(
        field_dict=dict((k, v) for k, v in d.items() if v != u'')))
  for d in model.dicts(feed, 'stops'):
    d = dict((k, v) for k, v in d.items() if v != u'')
    if style & 1:
      stop = transitfeed.Stop(lat=float(d[u'stop_lat']),
                              lng=float(d[u'stop_lon']), name=d[u'stop_name'],
                              stop_id=d[u'stop_id'])
      if u'zone_id' in d:
        stop.zone_id = d[u'zone_id']
      s.AddStopObject(stop)
      for k in sorted(d):
        if k not in (u'stop_lat', u'stop_lon', u'stop_name', u'stop_id',
                     u'zone_id'):
          v = d[k]
          if k == u'location_type':
            v = int(v)
          setattr(stop, k.encode('ascii'), v)
    else:
      stop = transitfeed.Stop(field_dict=d)
      stop.stop_lat = float(stop.stop_lat)
      stop.stop_lon = float(stop.stop_lon)
      if u'location_type' in d:
        stop.location_type = int(stop.location_type)
      s.AddStopObject(stop)
  for d in model.dicts(feed, 'routes'):
    d = dict((k, v) for k, v in d.items() if v != u'')
    d[u'route_type'] = int(d[u'route_type'])
    s.AddRouteObject(transitfeed.Route(field_dict=d))
  periods = {}
  for d in model.dicts(feed, 'calendar'):
    sp = transitfeed.ServicePeriod(d[u'service_id'])
    sp.SetStartDate(d[u'start_date'])
    sp.SetEndDate(d[u'end_date'])
    for i, day in enumerate(model.DAYS):
      sp.SetDayOfWeekHasService(i, d[day] == u'1')
    periods[d[u'service_id']] = sp
  for d in model.dicts(feed, 'calendar_dates'):
    sp = periods.get(d[u'service_id'])
    if sp is None:
      sp = periods[d[u'service_id']] = transitfeed.ServicePeriod(
          d[u'service_id'])
    sp.SetDateHasService(d[u'date'], d[u'exception_type'] == u'1')
  for sid in sorted(periods):
    s.AddServicePeriodObject(periods[sid])
  shapes = {}
  rows = model.dicts(feed, 'shapes')
  rows.sort(key=lambda d: (d[u'shape_id'], int(d[u'shape_pt_sequence'])))
  for d in rows:
    sh = shapes.get(d[u'shape_id'])
    if sh is None:
      sh = shapes[d[u'shape_id']] = transitfeed.Shape(d[u'shape_id'])
    dist = d.get(u'shape_dist_traveled', u'')
    sh.AddPoint(float(d[u'shape_pt_lat']), float(d[u'shape_pt_lon']),
                float(dist) if dist != u'' else None)
  for sid in sorted(shapes):
    s.AddShapeObject(shapes[sid])
  by_trip = {}
  for d in model.dicts(feed, 'stop_times'):
    by_trip.setdefault(d[u'trip_id'], []).append(d)
  for d in model.dicts(feed, 'trips'):
    d = dict((k, v) for k, v in d.items() if v != u'')
    if style & 1:
      trip = s.GetRoute(d[u'route_id']).AddTrip(
          s, headsign=d.get(u'trip_headsign'),
          service_period=s.GetServicePeriod(d[u'service_id'])
          if d[u'service_id'] in s.service_periods else
          transitfeed.ServicePeriod(d[u'service_id']),
          trip_id=d[u'trip_id'])
      for k in sorted(d):
        if k not in (u'route_id', u'trip_headsign', u'service_id', u'trip_id'):
          setattr(trip, k.encode('ascii'), d[k])
    else:
      trip = transitfeed.Trip(field_dict=d)
      s.AddTripObject(trip)
    for st in sorted(by_trip.get(d[u'trip_id'], []),
                     key=lambda x: int(x[u'stop_sequence'])):
      add_stop_time(s, trip, st)
  for d in model.dicts(feed, 'frequencies'):
    ex = d.get(u'exact_times', u'')
    s.GetTrip(d[u'trip_id']).AddFrequency(
        d[u'start_time'], d[u'end_time'], int(d[u'headway_secs']),
        int(ex) if ex != u'' else 0)
  for d in model.dicts(feed, 'fare_attributes'):
    f = transitfeed.FareAttribute(
        d[u'fare_id'], d[u'price'], d[u'currency_type'], d[u'payment_method'],
        d[u'transfers'], d.get(u'transfer_duration') or None)
    s.AddFareAttributeObject(f)
  for d in model.dicts(feed, 'fare_rules'):
    n = lambda k: d.get(k) or None
    s.AddFareRuleObject(transitfeed.FareRule(
        d[u'fare_id'], n(u'route_id'), n(u'origin_id'), n(u'destination_id'),
        n(u'contains_id')))
  for d in model.dicts(feed, 'transfers'):
    d = dict((k, v) for k, v in d.items() if v != u'')
    tr = transitfeed.Transfer(field_dict=d)
    s.AddTransferObject(tr)
  return s, rec


def add_stop_time(s, trip, st):
  kw = {}
  for k in (u'stop_headsign', u'pickup_type', u'drop_off_type', u'timepoint',
            u'shape_dist_traveled'):
    v = st.get(k, u'')
    if v != u'':
      kw[k.encode('ascii')] = v
  if st[u'arrival_time'] != u'':
    kw['arrival_time'] = st[u'arrival_time']
  if st[u'departure_time'] != u'':
    kw['departure_time'] = st[u'departure_time']
  trip.AddStopTime(s.GetStop(st[u'stop_id']), schedule=s, **kw)
