# -*- coding: utf-8 -*-
"""Saved feeds reload to the same data, over histories of edit / save /
process restart."""
import model
from core import Violation, canon, u8
from world import World, simdictify
import drive
from drive import transitfeed
import build

SHRINK = ('ops', 'feed')
SHRINK_KEYS = ('feed',)

EDITS = ['set_stop', 'set_route', 'set_trip', 'set_agency', 'add_stop',
         'add_trip', 'clear_trip', 'replace_st', 'set_exc', 'del_exc',
         'cal_dow', 'cal_range', 'add_freq', 'clear_freq', 'add_fare',
         'add_rule', 'add_transfer', 'add_shape', 'set_feed', 'add_agency',
         'add_route', 'st_append']


def gen(rng, tier, index):
  feed = model.gen_feed(rng)
  start = rng.weighted([('load_zip', 3), ('load_dir', 2), ('api', 4)])
  style = rng.below(2)
  if start == 'api':
    feed = build.renumber(feed)
  ops = []
  n = rng.between(1, 8)
  edits = rng.sample(EDITS, rng.between(3, len(EDITS)))
  for _ in range(n):
    what = rng.weighted([('edit', 6), ('save', 3), ('restart', 2)])
    if what == 'edit':
      what = rng.choice(edits)
    ops.append([what, rng.below(1 << 20)])
  ops.append(['save', rng.below(1 << 20)])
  ops.append(['restart', 0])
  return {'feed': feed, 'start': start, 'style': style, 'ops': ops,
          'salt': rng.below(1000), 'memory_db': rng.chance(80),
          'now': int(drive.NOW) + rng.below(400) * 86400,
          'load_opts': rng.below(4)}


from core import Rng


def ensure_col(feed, table, name):
  t = feed[table]
  if name not in t['cols']:
    t['cols'].append(name)
    for r in t['rows']:
      r.append(u'')


def ensure_table(feed, table, cols):
  if table not in feed:
    feed[table] = model.new_table(cols)
  for c in cols:
    ensure_col(feed, table, c)


def append(feed, table, d):
  ensure_table(feed, table, sorted(d))
  feed[table]['rows'].append([d.get(c, u'') for c in feed[table]['cols']])


VALUES = [u'x', u'caf\xe9', u'a,b', u'"q"', u'0', u'-1', u'', u'two words',
          u'\u505c', u"it's", u'1.50', u'line']


def edit(op, seed, m, s):
  """Apply one edit to model m and schedule s; returns a label or None when
  not applicable."""
  r = Rng(seed)

  def row(table):
    t = m.get(table)
    if not t or not t['rows']:
      return None, None
    i = r.below(len(t['rows']))
    return i, dict(zip(t['cols'], t['rows'][i]))

  if op in ('set_stop', 'set_route', 'set_trip', 'set_agency', 'set_feed'):
    table = {'set_stop': 'stops', 'set_route': 'routes', 'set_trip': 'trips',
             'set_agency': 'agency', 'set_feed': 'feed_info'}[op]
    i, d = row(table)
    if d is None:
      return None
    name = r.choice({'stops': [u'stop_desc', u'x_new', u'stop_name',
                               u'stop_code', u'x_stop'],
                     'routes': [u'route_desc', u'x_new', u'route_long_name'],
                     'trips': [u'trip_headsign', u'x_new', u'block_id',
                               u'trip_short_name'],
                     'agency': [u'agency_phone', u'x_new', u'agency_name'],
                     'feed_info': [u'feed_version', u'x_new']}[table])
    v = u'%s%d' % (r.choice(VALUES), r.below(9))
    if name.startswith('x_') or name in (u'stop_desc', u'stop_code'):
      v = r.choice(VALUES)
    obj = {'stops': lambda: s.GetStop(d[u'stop_id']),
           'routes': lambda: s.GetRoute(d[u'route_id']),
           'trips': lambda: s.GetTrip(d[u'trip_id']),
           'agency': lambda: s.GetAgency(d.get(u'agency_id')),
           'feed_info': lambda: s.feed_info}[table]()
    setattr(obj, u8(name), v)
    ensure_col(m, table, name)
    model.put(m, table, i, name, v)
    return '%s.%s' % (table, name)
  if op == 'add_stop':
    sid = u'NS%d' % r.below(1000)
    if sid in s.stops:
      return None
    st0 = model.dicts(m, 'stops')
    if not st0:
      return None
    la = float(st0[0][u'stop_lat']) - 0.001 * (1 + r.below(4))
    lo = float(st0[0][u'stop_lon']) + 0.0002 * r.below(10)
    la, lo = float('%.6f' % la), float('%.6f' % lo)
    s.AddStop(la, lo, u'New \xe9 %s' % sid, sid)
    append(m, 'stops', {u'stop_id': sid, u'stop_name': u'New \xe9 %s' % sid,
                        u'stop_lat': u'%.6f' % la, u'stop_lon': u'%.6f' % lo})
    return op
  if op == 'add_agency':
    aid = u'NA%d' % r.below(1000)
    if aid in [a.agency_id for a in s.GetAgencyList()]:
      return None
    s.AddAgency(u'N', u'http://n.example.com', u'America/Los_Angeles', aid)
    append(m, 'agency', {u'agency_id': aid, u'agency_name': u'N',
                         u'agency_url': u'http://n.example.com',
                         u'agency_timezone': u'America/Los_Angeles'})
    # routes without an agency would now be ambiguous
    for i, d in enumerate(model.dicts(m, 'routes')):
      if not d.get(u'agency_id'):
        ensure_col(m, 'routes', u'agency_id')
        other = [x[u'agency_id'] for x in model.dicts(m, 'agency')][0]
        model.put(m, 'routes', i, u'agency_id', other)
        s.GetRoute(d[u'route_id']).agency_id = other
    return op
  if op == 'add_route':
    rid = u'NR%d' % r.below(1000)
    ag = model.dicts(m, 'agency')
    if rid in s.routes or len(ag) != 1:
      return None
    s.AddRoute(u'9', u'Nine', r.choice(['Bus', 'Tram']), rid)
    ty = s.GetRoute(rid).route_type
    append(m, 'routes', {u'route_id': rid, u'route_short_name': u'9',
                         u'route_long_name': u'Nine',
                         u'route_type': u'%d' % ty,
                         u'agency_id': ag[0][u'agency_id']})
    return op
  if op == 'add_trip':
    i, d = row('routes')
    j, c = row('calendar')
    if d is None or c is None or len(m['stops']['rows']) < 2:
      return None
    tid = u'NT%d' % r.below(1000)
    if tid in s.trips:
      return None
    trip = s.GetRoute(d[u'route_id']).AddTrip(
        s, u'head', s.GetServicePeriod(c[u'service_id']), tid)
    append(m, 'trips', {u'trip_id': tid, u'route_id': d[u'route_id'],
                        u'service_id': c[u'service_id'],
                        u'trip_headsign': u'head'})
    now = r.choice([0, 0, 3600 * 7, 3600 * 25])
    stops = [x for x in model.dicts(m, 'stops')
             if x.get(u'location_type') != u'1']
    for k in range(r.between(1, 3)):
      st = stops[r.below(len(stops))]
      d2 = {u'trip_id': tid, u'stop_id': st[u'stop_id'],
            u'arrival_time': model.hms(now),
            u'departure_time': model.hms(now + 30),
            u'stop_sequence': u'%d' % (k + 1),
            u'pickup_type': r.choice([u'', u'0', u'1']),
            u'timepoint': r.choice([u'', u'0', u'1'])}
      build.add_stop_time(s, trip, d2)
      append(m, 'stop_times', d2)
      now += 600
    return op
  if op == 'st_append':
    i, d = row('trips')
    stops = [x for x in model.dicts(m, 'stops')
             if x.get(u'location_type') != u'1']
    if d is None or not stops:
      return None
    trip = s.GetTrip(d[u'trip_id'])
    mine = [x for x in model.dicts(m, 'stop_times')
            if x[u'trip_id'] == d[u'trip_id']]
    last = -1
    seq = 0
    for x in mine:
      seq = max(seq, int(x[u'stop_sequence']))
      for k in (u'arrival_time', u'departure_time'):
        if x[k]:
          last = max(last, model.secs_of(x[k]))
    t = last + 300
    st = stops[r.below(len(stops))]
    d2 = {u'trip_id': d[u'trip_id'], u'stop_id': st[u'stop_id'],
          u'arrival_time': model.hms(t), u'departure_time': model.hms(t),
          u'stop_sequence': u'%d' % (seq + 1 if mine else 1)}
    trip.AddStopTime(s.GetStop(st[u'stop_id']), schedule=s,
                     arrival_secs=t, departure_secs=t)
    append(m, 'stop_times', d2)
    return op
  if op == 'clear_trip':
    i, d = row('trips')
    if d is None or r.chance(50):
      return None
    if d[u'trip_id'] in [x[u'trip_id'] for x in model.dicts(m, 'frequencies')]:
      return None
    s.GetTrip(d[u'trip_id']).ClearStopTimes()
    t = m['stop_times']
    k = model.col(t, 'trip_id')
    t['rows'] = [x for x in t['rows'] if x[k] != d[u'trip_id']]
    return op
  if op == 'replace_st':
    i, d = row('stop_times')
    if d is None:
      return None
    trip = s.GetTrip(d[u'trip_id'])
    sts = [x for x in trip.GetStopTimes()
           if x.stop_sequence == int(d[u'stop_sequence'])]
    if len(sts) != 1:
      return None
    st = sts[0]
    hs = u'new %s' % r.choice(VALUES)
    st.stop_headsign = hs
    p = r.below(4)
    st.pickup_type = p
    trip.ReplaceStopTimeObject(st)
    for name, v in ((u'stop_headsign', hs), (u'pickup_type', u'%d' % p)):
      ensure_col(m, 'stop_times', name)
      model.put(m, 'stop_times', i, name, v)
    return op
  if op == 'set_exc':
    ids = sorted(s.service_periods)
    if not ids:
      return None
    sid = ids[r.below(len(ids))]
    date = u'2014%02d%02d' % (r.between(5, 11), r.between(1, 28))
    has = r.chance(50)
    s.GetServicePeriod(sid).SetDateHasService(date, has)
    ensure_table(m, 'calendar_dates', [u'service_id', u'date',
                                       u'exception_type'])
    t = m['calendar_dates']
    t['rows'] = [x for x in t['rows']
                 if not (dict(zip(t['cols'], x))[u'service_id'] == sid and
                         dict(zip(t['cols'], x))[u'date'] == date)]
    append(m, 'calendar_dates', {u'service_id': sid, u'date': date,
                                 u'exception_type': u'1' if has else u'2'})
    return op
  if op == 'del_exc':
    i, d = row('calendar_dates')
    if d is None:
      return None
    if not [c for c in model.dicts(m, 'calendar')
            if c[u'service_id'] == d[u'service_id']]:
      return None        # would leave a service period with no data at all
    s.GetServicePeriod(d[u'service_id']).ResetDateToNormalService(d[u'date'])
    del m['calendar_dates']['rows'][i]
    return op
  if op == 'cal_dow':
    i, d = row('calendar')
    if d is None:
      return None
    k = r.below(7)
    v = r.chance(50)
    s.GetServicePeriod(d[u'service_id']).SetDayOfWeekHasService(k, v)
    model.put(m, 'calendar', i, model.DAYS[k], u'1' if v else u'0')
    return op
  if op == 'cal_range':
    i, d = row('calendar')
    if d is None:
      return None
    e = u'2015%02d%02d' % (r.between(1, 12), r.between(1, 28))
    s.GetServicePeriod(d[u'service_id']).SetEndDate(e)
    model.put(m, 'calendar', i, 'end_date', e)
    return op
  if op == 'add_freq':
    i, d = row('trips')
    if d is None:
      return None
    if d[u'trip_id'] not in [x[u'trip_id']
                             for x in model.dicts(m, 'stop_times')]:
      return None
    if d[u'trip_id'] in [x[u'trip_id'] for x in model.dicts(m, 'frequencies')]:
      return None
    b = r.choice([0, 3600 * 6, 3600 * 23])
    ex = r.below(2)
    s.GetTrip(d[u'trip_id']).AddFrequency(model.hms(b), model.hms(b + 7200),
                                          600, ex)
    append(m, 'frequencies', {u'trip_id': d[u'trip_id'],
                              u'start_time': model.hms(b),
                              u'end_time': model.hms(b + 7200),
                              u'headway_secs': u'600',
                              u'exact_times': u'%d' % ex})
    return op
  if op == 'clear_freq':
    i, d = row('trips')
    if d is None or 'frequencies' not in m:
      return None
    s.GetTrip(d[u'trip_id']).ClearFrequencies()
    t = m['frequencies']
    k = model.col(t, 'trip_id')
    t['rows'] = [x for x in t['rows'] if x[k] != d[u'trip_id']]
    return op
  if op == 'add_fare':
    fid = u'NF%d' % r.below(100)
    if fid in s.fares:
      return None
    price = r.choice([u'0.0', u'1.5', u'12.25'])
    tr = r.choice([None, 0, 1, 2])
    pm = r.below(2)
    s.AddFareAttributeObject(transitfeed.FareAttribute(
        fid, float(price), 'EUR', pm, tr))
    append(m, 'fare_attributes', {
        u'fare_id': fid, u'price': price, u'currency_type': u'EUR',
        u'payment_method': u'%d' % pm,
        u'transfers': u'' if tr is None else u'%d' % tr})
    return op
  if op == 'add_rule':
    i, d = row('fare_attributes')
    j, rt = row('routes')
    if d is None or rt is None:
      return None
    s.AddFareRuleObject(transitfeed.FareRule(d[u'fare_id'], rt[u'route_id']))
    append(m, 'fare_rules', {u'fare_id': d[u'fare_id'],
                             u'route_id': rt[u'route_id']})
    return op
  if op == 'add_transfer':
    i, d = row('stops')
    j, e = row('stops')
    if d is None:
      return None
    ty = r.below(4)
    mt = 0 if r.chance(30) else 300
    dd = {u'from_stop_id': d[u'stop_id'], u'to_stop_id': e[u'stop_id'],
          u'transfer_type': u'%d' % ty}
    if ty == 2:
      dd[u'min_transfer_time'] = u'%d' % mt
    s.AddTransferObject(transitfeed.Transfer(field_dict=dict(dd)))
    append(m, 'transfers', dd)
    return op
  if op == 'add_shape':
    sid = u'NSH%d' % r.below(100)
    if sid in [x.shape_id for x in s.GetShapeList()]:
      return None
    sh = transitfeed.Shape(sid)
    withd = r.chance(50)
    for k in range(r.between(1, 4)):
      la, lo = 10 + k * 0.01, 20.0 + r.below(5) * 0.001
      sh.AddPoint(la, lo, k * 1.5 if withd else None)
      dd = {u'shape_id': sid, u'shape_pt_lat': u'%.6f' % la,
            u'shape_pt_lon': u'%.6f' % lo, u'shape_pt_sequence': u'%d' % k}
      if withd:
        dd[u'shape_dist_traveled'] = u'%.1f' % (k * 1.5)
      append(m, 'shapes', dd)
    s.AddShapeObject(sh)
    return op
  raise Exception(op)


def run(trace, ctx):
  w = World(ctx, start=trace['now'])
  ctx.world = w
  m = model.copy_feed(trace['feed'])
  mem = trace['memory_db']
  with w:
    if trace['start'] == 'api':
      s, rec = build.api_build(m, trace['style'], mem)
      ctx.check(not rec.errors(), 'clean-feed-rejected-by-api',
                lambda: canon(rec.errors()[:3]))
    else:
      path = '/sim/in.zip' if trace['start'] == 'load_zip' else '/sim/in'
      drive.put_feed(w, m, path)
      s, rec = drive.load(w, path, memory_db=mem,
                          extra=bool(trace['load_opts'] & 1))
      ctx.check(not rec.errors(), 'clean-feed-rejected',
                lambda: canon(rec.errors()[:3]))
    d = model.diff_meaning(model.meaning(m), drive.loaded_meaning(s))
    ctx.check(d is None, 'schedule-differs-from-source', lambda: canon(d))
    durable = None
    durable_model = None
    saves = 0
    for k, (op, seed) in enumerate(trace['ops']):
      ctx.steps += 1
      w.clock.advance(3600)
      if op == 'save':
        simdictify(s, trace['salt'] + k)
        mode = seed % 3
        path = '/sim/out%d.zip' % (seed % 2)
        if mode == 2:
          from StringIO import StringIO
          buf = StringIO()
          s.WriteGoogleTransitFeed(buf)
          data = buf.getvalue()
          w.fs.put(path, data)
        else:
          s.WriteGoogleTransitFeed(path)
          data = w.fs.get(path)
        saves += 1
        try:
          f = model.read_zip_feed(data)
        except Exception as e:
          ctx.violate('saved-file-unreadable', repr(e))
        d = model.diff_meaning(model.meaning(m), model.meaning(f))
        ctx.check(d is None, 'saved-feed-differs', lambda: canon(d))
        for req in ('agency', 'stops', 'routes', 'trips', 'stop_times'):
          if m.get(req) and m[req]['rows']:
            ctx.check(req in f, 'saved-feed-misses-table', req)
        durable = path
        durable_model = model.copy_feed(m)
        ctx.ev('save', len(f), sorted(f))
      elif op == 'restart':
        if durable is None:
          continue
        ctx.fault('process_restart')
        w.fs.reboot()
        m = model.copy_feed(durable_model)
        s, rec = drive.load(w, durable, memory_db=mem,
                            extra=bool(trace['load_opts'] & 2))
        for e in rec.errors()[:1]:
          ctx.violate('reload-reports-errors:%s:%s:%s' % (
              e['cls'], e['file'], ''.join(
                  c for c in e['text'] if c.isalpha())[:40]),
                      canon(rec.errors()[:3]))
        d = model.diff_meaning(model.meaning(m), drive.loaded_meaning(s))
        ctx.check(d is None, 'reloaded-feed-differs', lambda: canon(d))
        ctx.ev('restart', canon(sorted(model.meaning(m))))
      else:
        label = edit(op, seed, m, s)
        if label:
          ctx.probe('edit_' + op)
          ctx.ev(op, label)
    ctx.probe('start_' + trace['start'])
    ctx.sig = ctx.digest()
