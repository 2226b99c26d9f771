# -*- coding: utf-8 -*-
"""Reports about places: unused and wrongly used stops, stations and their
children, stops on top of each other, transfers, stops off their shape, unused
shapes, time zones.

A network is loaded, validated, rebuilt step by step, validated after each
step, saved and loaded in other hash orders; every validation must report
exactly what a model finds by comparing every pair of places.
"""
import math

import model
from core import canon, u8, uni
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('ops', 'stops', 'trips', 'transfers', 'shapes')
SHRINK_KEYS = ()
R = 6371010.0
ANCHORS = [[0.0, 35.0], [45.0, -120.0], [-33.5, 0.0], [10.0, 179.99995],
           [64.0, 20.5], [0.4, 0.3], [0.0, 0.0], [-89.0, 50.0], [21.3, -157.8]]
NEAR = [0, 0, 0.3, 1.5, 1.9, 1.95, 2.1, 2.3, 5]
FAR = [50, 95, 105, 500, 950, 1050, 1900, 2100, 3000, 9700, 10300, 40000]
ZONES = ['America/Los_Angeles', 'Europe/Berlin']


def gen_place(rng, anchors):
  d = rng.choice(NEAR) if rng.chance(60) else rng.choice(FAR)
  return [rng.choice(anchors), d, rng.choice([0, 90, 180, 270, 45, 200])]


def gen_stop(rng, anchors, ns):
  return [gen_place(rng, anchors), rng.weighted([(0, 6), (1, 3)]),
          rng.weighted([(None, 5), (rng.below(ns), 6), ('nowhere', 1)])]


def gen_trip(rng, ns, nsh):
  return [rng.choice([None] + list(range(nsh)) * 2) if nsh else None,
          [[rng.below(ns), rng.choice([None, 0, 10, 1000, 1500, 3000, 5000,
                                       rng.below(6000)])]
           for _ in range(rng.weighted([(0, 1), (1, 1), (2, 3), (4, 4),
                                        (7, 2)]))]]


def gen_transfer(rng, ns):
  return [rng.below(ns), rng.below(ns), rng.choice([0, 1, 2, 2, 2, 3]),
          rng.choice([None, None, 0, 60, 300, 400, 900, 1500, 5000])]


def gen(rng, tier, index):
  anchors = [rng.below(len(ANCHORS)) for _ in range(rng.between(1, 3))]
  ns = rng.between(1, 9)
  shapes = []
  for _ in range(rng.weighted([(0, 2), (1, 3), (3, 2)])):
    d, pts = rng.choice([0, 0, 100]), []
    for _ in range(rng.between(2, 6)):
      pts.append([gen_place(rng, [a for a in anchors if a not in (3, 5, 6, 8)] or
                            [1]), d])
      d += rng.choice([10, 500, 1000, 2500])
    shapes.append([rng.chance(85), pts])
  ops = []
  for _ in range(rng.between(0, 8)):
    ops.append(rng.weighted([
        (['move', rng.below(ns), gen_place(rng, anchors)], 4),
        (['type', rng.below(ns), rng.below(2)], 3),
        (['parent', rng.below(ns), rng.choice(
            [None, 'nowhere', rng.below(ns), rng.below(ns)])], 3),
        (['clear', rng.below(4)], 2),
        (['call', rng.below(4), rng.below(ns)], 3),
        (['shape', rng.below(4), rng.below(max(1, len(shapes)))
          if rng.chance(70) else None], 2),
        (['transfer', gen_transfer(rng, ns)], 3),
        (['zone', rng.below(3), rng.below(2)], 1),
        (['reload', rng.below(1000)], 3)]))
  return {'stops': [gen_stop(rng, anchors, ns) for _ in range(ns)],
          'shapes': shapes,
          'trips': [gen_trip(rng, ns, len(shapes))
                    for _ in range(rng.between(0, 4))],
          'transfers': [gen_transfer(rng, ns) for _ in range(rng.below(5))],
          'zones': [rng.chance(25) and 1 or 0
                    for _ in range(rng.between(1, 3))],
          'ops': ops, 'salt': rng.below(1000), 'db': rng.chance(75),
          'children': rng.chance(60)}


def place(p):
  """[anchor, metres, bearing] -> (lat, lon), short decimals."""
  lat, lon = ANCHORS[p[0]]
  m, b = p[1], math.radians(p[2])
  lat2 = lat + math.degrees(m * math.cos(b) / R)
  lon2 = lon + math.degrees(m * math.sin(b) / R / math.cos(math.radians(lat)))
  while lon2 > 180:
    lon2 -= 360
  return float('%.7f' % lat2), float('%.7f' % lon2)


def dist(a, b):
  """Great circle by the chord between unit vectors."""
  v = []
  for lat, lon in (a, b):
    la, lo = math.radians(lat), math.radians(lon)
    v.append((math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
              math.sin(la)))
  c = math.sqrt(sum((x - y) ** 2 for x, y in zip(*v)))
  return 2 * R * math.asin(min(1.0, c / 2))


def far(a, b):
  """The earth is no sphere: its radius is known to half a percent."""
  return abs(a - b) > 0.005 * b


def over(name, sev, who, d, lim, top):
  if d * 1.005 <= lim or d * 0.995 > top:
    return []
  return [((name, sev) + who, d, far(lim, d) and far(top, d))]


class State(object):
  def __init__(self, t):
    self.stops = []
    for p, typ, parent in t['stops']:
      self.stops.append({'at': place(p), 'type': typ,
                         'parent': self.parent(parent, len(t['stops']))})
    self.shapes = [[d, [(place(p), x) for p, x in pts]]
                   for d, pts in t['shapes']]
    n = len(t['stops'])
    self.trips = [[s if s is None or s < len(t['shapes']) else None,
                   [[k % n, d] for k, d in calls]] for s, calls in t['trips']]
    self.transfers = [[a % n, b % n, c, d] for a, b, c, d in t['transfers']]
    self.zones = list(t['zones'])

  @staticmethod
  def parent(v, n):
    return v if v is None or v == 'nowhere' else v % n

  def pid(self, s):
    p = s['parent']
    return u'' if p is None else u'nowhere' if p == 'nowhere' else u'S%d' % p

  def feed(self):
    f = {}
    t = f['agency'] = model.new_table(
        [u'agency_id', u'agency_name', u'agency_url', u'agency_timezone'])
    for i, z in enumerate(self.zones):
      t['rows'].append([u'A%d' % i, u'Agency %d' % i, u'http://a.example.com',
                        uni(ZONES[z])])
    t = f['routes'] = model.new_table(
        [u'route_id', u'agency_id', u'route_short_name', u'route_long_name',
         u'route_type'])
    t['rows'].append([u'R', u'A0', u'1', u'Line', u'3'])
    t = f['stops'] = model.new_table(
        [u'stop_id', u'stop_name', u'stop_lat', u'stop_lon', u'location_type',
         u'parent_station'])
    for i, s in enumerate(self.stops):
      t['rows'].append([u'S%d' % i, u'Stop %d' % i, uni(repr(s['at'][0])),
                        uni(repr(s['at'][1])), uni(str(s['type'])),
                        self.pid(s)])
    t = f['calendar'] = model.new_table(
        [u'service_id'] + list(model.DAYS) + [u'start_date', u'end_date'])
    t['rows'].append([u'C'] + [u'1'] * 7 + [u'20140501', u'20141001'])
    t = f['trips'] = model.new_table(
        [u'route_id', u'service_id', u'trip_id', u'shape_id'])
    st = f['stop_times'] = model.new_table(
        [u'trip_id', u'arrival_time', u'departure_time', u'stop_id',
         u'stop_sequence', u'shape_dist_traveled'])
    for i, (sh, calls) in enumerate(self.trips):
      t['rows'].append([u'R', u'C', u'T%d' % i,
                        u'' if sh is None else u'SH%d' % sh])
      for k, (s, d) in enumerate(calls):
        at = model.hms(21600 + 3600 * k)
        st['rows'].append([u'T%d' % i, at, at, u'S%d' % s, uni(str(k + 1)),
                           u'' if d is None else uni(str(d))])
    if self.shapes:
      t = f['shapes'] = model.new_table(
          [u'shape_id', u'shape_pt_lat', u'shape_pt_lon',
           u'shape_pt_sequence', u'shape_dist_traveled'])
      for i, (has, pts) in enumerate(self.shapes):
        for k, (p, d) in enumerate(pts):
          t['rows'].append([u'SH%d' % i, uni(repr(p[0])), uni(repr(p[1])),
                            uni(str(k)), uni(str(d)) if has else u''])
    if self.transfers:
      t = f['transfers'] = model.new_table(
          [u'from_stop_id', u'to_stop_id', u'transfer_type',
           u'min_transfer_time'])
      for a, b, c, d in self.transfers:
        t['rows'].append([u'S%d' % a, u'S%d' % b, uni(str(c)),
                          u'' if d is None else uni(str(d))])
    return f

  # -- what must be reported: [(key, distance or None, must)]

  def transfer_rules(self, which=None):
    out = []
    for a, b, typ, need in self.transfers if which is None else which:
      ab = ('S%d' % a, 'S%d' % b)
      d = dist(self.stops[a]['at'], self.stops[b]['at'])
      for lim, top, sev in ((10000, 1e9, 0), (2000, 10000, 1)):
        out += over('TransferDistanceTooBig', sev, ab, d, lim, top)
      if need is not None:
        if typ != 2:
          out.append((('MinimumTransferTimeSetWithInvalidTransferType', 0,
                       typ), None, True))
        if need + 120 < d / 2 * 1.005:
          out.append((('TransferWalkingSpeedTooFast', 1) + ab + (need,), d,
                      far(need + 120, d / 2)))
    return out

  def stop_rules(self):
    """Said about each stop on its own."""
    out = []
    for i, s in enumerate(self.stops):
      if abs(s['at'][0]) < 1 and abs(s['at'][1]) < 1:
        out.append((('stop_lat', 1, repr(s['at'][0])), None, True))
      if s['type'] == 1 and s['parent'] is not None:
        out.append((('parent_station', 0, u8(self.pid(s))), None, True))
    return out

  def rules(self, children):
    out = list(self.stop_rules()) if children else []
    served = set(s for _, calls in self.trips for s, _ in calls)
    for i, s in enumerate(self.stops):
      me = 'S%d' % i
      if s['type'] == 0 and i not in served:
        out.append((('UnusedStop', 1, me), None, True))
      if s['type'] == 1 and i in served:
        out.append((('UsedStation', 0, me), None, True))
      if s['type'] == 0 and s['parent'] is not None:
        p = s['parent']
        if p == 'nowhere' or self.stops[p]['type'] != 1:
          out.append((('parent_station', 0, u8(self.pid(s))), None, True))
        else:
          d = dist(s['at'], self.stops[p]['at'])
          for lim, top, sev in ((1000, 1e9, 0), (100, 1000, 1)):
            out += over('StopTooFarFromParentStation', sev,
                        (me, 'S%d' % p), d, lim, top)
    for i, a in enumerate(self.stops):
      for j in range(i + 1, len(self.stops)):
        b = self.stops[j]
        d = dist(a['at'], b['at'])
        if d > 2.01:
          continue
        sure = d < 1.99
        pair = tuple(sorted(['S%d' % i, 'S%d' % j]))
        if a['type'] == b['type'] == 0:
          out.append((('StopsTooClose', 1) + pair, d, sure))
        elif a['type'] == b['type'] == 1:
          out.append((('StationsTooClose', 1) + pair, d, sure))
        else:
          st, k = (a, j) if a['type'] == 0 else (b, i)
          if st['parent'] != k:
            out.append((('DifferentStationTooClose', 1) + pair, d, sure))
    for i, (sh, calls) in enumerate(self.trips):
      if sh is None:
        continue
      has, pts = self.shapes[sh]
      if not has or pts[-1][1] <= 0:
        continue
      for s, d in calls:
        if d is None:
          continue
        p = along(pts, d)
        if p is None:
          continue
        x = dist(p, self.stops[s]['at'])
        out += over('StopTooFarFromShapeWithDistTraveled', 1,
                    ('T%d' % i, 'S%d' % s), x, 1000, 1e9)
    used = set(sh for sh, _ in self.trips)
    idle = ['SH%d' % i for i in range(len(self.shapes)) if i not in used]
    if idle:
      out.append((('unused shapes', 1, ', '.join(sorted(idle))), None, True))
    if len(set(self.zones)) > 1:
      out.append((('agency_timezone', 0, '"%s"' % '", "'.join(sorted(ZONES))),
                  None, True))
    return out


def along(pts, d):
  """None where a straight line on the map is no line on the ground."""
  if any(abs(a[0][1] - b[0][1]) > 180 for a, b in zip(pts, pts[1:])):
    return None
  if d <= pts[0][1]:
    return pts[0][0]
  for (p, x), (q, y) in zip(pts, pts[1:]):
    if x <= d <= y:
      f = float(d - x) / (y - x)
      return (p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1]))
  return pts[-1][0]


def reported(rec):
  """[(key, distance)] of the reports about places."""
  out = []
  for e in rec.raw:
    c, t = e.__class__.__name__, e.GetType()
    s = lambda n: u8(uni(getattr(e, n)))
    if c in ('UnusedStop', 'UsedStation'):
      out.append(((c, t, s('stop_id')), None))
    elif c == 'StopTooFarFromParentStation':
      out.append(((c, t, s('stop_id'), s('parent_stop_id')), e.distance))
    elif c in ('StopsTooClose', 'StationsTooClose'):
      out.append(((c, t) + tuple(sorted([s('stop_id_a'), s('stop_id_b')]))
                  if hasattr(e, 'stop_id_a') else
                  (c, t) + tuple(sorted([s('station_id_a'),
                                         s('station_id_b')])), e.distance))
    elif c == 'DifferentStationTooClose':
      out.append(((c, t) + tuple(sorted([s('stop_id'), s('station_stop_id')])),
                  e.distance))
    elif c == 'TransferDistanceTooBig':
      out.append(((c, t, s('from_stop_id'), s('to_stop_id')), e.distance))
    elif c == 'TransferWalkingSpeedTooFast':
      out.append(((c, t, s('from_stop_id'), s('to_stop_id'),
                   e.transfer_time), e.distance))
    elif c == 'MinimumTransferTimeSetWithInvalidTransferType':
      out.append(((c, t, e.transfer_type), None))
    elif c == 'StopTooFarFromShapeWithDistTraveled':
      out.append(((c, t, s('trip_id'), s('stop_id')), e.distance))
    elif c == 'InvalidValue' and e.column_name in (
        'parent_station', 'stop_lat', 'agency_timezone'):
      v = e.value
      out.append(((u8(e.column_name), t, repr(v) if isinstance(v, float) else
                   u8(uni(v))), None))
    elif c == 'OtherProblem' and 'used by any trips' in e.description:
      out.append((('unused shapes', t, u8(uni(e.description.split(': ')[1]))),
                  None))
  return out


def judge(ctx, where, rec, rules, trace):
  got = reported(rec)
  left = list(rules)
  for k, d in got:
    hit = [x for x in left if x[0] == k and (
        d is None or abs(d - x[1]) <= 0.01 + 0.005 * x[1])]
    ctx.check(hit, 'unjustified:%s:%s' % (where, k[0]),
              lambda: canon([k, d, [x for x in rules if x[0][0] == k[0]]]))
    left.remove(hit[0])
    ctx.probe(k[0] + ':%d' % k[1])
  for k, d, must in left:
    ctx.check(not must, 'unreported:%s:%s' % (where, k[0]),
              lambda: canon([k, d, got]))
  if rules:
    ctx.probe('judged')
  ctx.steps += 1


def load(ctx, w, trace, path, st, salt):
  s, rec = drive.load(w, path, memory_db=trace['db'])
  judge(ctx, 'load', rec, st.stop_rules() + st.transfer_rules(), trace)
  simdictify(s, salt)
  return s


def validate(ctx, s, trace, st):
  pr, rec = drive.reporter()
  s.Validate(pr, validate_children=trace['children'])
  judge(ctx, 'validate', rec, st.rules(trace['children']), trace)


def run(trace, ctx):
  if not trace['stops']:
    return
  st = State(trace)
  w = World(ctx, start=drive.NOW, net_plan=[])
  ctx.world = w
  with w:
    drive.put_feed(w, st.feed(), '/sim/a.zip')
    s = load(ctx, w, trace, '/sim/a.zip', st, trace['salt'])
    validate(ctx, s, trace, st)
    for op in trace['ops']:
      s = apply(ctx, w, s, trace, st, op)
      if s is None:
        return
      validate(ctx, s, trace, st)
      ctx.probe('op_' + op[0])
  ctx.sig = canon([[o[0] for o in trace['ops']], len(st.stops), len(st.trips),
                   sorted(k for k, n in ctx.probes.items())])


def apply(ctx, w, s, trace, st, op):
  k, n = op[0], len(st.stops)
  if k in ('move', 'type', 'parent'):
    i = op[1] % n
    stop = s.GetStop('S%d' % i)
    if k == 'move':
      st.stops[i]['at'] = place(op[2])
      stop.stop_lat, stop.stop_lon = st.stops[i]['at']
    elif k == 'type':
      st.stops[i]['type'] = stop.location_type = op[2]
    else:
      st.stops[i]['parent'] = st.parent(op[2], n)
      stop.parent_station = st.pid(st.stops[i])
  elif k in ('clear', 'call', 'shape'):
    if not st.trips:
      return s
    i = op[1] % len(st.trips)
    trip = s.GetTrip('T%d' % i)
    if k == 'clear':
      st.trips[i][1] = []
      trip.ClearStopTimes()
    elif k == 'call':
      at = model.hms(21600 + 3600 * len(st.trips[i][1]))
      st.trips[i][1].append([op[2] % n, None])
      pr, rec = drive.reporter()
      trip.AddStopTime(s.GetStop('S%d' % (op[2] % n)), problems=pr, schedule=s,
                       stop_time=u8(at))
    elif st.shapes:
      st.trips[i][0] = None if op[2] is None else op[2] % len(st.shapes)
      trip.shape_id = u'' if op[2] is None else u'SH%d' % st.trips[i][0]
  elif k == 'transfer':
    a, b, c, d = op[1]
    x = [a % n, b % n, c, d]
    st.transfers.append(x)
    t = transitfeed.Transfer(from_stop_id=u'S%d' % x[0], transfer_type=c,
                             to_stop_id=u'S%d' % x[1], min_transfer_time=d)
    pr, rec = drive.reporter()
    s.AddTransferObject(t, pr)
    t.Validate(pr)
    judge(ctx, 'transfer', rec, st.transfer_rules([x]), trace)
  elif k == 'zone':
    i = op[1] % len(st.zones)
    st.zones[i] = op[2]
    s.GetAgency('A%d' % i).agency_timezone = uni(ZONES[op[2]])
  else:
    s.WriteGoogleTransitFeed('/sim/b.zip')
    s = load(ctx, w, trace, '/sim/b.zip', st, op[1])
  return s
