# -*- coding: utf-8 -*-
"""Pairs of feeds to merge, and a reference model of their merged feed.

Which entities are the same in both feeds is decided here from the rows alone
(rule()); the ids they get in the merged feed are the merger's choice, read
from its merge maps, and everything else follows from them (expected())."""
import datetime

import build
import damage
import model
from core import HarnessError, uni
from props.p11 import dist

KEY = {'agency': u'agency_id', 'stops': u'stop_id', 'routes': u'route_id',
       'services': u'service_id', 'trips': u'trip_id', 'shapes': u'shape_id',
       'fare_attributes': u'fare_id'}
REFS = {u'agency_id': ['routes'],
        u'stop_id': ['stop_times', 'transfers:from_stop_id',
                     'transfers:to_stop_id', 'stops:parent_station'],
        u'route_id': ['trips', 'fare_rules'],
        u'service_id': ['trips', 'calendar', 'calendar_dates'],
        u'trip_id': ['stop_times', 'frequencies'],
        u'shape_id': ['trips', 'shapes'],
        u'fare_id': ['fare_rules']}
EDITS = {'agency': [u'agency_name', u'agency_url', u'agency_timezone',
                    u'agency_lang', u'agency_phone'],
         'stops': [u'stop_name', u'zone_id', u'stop_desc', u'stop_lat',
                   u'stop_lon', u'stop_code', 'case', 'near', 'far'],
         'routes': [u'route_short_name', u'route_long_name', u'route_type',
                    u'route_url', u'route_color', u'route_desc', u'agency_id'],
         'fare_attributes': [u'price', u'payment_method', u'transfers',
                             u'transfer_duration', u'currency_type'],
         'shapes': ['near', 'far', 'middle', 'short', 'long'],
         'transfers': [u'transfer_type']}


def shift_days(feed, days):
  def move(t, c):
    if t and c in t['cols']:
      i = model.col(t, c)
      for r in t['rows']:
        if r[i]:
          r[i] = model.ymd(model.todate(r[i]) + datetime.timedelta(days))
  for c in (u'start_date', u'end_date'):
    move(feed.get('calendar'), c)
  move(feed.get('calendar_dates'), u'date')
  for c in (u'feed_start_date', u'feed_end_date'):
    move(feed.get('feed_info'), c)


def rename(feed, key, old, new):
  """Gives the entity another id everywhere (unless new is taken)."""
  for name, t in feed.items():
    if key in t['cols'] and name not in ('stop_times', 'frequencies',
                                         'fare_rules'):
      i = model.col(t, key)
      if name == 'routes' and key == u'agency_id':
        continue
      if len([r for r in t['rows'] if r[i] == new]):
        return
  places = [(n, key) for n in feed]
  if key == u'stop_id':
    places += [('transfers', u'from_stop_id'), ('transfers', u'to_stop_id'),
               ('stops', u'parent_station')]
  for n, c in places:
    t = feed.get(n)
    if t and c in t['cols']:
      i = model.col(t, c)
      for r in t['rows']:
        if r[i] == old:
          r[i] = new


def edit(feed, op):
  """One small change of the kind feeds undergo between two versions."""
  kind, table, pos, what, arg = op
  t = feed.get(table)
  if not t or not t['rows']:
    return
  row = t['rows'][pos % len(t['rows'])]

  def setc(c, v):
    if c not in t['cols']:
      t['cols'].append(c)
      for r in t['rows']:
        r.append(u'')
    row[model.col(t, c)] = v

  def getc(c):
    return row[model.col(t, c)] if c in t['cols'] else u''

  if kind == 'rename':
    k = KEY.get(table) or KEY['services']
    if getc(k):
      rename(feed, k, getc(k), getc(k) + [u'n', u'_merged_7', u'7',
                                          u'_merged_12'][arg % 4])
    return
  if kind == 'zone':
    z = getc(u'zone_id')
    if z:
      new = z + [u'_merged_9', u'_merged_1', u'x', u'_merged_14'][arg % 4]
      for n, c in (('stops', u'zone_id'), ('fare_rules', u'origin_id'),
                   ('fare_rules', u'destination_id'),
                   ('fare_rules', u'contains_id')):
        tt = feed.get(n)
        if tt and c in tt['cols']:
          for r in tt['rows']:
            if r[model.col(tt, c)] == z:
              r[model.col(tt, c)] = new
    return
  if kind == 'blankcol':
    # an optional column which is empty in one feed, missing in the other
    c = [u'zone_id', u'route_url', u'transfer_duration', u'stop_desc'][arg % 4]
    if c not in t['cols'] and table in ('stops', 'routes', 'fare_attributes'):
      setc(c, u'')
    return
  c = what
  if table == 'stops' and c in ('near', 'far', u'stop_lat', u'stop_lon'):
    d = [1e-5, 3e-5, 8e-5, 1.2e-4][arg % 4] if c == 'near' else \
        [3e-4, 6e-4, 1e-3, 2e-3][arg % 4] if c == 'far' else 5e-5
    cc = u'stop_lon' if c == u'stop_lon' else u'stop_lat'
    setc(cc, u'%.6f' % (float(getc(cc)) + d))
  elif c == 'case':
    n = getc(u'stop_name')
    setc(u'stop_name', n.upper() if arg % 2 else n.title())
  elif table == 'shapes' and c in ('short', 'long'):
    # the line ends earlier, or goes on
    i, j = model.col(t, 'shape_id'), model.col(t, 'shape_pt_sequence')
    last = max((int(r[j]), r) for r in t['rows'] if r[i] == row[i])[1]
    if c == 'long':
      new = list(last)
      new[j] = uni(str(int(last[j]) + 1))
      k = model.col(t, 'shape_pt_lat')
      new[k] = u'%.6f' % (float(last[k]) + [1e-5, 5e-4, 3e-3][arg % 3])
      if u'shape_dist_traveled' in t['cols']:
        k = model.col(t, 'shape_dist_traveled')
        if new[k]:
          new[k] = uni(repr(float(new[k]) + 0.5))
      t['rows'].append(new)
    elif len([r for r in t['rows'] if r[i] == row[i]]) > 3:
      t['rows'].remove(last)
  elif table == 'shapes':
    d = [1e-5, 8e-5, 3e-4, 6e-4][arg % 4]
    setc(u'shape_pt_lat', u'%.6f' % (float(getc(u'shape_pt_lat')) + d))
  elif c == u'zone_id':
    setc(c, [u'z1', u'z2', u'z4', u'', u'z1_merged_%d' % (arg // 2),
             u'z2_merged_%d' % (arg // 2 + 3)][arg % 6])
  elif c == u'agency_timezone':
    for r in t['rows']:
      r[model.col(t, c)] = u'America/New_York'
  elif c == u'agency_lang':
    for r in t['rows']:
      if c in t['cols']:
        r[model.col(t, c)] = u'fr'
  elif c == u'agency_id' and table == 'routes':
    if c in t['cols']:
      ids = [d[u'agency_id'] for d in model.dicts(feed, 'agency')]
      setc(c, ids[arg % len(ids)])
  elif c in (u'stop_desc', u'stop_code', u'route_desc', u'agency_phone'):
    setc(c, [u'', u'edited %d' % (arg % 4)][arg % 2])
  elif c == u'route_type':
    setc(c, [u'0', u'2', u'3'][arg % 3])
  elif c in (u'route_url', u'agency_url'):
    setc(c, u'http://e%d.example.com' % (arg % 3) if c == u'agency_url' or
         arg % 2 else u'')
  elif c == u'route_color':
    setc(c, [u'', u'FFFFFF', u'CCDDEE'][arg % 3])
  elif c == u'price':
    setc(c, [u'1.25', u'3.0', u'1.5'][arg % 3])
  elif c == u'payment_method':
    setc(c, [u'0', u'1'][arg % 2])
  elif c == u'transfers':
    setc(c, [u'', u'1', u'2'][arg % 3])
  elif c == u'transfer_duration':
    if getc(u'transfers') != u'0':
      setc(c, [u'', u'3600', u'7200'][arg % 3])
  elif c == u'currency_type':
    for r in t['rows']:
      r[model.col(t, c)] = u'EUR'
  elif c == u'transfer_type':
    if getc(c) != u'2':
      setc(c, [u'0', u'1', u'3'][arg % 3])
  elif c in (u'agency_name', u'stop_name', u'route_long_name'):
    setc(c, getc(c) + u' bis')
  elif c == u'route_short_name':
    setc(c, getc(c) + u'x')


TABLES = ['agency', 'stops', 'stops', 'stops', 'routes', 'routes', 'calendar',
          'trips', 'shapes', 'fare_attributes', 'transfers']


def gen_edits(rng, n):
  out = []
  for _ in range(n):
    t = rng.choice(TABLES)
    kind = rng.weighted([('set', 6), ('rename', 3), ('zone', 1),
                         ('blankcol', 1)])
    if kind == 'zone':
      t = 'stops'
    if t not in EDITS and kind == 'set':
      kind = 'rename'
    if t == 'transfers':
      kind = 'set'
    out.append([kind, t, rng.below(50), rng.choice(EDITS.get(t, ['x'])),
                rng.below(60)])
  return out


def gen_feeds(rng, **kw):
  """The feeds a, b (and sometimes c), to be merged one after the other."""
  o = dict(calm=True, trips=(1, 4), stops=(2, 5), shapes=50, fares=60,
           transfers=60, extra_cols=rng.chance(40), exotic=rng.chance(50),
           stations=40)
  o.update(kw)
  a = model.gen_feed(rng, **o)
  if rng.chance(15) and len(a['agency']['rows']) == 1:
    i = model.col(a['agency'], 'agency_id')
    a['agency']['rows'][0][i] = u''
    if rng.chance(50):
      a['agency']['cols'].pop(i)
      a['agency']['rows'][0].pop(i)
  for op in gen_edits(rng, rng.choice([0, 0, 0, 2, 4])):
    if op[0] in ('rename', 'zone', 'blankcol'):
      edit(a, op)
  if rng.chance(25) and u'zone_id' in a['stops']['cols']:
    # zones named by an earlier merge
    i = model.col(a['stops'], u'zone_id')
    for r in a['stops']['rows'][1:]:
      r[i] = u'z1'
    a['stops']['rows'][0][i] = u'z1_merged_%d' % rng.between(4, 16)
    a.pop('fare_rules', None)
  feeds = [a]
  for k in range(rng.weighted([(1, 8), (2, 2)])):
    if rng.chance(70):
      b = model.copy_feed(a)
      for op in gen_edits(rng, rng.choice([0, 1, 3, 6, 12])):
        edit(b, op)
    else:
      b = model.gen_feed(rng, **o)
    shift_days(b, (k + 1) * rng.choice([170, 200, 400]))
    feeds.append(b)
  return feeds


def boundary(rng, trace):
  """Moves a stop or the end of a shape of the second feed to just within or
  just beyond the largest distance."""
  a, b = trace['feeds'][:2]
  kind, limit = rng.choice([('stops', trace['stop_limit']),
                            ('shapes', trace['shape_limit'])])
  if not a.get(kind) or not b.get(kind):
    return
  la, lo = (u'stop_lat', u'stop_lon') if kind == 'stops' else \
      (u'shape_pt_lat', u'shape_pt_lon')
  k = u'stop_id' if kind == 'stops' else u'shape_id'
  pos = [rng.below(len(b[kind]['rows']))]
  if kind == 'shapes':
    pos = [0 if rng.chance(50) else len(b[kind]['rows']) - 1]
  for i in pos:
    rb = b[kind]['rows'][i]
    ids = [r for r in a[kind]['rows']
           if r[model.col(a[kind], k)] == rb[model.col(b[kind], k)]]
    if not ids:
      return
    ra = ids[0]
    if kind == 'shapes':
      seq = lambda r: int(r[model.col(a[kind], u'shape_pt_sequence')])
      ids.sort(key=seq)
      ra = ids[0 if i == 0 else -1]
    f = rng.choice([0.9, 0.97, 0.995, 1.005, 1.03, 1.1])
    deg = limit * f / 6371010.0 * 180.0 / 3.141592653589793
    x, y = float(ra[model.col(a[kind], la)]), float(ra[model.col(a[kind], lo)])
    rb[model.col(b[kind], la)] = u'%.9f' % (x + deg * rng.choice([1, -1]))
    rb[model.col(b[kind], lo)] = u'%.9f' % y


# ---------------------------------------------------------------------------
# the reference
# ---------------------------------------------------------------------------
def entities(feed, kind):
  """{id: row as dict, or list of points} in the given feed."""
  if kind == 'services':
    ids = [d[u'service_id'] for n in ('calendar', 'calendar_dates')
           for d in model.dicts(feed, n)]
    return dict((i, {u'service_id': i}) for i in ids)
  if kind == 'shapes':
    by = {}
    for d in model.dicts(feed, 'shapes'):
      by.setdefault(d[u'shape_id'], []).append(
          (int(d[u'shape_pt_sequence']), float(d[u'shape_pt_lat']),
           float(d[u'shape_pt_lon'])))
    return dict((k, sorted(v)) for k, v in by.items())
  return dict((d.get(KEY[kind], u''), d) for d in model.dicts(feed, kind))


def lower(s):
  return uni(s).lower()


def rule(kind, ea, eb, limits, same_agency):
  """Are the entities ea and eb, which have the same id, one and the same?
  True, False or None (written differently though meaning the same)."""
  def same(table, *cols):
    unsure = False
    for c in cols:
      x, y = ea.get(c, u''), eb.get(c, u'')
      if x != y:
        if model.norm_cell(table, c, x) != model.norm_cell(table, c, y):
          return False
        unsure = True
    return None if unsure else True

  def both(*rs):
    return False if False in rs else None if None in rs else True

  def near(p, q, limit):
    d = dist(p, q)
    # the radius of the earth is anything from 6357 to 6378 km
    if abs(d - limit) < 3e-3 * limit:
      return None
    return d <= limit

  if kind in ('services', 'trips'):
    return False
  if kind == 'agency':
    return same(kind, u'agency_name', u'agency_url', u'agency_timezone')
  if kind == 'stops':
    p = (float(ea[u'stop_lat']), float(ea[u'stop_lon']))
    q = (float(eb[u'stop_lat']), float(eb[u'stop_lon']))
    return both(same(kind, u'zone_id', u'location_type'),
                lower(ea[u'stop_name']) == lower(eb[u'stop_name']),
                near(p, q, limits[0]))
  if kind == 'routes':
    def optional(c):
      x, y = ea.get(c, u''), eb.get(c, u'')
      return not x or not y or x == y
    return both(same(kind, u'route_short_name', u'route_long_name',
                     u'route_type'),
                same_agency(ea.get(u'agency_id', u''),
                            eb.get(u'agency_id', u'')),
                optional(u'route_url'), optional(u'route_color'),
                optional(u'route_text_color'))
  if kind == 'shapes':
    return both(near(ea[0][1:], eb[0][1:], limits[1]),
                near(ea[-1][1:], eb[-1][1:], limits[1]))
  if kind == 'fare_attributes':
    return same(kind, u'price', u'currency_type', u'payment_method',
                u'transfers', u'transfer_duration')
  raise HarnessError(kind)


ORDER = ['agency', 'stops', 'routes', 'services', 'fare_attributes', 'shapes',
         'trips']


def default_agency(feed, agency_id):
  if agency_id:
    return agency_id
  ids = list(entities(feed, 'agency'))
  return ids[0] if len(ids) == 1 else None


def matching(a, b, limits):
  """{kind: {id: True/False/None}} for the ids found in both feeds."""
  out = {}

  def same_agency(x, y):
    x, y = default_agency(a, x), default_agency(b, y)
    if x is None or y is None or x != y:
      return False if x != y else None
    return out['agency'].get(x, False)

  for kind in ORDER:
    ea, eb = entities(a, kind), entities(b, kind)
    out[kind] = {}
    for i in ea:
      if i in eb:
        out[kind][i] = rule(kind, ea[i], eb[i], limits, same_agency)
  return out


def new_id(ids, kind, i, which):
  try:
    return ids[which][kind][i]
  except KeyError:
    raise HarnessError('no merged id for %s %r of feed %d' % (kind, i, which))


def expected(a, b, ids, zones):
  """The merged feed.  ids[which][kind][old id] = merged id, zones[which] the
  same for zones (which is 0 for a, 1 for b)."""
  feeds = (a, b)
  out = {}

  def add(table, d):
    out.setdefault(table, []).append(d)

  def merged_with(kind, i):
    """the row of a which was merged with b's entity i"""
    m = ids[1][kind].get(i)
    for j, x in ids[0][kind].items():
      if x == m:
        return j
    return None

  for which in (1, 0):
    f = feeds[which]
    gone = lambda kind, i: which == 0 and \
        new_id(ids, kind, i, 0) in ids[1][kind].values()
    for d in model.dicts(f, 'agency'):
      i = d.get(u'agency_id', u'')
      if not gone('agency', i):
        d[u'agency_id'] = new_id(ids, 'agency', i, which)
        add('agency', d)
    for d in model.dicts(f, 'stops'):
      i = d[u'stop_id']
      if gone('stops', i):
        continue
      d[u'stop_id'] = new_id(ids, 'stops', i, which)
      if d.get(u'zone_id'):
        d[u'zone_id'] = zones[which][d[u'zone_id']]
      if d.get(u'parent_station'):
        d[u'parent_station'] = new_id(ids, 'stops', d[u'parent_station'],
                                      which)
      add('stops', d)
    for d in model.dicts(f, 'routes'):
      i = d[u'route_id']
      if gone('routes', i):
        continue
      d[u'route_id'] = new_id(ids, 'routes', i, which)
      ag = default_agency(f, d.get(u'agency_id', u''))
      d[u'agency_id'] = new_id(ids, 'agency', ag, which)
      j = merged_with('routes', i) if which else None
      if j is not None:
        other = entities(a, 'routes')[j]
        for c in (u'route_url', u'route_color', u'route_text_color'):
          d[c] = d.get(c) or other.get(c, u'')
      add('routes', d)
    for n in ('calendar', 'calendar_dates'):
      for d in model.dicts(f, n):
        d[u'service_id'] = new_id(ids, 'services', d[u'service_id'], which)
        add(n, d)
    for d in model.dicts(f, 'shapes'):
      if not gone('shapes', d[u'shape_id']):
        d[u'shape_id'] = new_id(ids, 'shapes', d[u'shape_id'], which)
        add('shapes', d)
    for d in model.dicts(f, 'trips'):
      d[u'trip_id'] = new_id(ids, 'trips', d[u'trip_id'], which)
      d[u'route_id'] = new_id(ids, 'routes', d[u'route_id'], which)
      d[u'service_id'] = new_id(ids, 'services', d[u'service_id'], which)
      if d.get(u'shape_id'):
        d[u'shape_id'] = new_id(ids, 'shapes', d[u'shape_id'], which)
      if d.get(u'block_id'):
        d[u'block_id'] = u'%s_%s' % (u'ab'[which], d[u'block_id'])
      d.pop(u'original_trip_id', None)
      add('trips', d)
    for d in model.dicts(f, 'stop_times'):
      d[u'trip_id'] = new_id(ids, 'trips', d[u'trip_id'], which)
      d[u'stop_id'] = new_id(ids, 'stops', d[u'stop_id'], which)
      add('stop_times', d)
    for d in model.dicts(f, 'frequencies'):
      d[u'trip_id'] = new_id(ids, 'trips', d[u'trip_id'], which)
      add('frequencies', d)
    for d in model.dicts(f, 'fare_attributes'):
      i = d[u'fare_id']
      if not gone('fare_attributes', i):
        d[u'fare_id'] = new_id(ids, 'fare_attributes', i, which)
        add('fare_attributes', d)
    for d in model.dicts(f, 'fare_rules'):
      d[u'fare_id'] = new_id(ids, 'fare_attributes', d[u'fare_id'], which)
      if d.get(u'route_id'):
        d[u'route_id'] = new_id(ids, 'routes', d[u'route_id'], which)
      for c in (u'origin_id', u'destination_id', u'contains_id'):
        if d.get(c):
          d[c] = zones[which][d[c]]
      if d not in out.get('fare_rules', []):
        add('fare_rules', d)
    seen = set((d[u'from_stop_id'], d[u'to_stop_id'])
               for d in out.get('transfers', [])) if which == 0 else set()
    for d in model.dicts(f, 'transfers'):
      for c in (u'from_stop_id', u'to_stop_id'):
        d[c] = new_id(ids, 'stops', d[c], which)
      if (d[u'from_stop_id'], d[u'to_stop_id']) not in seen:
        add('transfers', d)
  res = {}
  for n, ds in out.items():
    cols = sorted(set(c for d in ds for c in d))
    res[n] = {'cols': cols, 'rows': [[d.get(c, u'') for c in cols]
                                     for d in ds]}
  return res


def comparable(feed, optional_agency=False):
  """The meaning of a feed up to what merging may rewrite."""
  feed = build.renumber(feed)
  feed.pop('feed_info', None)
  t = feed.get('trips')
  if t and u'original_trip_id' in t['cols']:
    i = model.col(t, u'original_trip_id')
    t['cols'].pop(i)
    for r in t['rows']:
      r.pop(i)
  return model.meaning(feed)
