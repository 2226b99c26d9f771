# -*- coding: utf-8 -*-
"""Damaged cells: the report names file, row, column and value, and sound
values raise no alarm.

Cells of a problem-free feed are overwritten.  An independent classifier says
for every column whether the new text is acceptable and, if not, what has to
be reported.
"""
import datetime
import re

import model
from core import Rng, canon, uni, u8
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('feed', 'cells')
SHRINK_KEYS = ('feed',)
ERR, WARN = 0, 1

POOL = [u'', u' ', u'0', u'1', u'2', u'3', u'4', u'5', u'7', u'8', u'-1', u'+1',
        u'01', u'1.0', u'x', u'1e1', u'nan', u'inf', u'0x1', u'1;5', u'12:00',
        u'24:00:00', u'1:00:00', u'01:60:00', u'01:00:60', u'1:1:1',
        u'100:00:00', u'1000:00:00', u'-1:00:00', u'20140601', u'20140230',
        u'20140000', u'2014-05-01', u'201405', u'99991231', u'18991231',
        u'21010101', u'http://x.example.com', u'https://x.example.com/?a=b',
        u'ftp://x.example.com', u'www.example.com', u'a@example.com', u'a@b',
        u'@', u'EN', u'english', u'zz', u'FFFFFF', u'ffffff', u'fff',
        u'GGGGGG', u'#FFFFFF', u'USD', u'EUR', u'usd', u'$', u'91', u'-91',
        u'181', u'90.0001', u'null', u'None', u'%s', u'true', u'.5', u'5.',
        u'1 1', u'--1', u'86400', u'10800', u'-0.5', u'1e400',
        u'9' * 30, u'caf\xe9']
FIT = {
    'time': [u'', u'6:30:00', u'06:30:00', u'25:10:59', u'06:60:00', u'06:00',
             u'6:00:0', u'063000', u'-1:00:00', u'06:30:00 am', u'6.30.00',
             u'1000:00:00', u'99:59:59', u'06:30:000', u'a6:30:00'],
    'float': [u'', u'12.5', u'-12.5', u'+3', u'1e1', u'.5', u'nan', u'inf',
              u'-inf', u'x', u'90', u'-90.00001', u'180', u'180.5', u'1,5',
              u'0x10', u'12.5.1', u'-0.1'],
    'int': [u'', u'0', u'1', u'2', u'3', u'4', u'9', u'-1', u'01', u'x',
            u'1.0', u'+2'],
    'date': [u'', u'20140601', u'20140231', u'20140229', u'20160229',
             u'20141301', u'20140600', u'2014-06-01', u'2014061', u'18991231',
             u'21010101', u'00000000', u'x0140601'],
    'url': [u'', u'http://q.example.com', u'https://q', u'ftp://q', u'q.com',
            u'//q', u'mailto:a@b.c'],
    'hex': [u'', u'00ff00', u'ABCDEF', u'fff', u'GG0000', u'#00FF00',
            u'00FF000'],
    'lang': [u'', u'en', u'EN', u'de', u'fr', u'zz', u'xx', u'english', u'e'],
    'text': [u'', u'fine', u'caf\xe9'],
    'email': [u'', u'a@b.org', u'a.b@c.d.org', u'ab.org', u'a@b'],
    'money': [u'', u'0', u'1.5', u'-1', u'x', u'nan', u'inf', u'1,5', u'12'],
    'currency': [u'', u'USD', u'EUR', u'usd', u'ZZZ', u'$'],
    'zone': [u'', u'Europe/Paris', u'Asia/Tokyo', u'UTC', u'Europe/Nowhere',
             u'fine', u'europe/paris', u'Europe'],
    'flag': [u'', u'0', u'1', u'2', u'x'],
}

RE_TIME = re.compile(r'[0-9]{1,3}:[0-5][0-9]:[0-5][0-9]\Z')
RE_FLOAT = re.compile(r'[+-]?[0-9]+(\.[0-9]+)?\Z')
RE_ODDFLOAT = re.compile(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z')
RE_INT = re.compile(r'[+-]?[0-9]+\Z')
RE_NONNEG = re.compile(r'(0|[1-9][0-9]*)\Z')

INV = 'InvalidValue'
MISS = 'MissingValue'
OK = []


def bad(cls=INV, typ=ERR):
  return [([cls] if isinstance(cls, str) else list(cls), typ)]


def ascii(v):
  return all(ord(c) < 128 for c in v)


def isdate(v):
  if not re.match(r'[0-9]{8}\Z', v):
    return False
  try:
    datetime.date(int(v[:4]), int(v[4:6]), int(v[6:]))
  except ValueError:
    return False
  return True


def c_time(v, blank):
  if v == u'':
    return blank
  return OK if RE_TIME.match(v) else bad()


def c_coord(limit, blank):
  def f(v):
    if v == u'':
      return blank
    if not RE_ODDFLOAT.match(v):
      return bad()
    x = float(v)
    if abs(x) == float('inf'):
      return bad()
    if abs(x) > limit:
      return bad()
    if not RE_FLOAT.match(v):
      return bad('InvalidFloatValue', WARN)
    return OK
  return f


def c_dist(v):
  if v == u'':
    return OK
  if not RE_ODDFLOAT.match(v) or abs(float(v)) == float('inf'):
    return bad()
  return OK if float(v) >= 0 else None


def c_enum(allowed, blank=OK, typ=ERR):
  """int in a set; a number outside it is of severity typ."""
  def f(v):
    if v == u'':
      return blank
    if not RE_INT.match(v):
      return bad()
    return OK if int(v) in allowed else bad(INV, typ)
  return f


def c_text(allowed, blank=OK):
  def f(v):
    if v == u'':
      return blank
    return OK if v in allowed else bad()
  return f


def c_url(v):
  if v == u'':
    return OK
  return OK if v[:7] == u'http://' or v[:8] == u'https://' else bad()


def required(f):
  return lambda v: bad(MISS) if v == u'' else f(v)


ZONES = (u'America/Los_Angeles', u'Europe/Paris', u'Asia/Tokyo', u'UTC')


def c_zone(v):
  return OK if v in ZONES else bad()


def c_any(v):
  return OK


def c_lang(v):
  if v == u'':
    return OK
  if v.lower() in (u'en', u'de', u'fr'):
    return OK
  if not re.match(r'[A-Za-z]{2}\Z', v) or v.lower() in (u'zz', u'xx'):
    return bad()
  return None


def c_email(v):
  if v == u'' or re.match(r'[a-z.]+@[a-z]+(\.[a-z]+)+\Z', v):
    return OK
  if u'@' not in v:
    return bad()
  return bad() if v == u'a@b' or v == u'@' else None


def c_hex(v):
  return OK if v == u'' or re.match(r'[0-9A-Fa-f]{6}\Z', v) else bad()


def c_service_date(v):
  if v == u'':
    return bad(MISS)
  if not isdate(v):
    return bad()
  if not 1900 <= int(v[:4]) <= 2100:
    return bad('DateOutsideValidRange')
  return OK


def c_feed_date(v):
  return OK if v == u'' or isdate(v) else bad()


def c_route_type(v):
  if v == u'':
    return bad(MISS)
  if not RE_INT.match(v) or int(v) < 0:
    return bad()
  r = []
  if not RE_NONNEG.match(v):
    r += bad('InvalidNonNegativeIntegerValue', WARN)
  if int(v) > 7:
    r += bad(INV, WARN)
  return r


def c_shape_seq(v):
  if not RE_INT.match(v) or int(v) < 0:
    return bad()
  if not RE_NONNEG.match(v):
    return bad('InvalidNonNegativeIntegerValue', WARN)
  return OK


def c_shape_dist(v):
  if v == u'':
    return OK
  if not RE_ODDFLOAT.match(v) or abs(float(v)) == float('inf') or \
      float(v) < 0:
    return bad()
  if not RE_FLOAT.match(v):
    return bad('InvalidFloatValue', WARN)
  return OK


def c_price(v):
  if v == u'':
    return bad((INV, MISS))
  if not RE_ODDFLOAT.match(v) or abs(float(v)) == float('inf') or float(v) < 0:
    return bad()
  return OK


def c_headway(v):
  if v == u'':
    return bad(MISS)
  if not RE_INT.match(v) or int(v) <= 0:
    return bad()
  return OK


def c_duration(v):
  if v == u'':
    return OK
  if not RE_INT.match(v) or int(v) < 0:
    return bad()
  return OK


def c_currency(v):
  if v == u'':
    return bad(MISS)
  if v in (u'USD', u'EUR'):
    return OK
  return bad() if not re.match(r'[A-Z]{3}\Z', v) or v == u'ZZZ' else None


def c_seq(v):
  if not RE_INT.match(v):
    return bad()
  return OK if int(v) >= 0 else bad()


def c_mintime(v):
  if v == u'':
    return OK
  if not RE_INT.match(v) or int(v) < 0:
    return bad()
  if int(v) >= 86400:
    return bad()
  if int(v) >= 10800:
    return bad(INV, WARN)
  return OK


YNU = c_text((u'0', u'1', u'2'))
COLS = {
    'agency': {
        'agency_name': (required(c_any), 'text'),
        'agency_url': (required(c_url), 'url'),
        'agency_timezone': (required(c_zone), 'zone'),
        'agency_lang': (c_lang, 'lang'), 'agency_fare_url': (c_url, 'url'),
        'agency_email': (c_email, 'email')},
    'stops': {
        'stop_name': (required(c_any), 'text'),
        'stop_lat': (c_coord(90, bad(MISS)), 'float'),
        'stop_lon': (c_coord(180, bad(MISS)), 'float'),
        'stop_url': (c_url, 'url'),
        'location_type': (c_enum((0, 1, 2, 3, 4), typ=WARN), 'int'),
        'wheelchair_boarding': (YNU, 'int')},
    'routes': {
        'route_type': (c_route_type, 'int'), 'route_url': (c_url, 'url'),
        'route_color': (c_hex, 'hex'), 'route_text_color': (c_hex, 'hex'),
        'bikes_allowed': (YNU, 'int')},
    'trips': {
        'direction_id': (c_text((u'0', u'1')), 'int'),
        'bikes_allowed': (YNU, 'int'), 'wheelchair_accessible': (YNU, 'int')},
    'calendar': dict(
        [(d, (c_text((u'0', u'1'), bad(MISS)), 'flag')) for d in model.DAYS] +
        [('start_date', (c_service_date, 'date')),
         ('end_date', (c_service_date, 'date'))]),
    'calendar_dates': {
        'date': (c_service_date, 'date'),
        'exception_type': (c_text((u'1', u'2'), bad()), 'int')},
    'stop_times': {
        'arrival_time': (lambda v: c_time(v, None), 'time'),
        'departure_time': (lambda v: c_time(v, None), 'time'),
        'stop_sequence': (c_seq, 'int'),
        'pickup_type': (c_enum((0, 1, 2, 3), typ=WARN), 'int'),
        'drop_off_type': (c_enum((0, 1, 2, 3), typ=WARN), 'int'),
        'timepoint': (c_enum((0, 1), typ=WARN), 'int'),
        'shape_dist_traveled': (c_dist, 'float')},
    'shapes': {
        'shape_pt_lat': (c_coord(90, bad()), 'float'),
        'shape_pt_lon': (c_coord(180, bad()), 'float'),
        'shape_pt_sequence': (c_shape_seq, 'int'),
        'shape_dist_traveled': (c_shape_dist, 'float')},
    'frequencies': {
        'start_time': (lambda v: c_time(v, bad(MISS)), 'time'),
        'end_time': (lambda v: c_time(v, bad(MISS)), 'time'),
        'headway_secs': (c_headway, 'int'),
        'exact_times': (c_enum((0, 1)), 'int')},
    'fare_attributes': {
        'price': (c_price, 'money'), 'currency_type': (c_currency, 'currency'),
        'payment_method': (c_enum((0, 1), bad(MISS)), 'int'),
        'transfers': (c_enum((0, 1, 2)), 'int'),
        'transfer_duration': (c_duration, 'int')},
    'feed_info': {
        'feed_publisher_name': (required(c_any), 'text'),
        'feed_publisher_url': (required(c_url), 'url'),
        'feed_lang': (required(c_lang), 'lang'),
        'feed_start_date': (c_feed_date, 'date'),
        'feed_end_date': (c_feed_date, 'date')},
    'transfers': {
        'transfer_type': (c_enum((0, 1, 2, 3)), 'int'),
        'min_transfer_time': (c_mintime, 'int')},
}
# reports about a row as a whole which the damage of one cell may cause
CROSS = {
    'agency': [],
    'stops': [('InvalidValue', 'stop_lat'), ('InvalidValue', 'stop_desc'),
              ('InvalidValue', 'parent_station')],
    'routes': [('InvalidValue', 'route_color')],
    'trips': [],
    'calendar': [('InvalidValue', 'end_date'), ('OtherProblem', None)],
    'calendar_dates': [('OtherProblem', None), ('DuplicateID', None)],
    'stop_times': [('InvalidValue', 'departure_time'),
                   ('MissingValue', 'arrival_time'),
                   ('MissingValue', 'departure_time'), ('OtherProblem', None)],
    'shapes': [],
    'frequencies': [('InvalidValue', 'end_time')],
    'fare_attributes': [],
    'feed_info': [('InvalidValue', 'feed_end_date')],
    'transfers': [('MinimumTransferTimeSetWithInvalidTransferType', None),
                  ('TransferWalkingSpeedTooFast', None)]}
FAR = ['TooFastTravel', 'StopTooFarFromShapeWithDistTraveled',
       'StopTooFarFromParentStation', 'TransferDistanceTooBig',
       'TransferWalkingSpeedTooFast', 'StopsTooClose',
       'DifferentStationTooClose', 'StationsTooClose']
DATES = ['ExpirationDate', 'FutureService', 'NoServiceExceptions',
         'OverlappingTripsInSameBlock']
# whole-feed reports the damage of a table may cause
WHOLE = {
    'agency': [('InvalidValue', 'agency_timezone'),
               ('InvalidValue', 'feed_lang')],
    'feed_info': [('InvalidValue', 'feed_lang'), ('ExpirationDate', None),
                  ('FutureService', None), ('NoServiceExceptions', None)],
    'stops': [(c, None) for c in FAR] +
             [('UsedStation', None), ('UnusedStop', None),
              ('MissingValue', 'stop_lat'), ('MissingValue', 'stop_lon'),
              ('InvalidValue', 'parent_station')],
    'routes': [('TooFastTravel', None), ('StopWithMultipleRouteTypes', None)],
    'trips': [],
    'calendar': [(c, None) for c in DATES] + [('OtherProblem', None)],
    'calendar_dates': [(c, None) for c in DATES] + [('OtherProblem', None)],
    'stop_times': [(c, None) for c in FAR + DATES] +
                  [('OtherProblem', None), ('UnusedStop', None),
                   ('InvalidValue', 'stop_sequence'),
                   ('InvalidValue', 'departure_time'),
                   ('InvalidValue', 'arrival_time'),
                   ('MissingValue', 'arrival_time'),
                   ('MissingValue', 'departure_time'),
                   ('InvalidValue', 'stoptimes.shape_dist_traveled'),
                   ('TooManyConsecutiveStopTimesWithSameTime', None)],
    'shapes': [(c, None) for c in FAR] +
              [('OtherProblem', None), ('InvalidValue', 'shape_id')],
    'frequencies': [('OtherProblem', None)],
    'fare_attributes': [],
    'transfers': [(c, None) for c in FAR],
}


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True, extra_cols=False, shapes=70, fares=70,
                        transfers=70, frequencies=60, stations=40,
                        feed_info=60)
  cells = []
  for _ in range(rng.weighted([(0, 1), (1, 6), (2, 4), (4, 3), (9, 1)])):
    t = rng.choice([x for x in sorted(COLS) if x in feed and feed[x]['rows']
                    and any(c in COLS[x] for c in feed[x]['cols'])])
    cols = [c for c in sorted(COLS[t]) if c in feed[t]['cols']]
    c = rng.choice(cols)
    v = rng.choice(FIT[COLS[t][c][1]] if rng.chance(75) else POOL)
    cells.append([t, c, rng.seed(), v])
  blanks = [[rng.choice(sorted(feed)), rng.seed()]
            for _ in range(rng.below(3))] if rng.chance(30) else []
  return {'feed': feed, 'cells': cells, 'dir': rng.chance(30),
          'blanks': blanks, 'salt': rng.below(1000), 'memory_db':
          rng.chance(90), 'crlf': rng.chance(20)}


def same_value(reported, raw):
  if reported is None:
    return raw == u''
  reported = uni(reported).strip()
  raw = raw.strip()
  if reported == raw:
    return True
  try:
    return float(reported) == float(raw)
  except ValueError:
    return False


def run(trace, ctx):
  w = World(ctx, start=drive.NOW)
  ctx.world = w
  feed = model.copy_feed(trace['feed'])
  hits = {}
  for t, c, seed, v in trace['cells']:
    if t not in feed or c not in feed[t]['cols'] or not feed[t]['rows']:
      continue
    r = seed % len(feed[t]['rows'])
    i = feed[t]['cols'].index(c)
    if feed[t]['rows'][r][i] == v:
      continue
    feed[t]['rows'][r][i] = v
    hits[(t, r, c)] = v
    ctx.fault('cell_' + t)
  # physical layout: empty lines shift the rows that follow
  number = {}
  files = {}
  for t in feed:
    eol = '\r\n' if trace['crlf'] else '\n'
    lines = model.table_bytes(feed[t], eol=eol).split(eol)[:-1]
    if any('\n' in c for row in feed[t]['rows'] for c in row):
      continue
    pos = list(range(1, len(feed[t]['rows']) + 1))
    for bt, seed in trace['blanks']:
      if bt == t:
        at = 1 + seed % (len(lines))
        lines.insert(at, '')
        pos = [p + 1 if p >= at else p for p in pos]
        ctx.fault('blank_line')
    number[t] = [p + 1 for p in pos]
    files[t + '.txt'] = eol.join(lines) + eol
  must = []
  fine = set()
  for (t, r, c), v in sorted(hits.items()):
    verdict = COLS[t][c][0](v.strip())
    if verdict is None:
      if t == 'stop_times' and c in ('arrival_time', 'departure_time'):
        other = {'arrival_time': 'departure_time',
                 'departure_time': 'arrival_time'}[c]
        o = model.get(feed, t, r, other).strip()
        if o and RE_TIME.match(o) and v.strip() == u'':
          must.append((t, number[t][r], c, u'', [MISS], ERR))
      continue
    for cls, typ in verdict:
      must.append((t, number[t][r], c, v, cls, typ))
    if not verdict:
      fine.add((t, number[t][r], c))
      ctx.probe('sound_value')
  with w:
    path = '/sim/in' if trace['dir'] else '/sim/in.zip'
    drive.put_files(w, files, path)
    rec = drive.Recorder()
    s, rec = drive.load(w, path, memory_db=trace['memory_db'], rec=rec)
    simdictify(s, trace['salt'])
    s.Validate(transitfeed.ProblemReporter(rec))
    items = rec.bad()
    show = lambda i: [i['cls'], i['type'], i['file'], i['row'], i['col'],
                      i['value'], i['text'][:200]]
    for t, n, c, v, cls, typ in must:
      # a number in an odd notation is reported without the column name
      odd = cls[0] in ('InvalidFloatValue', 'InvalidNonNegativeIntegerValue')
      ok = any(i['cls'] in cls and i['type'] == typ and
               i['file'] == t + '.txt' and i['row'] == n and
               (odd or i['col'] == c) and
               (i['cls'] == MISS or same_value(i['value'], v))
               for i in items)
      if not ok:
        # several bad cells of one row: at least one of them is reported
        rivals = [m for m in must if m[:2] == (t, n) and m[2] != c]
        ok = any(i['cls'] in m[4] and i['file'] == t + '.txt' and
                 i['row'] == n and i['col'] == m[2]
                 for m in rivals for i in items)
        ok and ctx.probe('rival_cell')
      if not ok and t == 'calendar_dates' and c == 'date':
        # the same bad date several times for one service: reported once
        r = number[t].index(n)
        sid = model.get(feed, t, r, 'service_id')
        same = [number[t][k] for k in range(len(feed[t]['rows']))
                if model.get(feed, t, k, 'service_id') == sid and
                model.get(feed, t, k, 'date').strip() == v.strip()]
        ok = any(i['cls'] in cls and i['file'] == t + '.txt' and
                 i['row'] in same and i['col'] == c for i in items)
        ok and ctx.probe('same_bad_date')
      ctx.check(ok, 'cell-not-reported:%s.%s:%s' % (t, c, cls[0]),
                lambda: canon([t, n, c, v, cls, typ,
                               [show(i) for i in items][:6]]))
      ctx.probe('reported_' + cls[0])
    tables = set(t for t, _, _ in hits)
    for i in items:
      t = (i['file'] or '')[:-4]
      if i['file'] is None:
        ok = any(i['cls'] == k and (col is None or col == i['col'])
                 for x in tables for k, col in WHOLE[x]) or \
            any(i['col'] == c and i['cls'] in (INV, MISS)
                for _, _, c, v, cls, _ in must) or \
            i['cls'] in ('InvalidFloatValue',
                         'InvalidNonNegativeIntegerValue') or \
            any(i['cls'] == k and i['col'] == col for x in tables
                for k, col in CROSS[x] if col)
      else:
        ok = any(t == x and number[x][r] == i['row'] and
                 (t, i['row'], c) not in fine and
                 (i['col'] == c or i['col'] is None)
                 for x, r, c in hits) or \
            any(t == x and number[x][r] == i['row'] and
                any(i['cls'] == k and (col is None or col == i['col'])
                    for k, col in CROSS[t])
                for x, r, c in hits) or \
            any(i['cls'] == k and (col is None or col == i['col'])
                for x in tables for k, col in WHOLE[x]
                if k in FAR or k == 'OtherProblem' or x == 'shapes') or \
            (t == 'shapes' and 'shapes' in tables and i['col'] in
             ('shape_dist_traveled', 'shape_pt_sequence')) or \
            (t in ('calendar', 'calendar_dates') and
             (t in tables or 'calendar_dates' in tables) and
             i['cls'] in ('DuplicateID', 'OtherProblem'))
      ctx.check(ok, 'false-alarm:%s' % i['cls'],
                lambda: canon([show(i), sorted(hits.items())]))
    survivors(ctx, trace, feed, hits, s)
    ctx.ev('items', sorted([i['cls'], i['file'], i['row'], i['col'],
                            i['value']] for i in items))
    if not trace['cells']:
      ctx.probe('clean_feed')
    ctx.sig = canon([sorted(hits.items()), ctx.digest()])


def canonical(t, d):
  out = []
  for k in sorted(d):
    if t == 'shapes' and k == u'shape_pt_sequence':
      continue
    try:
      v = model.norm_cell(t, k, d[k])
    except (ValueError, TypeError):
      v = uni(d[k])
    if v != u'' and v is not None:
      out.append((k, v))
  if t == 'frequencies' and u'exact_times' not in d:
    out.append((u'exact_times', u'0'))
  if t == 'transfers' and u'transfer_type' not in d:
    out.append((u'transfer_type', u'0'))
  if t == 'stops' and u'location_type' not in d:
    out.append((u'location_type', u'0'))
  return sorted(out)


def survivors(ctx, trace, feed, hits, s):
  """Rows nobody damaged are there unchanged."""
  touched = set((t, r) for t, r, _ in hits)
  # exceptions of one service and date overwrite each other
  loaded = drive.dump(s)
  for t in sorted(feed):
    got = [canonical(t, d) for d in model.dicts(loaded, t)]
    clash = set(model.get(feed, t, r, 'date') for x, r in touched
                if x == t and t == 'calendar_dates')
    for r, d in enumerate(model.dicts(feed, t)):
      if (t, r) in touched or d.get(u'date') in clash:
        continue
      ctx.check(canonical(t, d) in got, 'undamaged-row-lost:%s' % t,
                lambda: canon([t, r, d, got[:4], sorted(hits.items())]))
