# -*- coding: utf-8 -*-
"""Feed model: generation, serialisation and an independent CSV reader.

A feed is {table: {'cols': [...], 'rows': [[...], ...]}} of unicode strings.
Nothing here imports the code under test.
"""
import datetime
import struct
import zlib

from core import u8, uni

TABLES = ['agency', 'feed_info', 'stops', 'routes', 'calendar',
          'calendar_dates', 'trips', 'stop_times', 'shapes', 'frequencies',
          'fare_attributes', 'fare_rules', 'transfers']

DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday',
        'sunday']

EXOTIC = [u'caf\xe9 ole', u'\u505c\u8eca', u'a,b', u'say "hi"', u'x;y',
          u"o'brien", u'\u0416\u0443\u043a', u'tab\tin', u'50% off', u'a  b',
          u'\U0001F68C bus', u'-', u'0', u'None', u'{}', u'%s', u'a\\b',
          u'<b>&amp;']


def ymd(d):
  return u'%04d%02d%02d' % (d.year, d.month, d.day)


def todate(s):
  return datetime.date(int(s[0:4]), int(s[4:6]), int(s[6:8]))


def hms(secs):
  return u'%02d:%02d:%02d' % (secs // 3600, secs % 3600 // 60, secs % 60)


def secs_of(text):
  """Seconds since midnight of a valid H:MM:SS text, else None."""
  parts = text.split(':')
  if len(parts) != 3:
    return None
  return int(parts[0]) * 3600 + int(parts[1]) * 60 + int(parts[2])


def new_table(cols):
  return {'cols': [uni(c) for c in cols], 'rows': []}


def col(table, name):
  return table['cols'].index(name)


def dicts(feed, name):
  """Rows of a table as dicts (missing cells are '')."""
  t = feed.get(name)
  if not t:
    return []
  return [dict(zip(t['cols'], r)) for r in t['rows']]


def get(feed, table, i, name):
  t = feed[table]
  return t['rows'][i][t['cols'].index(name)]


def put(feed, table, i, name, value):
  t = feed[table]
  t['rows'][i][t['cols'].index(name)] = value


def copy_feed(feed):
  return dict((k, {'cols': list(t['cols']), 'rows': [list(r) for r in t['rows']]})
              for k, t in feed.items())


# ---------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------
def pick_id(rng, prefix, n, exotic):
  if exotic and rng.chance(30):
    return u'%s%s%d' % (prefix, rng.choice(EXOTIC).strip(), n)
  return u'%s%d' % (prefix, n)


def pick_name(rng, prefix, n, exotic):
  if exotic and rng.chance(40):
    return u'%s %d %s' % (prefix, n, rng.choice(EXOTIC))
  return u'%s %d' % (prefix, n)


DEFAULTS = dict(
    base='20140501',      # first service day
    span=220,             # days
    calm=False,           # no calendar warning on the simulated today
    agencies=(1, 2), stops=(3, 7), routes=(1, 3), services=(1, 3),
    trips=(2, 6), exotic=True, extra_cols=True, shapes=60, frequencies=40,
    fares=50, transfers=50, feed_info=50, stations=30, exc_only=25,
    optional=60, blocks=40, untimed=40, shape_dist=50, seq0=50, zero_time=0,
    after_midnight=20)


def gen_feed(rng, **kw):
  """A feed without any problem (apart from what options ask for)."""
  o = dict(DEFAULTS)
  o.update(kw)
  ex = o['exotic'] and rng.chance(60)
  opt = lambda: rng.chance(o['optional'])
  feed = {}
  if o['calm']:
    o['span'] = 160
  rnd = lambda k: rng.between(o[k][0], o[k][1])

  # agency
  cols = [u'agency_id', u'agency_name', u'agency_url', u'agency_timezone']
  for c in [u'agency_lang', u'agency_phone', u'agency_fare_url',
            u'agency_email']:
    if opt():
      cols.append(c)
  extra = o['extra_cols'] and rng.chance(40)
  if extra:
    cols.append(u'x_agency')
  t = feed['agency'] = new_table(cols)
  nag = rnd('agencies')
  for i in range(nag):
    v = {u'agency_id': pick_id(rng, u'A', i, ex),
         u'agency_name': pick_name(rng, u'Agency', i, ex),
         u'agency_url': u'http://a%d.example.com' % i,
         u'agency_timezone': u'America/Los_Angeles',
         u'agency_lang': u'en',
         u'agency_phone': u'555-010%d' % i,
         u'agency_fare_url': rng.choice([u'', u'http://fare%d.example.com' % i]),
         u'agency_email': rng.choice([u'', u'info%d@example.com' % i]),
         u'x_agency': rng.choice([u'', u'extra', u'0', u'caf\xe9'])}
    t['rows'].append([v[c] for c in cols])
  agency_ids = [r[0] for r in t['rows']]

  # stops on a line, about 500 m apart
  cols = [u'stop_id', u'stop_name', u'stop_lat', u'stop_lon']
  for c in [u'stop_desc', u'zone_id', u'stop_url', u'stop_code',
            u'wheelchair_boarding', u'stop_timezone']:
    if opt():
      cols.append(c)
  stations = rng.chance(o['stations'])
  if stations:
    cols += [u'location_type', u'parent_station']
  if extra and rng.chance(50):
    cols.append(u'x_stop')
  t = feed['stops'] = new_table(cols)
  nst = rnd('stops')
  lat0 = rng.between(-60000, 60000) / 1000.0
  lon0 = rng.between(-170000, 170000) / 1000.0
  if abs(lat0) < 2:
    lat0 += 3
  coords = []
  for i in range(nst):
    la = lat0 + 0.0045 * i + rng.below(10) * 1e-5
    lo = lon0 + rng.below(10) * 1e-5
    coords.append((la, lo))
    v = {u'stop_id': pick_id(rng, u'S', i, ex),
         u'stop_name': pick_name(rng, u'Stop', i, ex),
         u'stop_lat': u'%.6f' % la, u'stop_lon': u'%.6f' % lo,
         u'stop_desc': rng.choice([u'', u'near %d' % i]),
         u'zone_id': rng.choice([u'z1', u'z2', u'z,3' if ex else u'z3']),
         u'stop_url': rng.choice([u'', u'http://s%d.example.com' % i]),
         u'stop_code': rng.choice([u'', u'%d' % (1000 + i)]),
         u'wheelchair_boarding': rng.choice([u'', u'0', u'1', u'2']),
         u'stop_timezone': rng.choice([u'', u'America/Los_Angeles']),
         u'location_type': rng.choice([u'', u'0']), u'parent_station': u'',
         u'x_stop': rng.choice([u'', u'v%d' % i])}
    t['rows'].append([v[c] for c in cols])
  stop_ids = [r[0] for r in t['rows']]
  if stations:
    la, lo = coords[0]
    v = {u'stop_id': u'STN', u'stop_name': u'Grand Station',
         u'stop_lat': u'%.6f' % (la + 0.0004), u'stop_lon': u'%.6f' % lo,
         u'location_type': u'1', u'zone_id': u''}
    t['rows'].append([v.get(c, u'') for c in cols])
    if u'stop_timezone' in cols:
      t['rows'][0][cols.index(u'stop_timezone')] = u''
    t['rows'][0][cols.index(u'parent_station')] = u'STN'

  # routes
  cols = [u'route_id', u'route_short_name', u'route_long_name', u'route_type']
  if nag > 1:
    cols.insert(1, u'agency_id')
  for c in [u'route_desc', u'route_url', u'route_color', u'route_text_color',
            u'bikes_allowed']:
    if opt():
      cols.append(c)
  if extra and rng.chance(50):
    cols.append(u'x_route')
  t = feed['routes'] = new_table(cols)
  nrt = rnd('routes')
  for i in range(nrt):
    dark = rng.chance(50)
    v = {u'route_id': pick_id(rng, u'R', i, ex),
         u'agency_id': rng.choice(agency_ids),
         u'route_short_name': u'%d' % (10 + i),
         u'route_long_name': pick_name(rng, u'Line', i, ex),
         u'route_type': rng.choice([u'0', u'2', u'3', u'3', u'3']),
         u'route_desc': rng.choice([u'', u'desc %d' % i]),
         u'route_url': rng.choice([u'', u'http://r%d.example.com' % i]),
         u'route_color': rng.choice([u'', u'FFFFFF', u'EEAA88']),
         u'route_text_color': rng.choice([u'', u'000000']),
         u'bikes_allowed': rng.choice([u'', u'0', u'1', u'2']),
         u'x_route': rng.choice([u'', u'q%d' % i])}
    t['rows'].append([v[c] for c in cols])
  route_ids = [r[0] for r in t['rows']]

  # calendar
  base = todate(o['base'])
  nsv = rnd('services')
  cal = new_table([u'service_id'] + [uni(d) for d in DAYS] +
                  [u'start_date', u'end_date'])
  cd = new_table([u'service_id', u'date', u'exception_type'])
  service_ids = []
  for i in range(nsv):
    sid = pick_id(rng, u'C', i, ex)
    service_ids.append(sid)
    exc_only = rng.chance(o['exc_only']) and not (o['calm'] and i == 0)
    seen = set()
    if not exc_only:
      days = [u'1' if rng.chance(60) else u'0' for _ in DAYS]
      if u'1' not in days:
        days[rng.below(7)] = u'1'
      s = base + datetime.timedelta(rng.below(5))
      e = s + datetime.timedelta(o['span'] - rng.below(10))
      cal['rows'].append([sid] + days + [ymd(s), ymd(e)])
    nexc = rng.below(4) + (1 if exc_only else 0)
    for j in range(nexc):
      d = ymd(base + datetime.timedelta(rng.below(o['span'])))
      if d in seen:
        continue
      seen.add(d)
      ty = u'1' if (exc_only and j == 0) or rng.chance(50) else u'2'
      cd['rows'].append([sid, d, ty])
  if not cal['rows'] and not cd['rows']:
    cal['rows'].append([service_ids[0]] + [u'1'] * 7 +
                       [ymd(base), ymd(base + datetime.timedelta(o['span']))])
  if cal['rows']:
    feed['calendar'] = cal
  if cd['rows']:
    rng.shuffle(cd['rows'])
    feed['calendar_dates'] = cd

  # shapes: one per (used) direction, a polyline through all the stops
  use_shapes = rng.chance(o['shapes'])
  shape_ids = []
  shape_has_dist = []
  if use_shapes:
    with_dist = rng.chance(o['shape_dist'])
    cols = [u'shape_id', u'shape_pt_lat', u'shape_pt_lon',
            u'shape_pt_sequence']
    if with_dist:
      cols.append(u'shape_dist_traveled')
    t = feed['shapes'] = new_table(cols)
    for k in range(rng.between(1, 2)):
      sid = pick_id(rng, u'SH', k, ex)
      shape_ids.append(sid)
      step = rng.between(1, 3)
      seq0 = rng.below(3)
      rows = []
      for i in range(nst):
        r = [sid, u'%.6f' % coords[i][0], u'%.6f' % coords[i][1],
             u'%d' % (seq0 + i * step)]
        if with_dist:
          r.append(u'%.1f' % (i * 500.0))
        rows.append(r)
      t['rows'].extend(rows)
    shape_has_dist = with_dist
  else:
    with_dist = False

  # trips and stop_times
  cols = [u'route_id', u'service_id', u'trip_id']
  for c in [u'trip_headsign', u'trip_short_name', u'direction_id',
            u'bikes_allowed', u'wheelchair_accessible']:
    if opt():
      cols.append(c)
  blocks = rng.chance(o['blocks'])
  if blocks:
    cols.append(u'block_id')
  if use_shapes:
    cols.append(u'shape_id')
  if extra and rng.chance(50):
    cols.append(u'x_trip')
  t = feed['trips'] = new_table(cols)
  st_cols = [u'trip_id', u'arrival_time', u'departure_time', u'stop_id',
             u'stop_sequence']
  for c in [u'stop_headsign', u'pickup_type', u'drop_off_type', u'timepoint']:
    if opt():
      st_cols.append(c)
  st_dist = use_shapes and with_dist and rng.chance(70)
  if st_dist:
    st_cols.append(u'shape_dist_traveled')
  stt = feed['stop_times'] = new_table(st_cols)
  ntr = max(rnd('trips'), 1)
  trip_ids = []
  start = rng.between(5, 8) * 3600
  used_shapes = set()
  for i in range(ntr):
    tid = pick_id(rng, u'T', i, ex)
    trip_ids.append(tid)
    shape = rng.choice(shape_ids) if shape_ids else u''
    if i < len(shape_ids):
      shape = shape_ids[i]
    elif shape_ids and rng.chance(30):
      shape = u''
    v = {u'route_id': route_ids[i % len(route_ids)],
         u'service_id': service_ids[i % len(service_ids)],
         u'trip_id': tid, u'trip_headsign': pick_name(rng, u'To', i, ex),
         u'trip_short_name': rng.choice([u'', u'n%d' % i]),
         u'direction_id': rng.choice([u'', u'0', u'1']),
         u'bikes_allowed': rng.choice([u'', u'0', u'1', u'2']),
         u'wheelchair_accessible': rng.choice([u'', u'0', u'1', u'2']),
         u'block_id': rng.choice([u'', u'B1', u'B2']),
         u'shape_id': shape, u'x_trip': rng.choice([u'', u'w%d' % i])}
    t['rows'].append([v[c] for c in cols])
    n = rng.between(2, nst)
    first = rng.below(nst - n + 1)
    if i == 0:
      n, first = nst, 0
    now = start
    if o['zero_time'] and rng.chance(o['zero_time']):
      now = 0
    if rng.chance(o['after_midnight']):
      now = max(now, 24 * 3600 - 300)
    seq = 0 if rng.chance(o['seq0']) else rng.between(1, 5)
    for k in range(n):
      sidx = first + k
      untimed = 0 < k < n - 1 and rng.chance(o['untimed'])
      dwell = rng.choice([0, 0, 30, 60])
      arr, dep = now, now + dwell
      has_dist = st_dist and (rng.chance(80))
      v = {u'trip_id': tid,
           u'arrival_time': u'' if untimed else hms(arr),
           u'departure_time': u'' if untimed else hms(dep),
           u'stop_id': stop_ids[sidx], u'stop_sequence': u'%d' % seq,
           u'stop_headsign': rng.choice([u'', u'hs %d' % k]),
           u'pickup_type': u'' if untimed else rng.choice([u'', u'0', u'1',
                                                          u'2', u'3']),
           u'drop_off_type': u'' if untimed else rng.choice([u'', u'0', u'2',
                                                            u'3']),
           u'timepoint': rng.choice([u'', u'0', u'1']),
           u'shape_dist_traveled':
               (u'%.1f' % (sidx * 500.0)) if (has_dist and shape) else u''}
      stt['rows'].append([v[c] for c in st_cols])
      now = dep + rng.between(120, 400)
      seq += rng.between(1, 3)
    start = now + rng.between(60, 900)

  # frequencies
  if rng.chance(o['frequencies']):
    cols = [u'trip_id', u'start_time', u'end_time', u'headway_secs']
    if opt():
      cols.append(u'exact_times')
    t = feed['frequencies'] = new_table(cols)
    for tid in rng.sample(trip_ids, rng.between(1, min(2, len(trip_ids)))):
      s = rng.between(5, 9) * 3600
      for _ in range(rng.between(1, 2)):
        e = s + rng.between(1, 3) * 1800
        v = [tid, hms(s), hms(e), u'%d' % rng.choice([300, 450, 600, 1000])]
        if u'exact_times' in cols:
          v.append(rng.choice([u'', u'0', u'1']))
        t['rows'].append(v)
        s = e

  # fares
  if rng.chance(o['fares']):
    cols = [u'fare_id', u'price', u'currency_type', u'payment_method',
            u'transfers']
    if opt():
      cols.append(u'transfer_duration')
    t = feed['fare_attributes'] = new_table(cols)
    fids = []
    for i in range(rng.between(1, 3)):
      fid = pick_id(rng, u'F', i, ex)
      fids.append(fid)
      v = [fid, rng.choice([u'1.25', u'0.0', u'2.5', u'10.0']), u'USD',
           rng.choice([u'0', u'1']), rng.choice([u'', u'0', u'1', u'2'])]
      if u'transfer_duration' in cols:
        v.append(rng.choice([u'', u'3600']) if v[4] not in (u'0',) else u'')
      t['rows'].append(v)
    zones = sorted(set(d.get(u'zone_id', u'') for d in dicts(feed, 'stops'))
                   - set([u'']))
    if rng.chance(70):
      cols = [u'fare_id', u'route_id', u'origin_id', u'destination_id',
              u'contains_id']
      t = feed['fare_rules'] = new_table(cols)
      for i in range(rng.between(1, 3)):
        z = lambda: rng.choice([u''] + zones)
        row = [rng.choice(fids), rng.choice([u''] + route_ids), z(), z(), z()]
        if row not in t['rows']:
          t['rows'].append(row)

  # transfers
  if rng.chance(o['transfers']) and nst >= 2:
    cols = [u'from_stop_id', u'to_stop_id', u'transfer_type']
    mt = opt()
    if mt:
      cols.append(u'min_transfer_time')
    if extra and rng.chance(50):
      cols.append(u'x_transfer')
    t = feed['transfers'] = new_table(cols)
    seen = set()
    for i in range(rng.between(1, 3)):
      a = rng.below(nst - 1)
      b = a + 1
      if rng.chance(50):
        a, b = b, a
      if (a, b) in seen:
        continue
      seen.add((a, b))
      ty = rng.choice([u'', u'0', u'1', u'2', u'3'])
      v = {u'from_stop_id': stop_ids[a], u'to_stop_id': stop_ids[b],
           u'transfer_type': ty,
           u'min_transfer_time': rng.choice([u'900', u'1200'])
           if ty == u'2' else u'',
           u'x_transfer': rng.choice([u'', u't%d' % i])}
      if ty == u'2' and not mt:
        v[u'transfer_type'] = u'1'
      t['rows'].append([v[c] for c in cols])

  if rng.chance(o['feed_info']):
    cols = [u'feed_publisher_name', u'feed_publisher_url', u'feed_lang']
    dates = opt()
    if dates:
      cols += [u'feed_start_date', u'feed_end_date']
    if opt():
      cols.append(u'feed_version')
    if extra and rng.chance(50):
      cols.append(u'x_feed')
    t = feed['feed_info'] = new_table(cols)
    v = {u'feed_publisher_name': pick_name(rng, u'Pub', 0, ex),
         u'feed_publisher_url': u'http://pub.example.com',
         u'feed_lang': u'en', u'feed_start_date': ymd(base),
         u'feed_end_date': ymd(base + datetime.timedelta(o['span'])),
         u'feed_version': u'v1.0', u'x_feed': u'zz'}
    t['rows'].append([v[c] for c in cols])
  return feed


# ---------------------------------------------------------------------------
# Serialisation
# ---------------------------------------------------------------------------
def csv_cell(v, force=False):
  v = u8(v)
  if force or any(c in v for c in ',"\n\r') or v != v.strip():
    return '"' + v.replace('"', '""') + '"'
  return v


def table_bytes(t, eol='\n', bom=False, quote=False, trailing=True):
  lines = [','.join(csv_cell(c, quote) for c in t['cols'])]
  for r in t['rows']:
    lines.append(','.join(csv_cell(c, quote) for c in r))
  out = eol.join(lines)
  if trailing:
    out += eol
  if bom:
    out = '\xef\xbb\xbf' + out
  return out


def feed_files(feed, **kw):
  """{file name: bytes}"""
  return dict((name + '.txt', table_bytes(t, **kw))
              for name, t in feed.items())


def zip_bytes(members, method=0):
  """An independent zip writer.  members: list of (name, bytes)."""
  out = []
  central = []
  off = 0
  for name, data in members:
    name = u8(name)
    crc = zlib.crc32(data) & 0xffffffff
    if method:
      c = zlib.compressobj(6, zlib.DEFLATED, -15)
      comp = c.compress(data) + c.flush()
      m = 8
    else:
      comp = data
      m = 0
    hdr = struct.pack('<4s5H3L2H', 'PK\x03\x04', 20, 0, m, 0, 0x4500, crc,
                      len(comp), len(data), len(name), 0)
    out.append(hdr + name + comp)
    central.append(struct.pack('<4s6H3L5H2L', 'PK\x01\x02', 20, 20, 0, m, 0,
                               0x4500, crc, len(comp), len(data), len(name),
                               0, 0, 0, 0, 0, off) + name)
    off += len(hdr) + len(name) + len(comp)
  cd = ''.join(central)
  end = struct.pack('<4s4H2LH', 'PK\x05\x06', 0, 0, len(central),
                    len(central), len(cd), off, 0)
  return ''.join(out) + cd + end


def unzip(data):
  """Independent strict zip reader -> list of (name, bytes); raises
  ValueError when anything is off."""
  i = data.rfind('PK\x05\x06')
  if i < 0:
    raise ValueError('no end of central directory')
  (_, _, _, _, n, size, off, _) = struct.unpack('<4s4H2LH', data[i:i + 22])
  p = off
  res = []
  for _ in range(n):
    f = struct.unpack('<4s6H3L5H2L', data[p:p + 46])
    if f[0] != 'PK\x01\x02':
      raise ValueError('bad central entry')
    method, crc, csize, usize, nlen, xlen, clen, lho = (
        f[4], f[7], f[8], f[9], f[10], f[11], f[12], f[16])
    name = data[p + 46:p + 46 + nlen]
    p += 46 + nlen + xlen + clen
    lh = struct.unpack('<4s5H3L2H', data[lho:lho + 30])
    if lh[0] != 'PK\x03\x04':
      raise ValueError('bad local header')
    s = lho + 30 + lh[9] + lh[10]
    raw = data[s:s + csize]
    if method == 8:
      raw = zlib.decompress(raw, -15)
    elif method != 0:
      raise ValueError('method')
    if len(raw) != usize or (zlib.crc32(raw) & 0xffffffff) != crc:
      raise ValueError('crc')
    res.append((name, raw))
  return res


def parse_csv(data):
  """Independent RFC 4180 reader (bytes -> list of lists of unicode)."""
  rows = []
  row = []
  cell = []
  i = 0
  n = len(data)
  inq = False
  started = False
  while i < n:
    c = data[i]
    if inq:
      if c == '"':
        if i + 1 < n and data[i + 1] == '"':
          cell.append('"')
          i += 1
        else:
          inq = False
      else:
        cell.append(c)
    elif c == '"' and not cell:
      inq = True
      started = True
    elif c == ',':
      row.append(''.join(cell))
      cell = []
      started = True
    elif c == '\n' or c == '\r':
      if c == '\r' and i + 1 < n and data[i + 1] == '\n':
        i += 1
      if started or cell:
        row.append(''.join(cell))
        rows.append(row)
      row = []
      cell = []
      started = False
    else:
      cell.append(c)
      started = True
    i += 1
  if inq:
    raise ValueError('unterminated quote')
  if started or cell:
    row.append(''.join(cell))
    rows.append(row)
  return [[c.decode('utf-8') for c in r] for r in rows]


def parse_table(data):
  rows = parse_csv(data)
  if not rows:
    return None
  return {'cols': rows[0], 'rows': rows[1:]}


def read_zip_feed(data):
  """Zip bytes -> feed by the independent readers."""
  out = {}
  for name, raw in unzip(data):
    if not name.endswith('.txt'):
      raise ValueError('unexpected member %r' % name)
    if name[:-4] in out:
      raise ValueError('duplicate member %r' % name)
    out[name[:-4]] = parse_table(raw)
  return out


# ---------------------------------------------------------------------------
# Canonical meaning of a feed
# ---------------------------------------------------------------------------
FLOATS = {'stops': ['stop_lat', 'stop_lon'],
          'shapes': ['shape_pt_lat', 'shape_pt_lon', 'shape_dist_traveled'],
          'stop_times': ['shape_dist_traveled'],
          'fare_attributes': ['price']}
INTS = {'stop_times': ['stop_sequence'],
        'frequencies': ['headway_secs'], 'shapes': ['shape_pt_sequence'],
        'fare_attributes': ['transfer_duration']}
# columns where blank and the given value mean the same thing in GTFS
BLANK_IS = {('stops', 'location_type'): u'0',
            ('frequencies', 'exact_times'): u'0',
            ('transfers', 'transfer_type'): u'0'}
TIMES = {'stop_times': ['arrival_time', 'departure_time'],
         'frequencies': ['start_time', 'end_time']}


def norm_cell(table, name, v):
  v = uni(v).strip()
  if v == u'':
    d = BLANK_IS.get((table, name))
    return d if d is not None else u''
  if name in FLOATS.get(table, ()):
    return uni(repr(round(float(v), 7)))
  if name in INTS.get(table, ()):
    return u'%d' % int(v)
  if name in TIMES.get(table, ()):
    return hms(secs_of(v))
  return v


def meaning(feed):
  """{table: sorted list of canonical rows}: what the feed says, independent
  of column order, row order and number formatting.  Blank cells and absent
  columns are the same.  Shape points are compared by rank, not by sequence
  number."""
  out = {}
  for name, t in sorted(feed.items()):
    if t is None:
      continue
    rows = []
    for r in t['rows']:
      d = {}
      for c, v in zip(t['cols'], r):
        v = norm_cell(name, c, v)
        if v != u'':
          d[c] = v
      rows.append(d)
    if name == 'shapes':
      by = {}
      for d in rows:
        by.setdefault(d[u'shape_id'], []).append(d)
      rows = []
      for sid in sorted(by):
        pts = sorted(by[sid], key=lambda d: int(d[u'shape_pt_sequence']))
        for i, d in enumerate(pts):
          d = dict(d)
          d[u'shape_pt_sequence'] = u'%d' % i
          rows.append(d)
    if name == 'frequencies':
      for d in rows:
        d[u'exact_times'] = d.get(u'exact_times', u'0')
    if name == 'transfers':
      for d in rows:
        d[u'transfer_type'] = d.get(u'transfer_type', u'0')
    if name == 'stops':
      for d in rows:
        d[u'location_type'] = d.get(u'location_type', u'0')
    if rows:
      out[name] = sorted(sorted(d.items()) for d in rows)
  return out


def diff_meaning(a, b):
  """First difference between two meanings, or None."""
  for name in sorted(set(a) | set(b)):
    ra, rb = a.get(name, []), b.get(name, [])
    if ra != rb:
      for x in ra:
        if x not in rb:
          return (name, 'lost', x)
      for x in rb:
        if x not in ra:
          return (name, 'extra', x)
      return (name, 'multiplicity', (len(ra), len(rb)))
  return None
