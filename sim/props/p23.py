# -*- coding: utf-8 -*-
"""KML export: the drawing holds the feed's places, lines and trips, each once
and where they are, whatever the hash order, and the program says it succeeded
only when the file is whole."""
import re
import xml.etree.ElementTree as ET

import model
from core import SimCrash, canon, uni, u8
from world import World, simdictify
import cli
import drive
import viewing
from drive import transitfeed
import extensions.googletransit as googletransit
import kmlwriter

SHRINK = ('feed', 'opts', 'faults')
SHRINK_KEYS = ('feed',)
NS = '{http://earth.google.com/kml/2.1}'
ILLEGAL = u'[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]'
TYPES = {0: u'Tram, Streetcar or Light rail', 1: u'Subway or Metro', 2: u'Rail',
         3: u'Bus', 4: u'Ferry', 5: u'Cable car',
         6: u'Gondola or suspended cable car', 7: u'Funicular'}


def gen(rng, tier, index):
  feed = viewing.gen_viewer_feed(rng)
  feed.pop('transfers', None)     # distances are arbitrary here
  api = rng.chance(35)
  stops = feed['stops']
  if rng.chance(50):     # a station and what belongs to it
    for c in (u'location_type', u'parent_station'):
      if c not in stops['cols']:
        stops['cols'].append(c)
        for r in stops['rows']:
          r.append(u'')
    base = dict(zip(stops['cols'], stops['rows'][0]))
    for i in range(rng.between(1, 2)):
      d = dict((c, u'') for c in stops['cols'])
      d.update({u'stop_id': u'STX%d' % i,
                u'stop_name': rng.choice([u'Grand', u'Stop 0', u'Zoo & Park']),
                u'location_type': u'1', u'stop_lat': base[u'stop_lat'],
                u'stop_lon': base[u'stop_lon']})
      stops['rows'].insert(rng.below(len(stops['rows']) + 1),
                           [d[c] for c in stops['cols']])
    lt = model.col(stops, 'location_type')
    for r in stops['rows']:
      if r[lt] != u'1' and rng.chance(50):
        r[model.col(stops, 'parent_station')] = u'STX0'
    if api and rng.chance(70):
      for i in range(rng.between(1, 3)):
        d = dict((c, u'') for c in stops['cols'])
        d.update({u'stop_id': u'ENT%d' % i, u'stop_name': u'Entrance %d' % i,
                  u'location_type': u'2', u'stop_lat': base[u'stop_lat'],
                  u'stop_lon': base[u'stop_lon'],
                  u'parent_station': u'STX0'})
        stops['rows'].append([d[c] for c in stops['cols']])
  for t, c in (('stops', 'stop_name'), ('routes', 'route_long_name'),
               ('trips', 'trip_headsign'), ('stops', 'stop_desc')):
    if c in feed[t]['cols']:
      for r in feed[t]['rows']:
        i = model.col(feed[t], c)
        k = rng.below(60)
        if k == 0:
          r[i] = (r[i] + rng.choice([u'<b>', u' & co', u'"quoted"', u"it's",
                                     u']]>', u'&amp;'])).strip()
        elif k == 1:
          r[i] = u'a' + rng.choice([u'\x0b', u'\x01', u'\x1f', u'\ufffe',
                                    u'\x08']) + u'b' + r[i]
        elif k == 2:
          r[i] = feed[t]['rows'][0][i]
  if rng.chance(30):
    c = model.col(feed['routes'], 'route_type')
    for r in feed['routes']['rows']:
      r[c] = rng.choice([u'0', u'1', u'2', u'3', u'4', u'5', u'6', u'7', u'7',
                         u'3', u'11', u'700'])
  opts = []
  for o in ('show_trips', 'split_routes', 'shape_points',
            'show_stop_hierarchy'):
    if rng.chance(60 if o == 'show_trips' else 45):
      opts.append([o, True])
  if rng.chance(50):
    opts.append(['altitude_per_sec', rng.choice([0, 1.5, 10, -1, 0.25])])
  if rng.chance(40):
    opts.append(['date_filter', rng.choice([
        model.ymd(model.todate('20140501') +
                  model.datetime.timedelta(rng.below(200)))] * 5 +
        ['tomorrow', '2014-05-13', '20141301', '201405'])])
  faults = []
  if rng.chance(35):
    faults.append({'op': rng.choice(['write', 'write', 'openw', 'close']),
                   'kind': rng.choice(['EIO', 'ENOSPC', 'TORN', 'CRASH']),
                   'path': 'out.kml', 'nth': rng.choice([1, 1, 1, 2, 3]),
                   'frac': rng.below(101)})
    if faults[0]['kind'] == 'TORN' and faults[0]['op'] != 'write':
      faults[0]['kind'] = 'EIO'
  return {'feed': feed, 'api': api, 'opts': opts, 'faults': faults,
          'old': rng.chance(40), 'named': rng.chance(60),
          'as_dir': rng.chance(30), 'salts': [rng.below(1000), rng.below(1000)],
          'buffer': rng.choice([0, 64, 1024, 8192])}


def strip(t):
  return re.sub(u'[\ufffd? ]', u'', re.sub(ILLEGAL, u'', t))


def text(t):
  """What XML keeps of a text."""
  if t is None:
    return None
  return uni(t).replace(u'\r\n', u'\n').replace(u'\r', u'\n')


# --- the drawing, parsed -------------------------------------------------------
def nums(t):
  return [[float(x) for x in p.split(',')] for p in (t or '').split()]


def parse(ctx, blob, odd):
  try:
    root = ET.fromstring(blob)
  except Exception as e:
    ctx.violate('not-xml' + (':control-character' if odd else ''),
                lambda: canon([repr(e)[:300], blob[:600], blob[-300:]]))
  ctx.check(root.tag == NS + 'kml' and len(root) == 1 and
            root[0].tag == NS + 'Document', 'not-kml', lambda: root.tag)
  styles = {}
  items = []
  for e in root[0]:
    tag = e.tag.replace(NS, '')
    if tag == 'Style':
      s = dict((x.tag.replace(NS, ''), dict((y.tag.replace(NS, ''), y.text)
                                            for y in x)) for x in e)
      ctx.check(e.get('id') not in styles, 'style-twice',
                lambda: canon([e.get('id')]))
      styles[e.get('id')] = s
    elif tag != 'open':
      items.append(node(ctx, e))
  return styles, items


def node(ctx, e):
  d = {'kind': e.tag.replace(NS, ''), 'items': []}
  for x in e:
    tag = x.tag.replace(NS, '')
    if tag in ('Folder', 'Placemark'):
      d['items'].append(node(ctx, x))
    elif tag in ('name', 'description', 'styleUrl', 'visibility'):
      ctx.check(tag not in d, 'twice:' + tag, lambda: canon([d, x.text]))
      d[tag] = uni(x.text or u'')
    elif tag in ('Point', 'LineString'):
      d['shape'] = tag
      d['at'] = nums(x.find(NS + 'coordinates').text)
      a = x.find(NS + 'altitudeMode')
      d['alt'] = a.text if a is not None else None
    else:
      ctx.violate('element:' + tag, lambda: canon([tag]))
  return d


# --- the drawing the feed asks for ---------------------------------------------
def folder(name, items, desc=None, hidden=False, order=None):
  d = {'kind': 'Folder', 'name': text(name), 'items': items, 'order': order}
  if desc is not None:
    d['description'] = text(desc)
  if hidden:
    d['visibility'] = u'0'
  return d


def mark(name, at, desc=None, style=None, hidden=False, shape='LineString',
         alt=None):
  d = {'kind': 'Placemark', 'name': text(name), 'items': []}
  if at:
    d.update({'shape': shape, 'at': at, 'alt': alt})
  if desc is not None:
    d['description'] = desc if isinstance(desc, tuple) else text(desc)
  if style is not None:
    d['styleUrl'] = u'#' + style
  if hidden:
    d['visibility'] = u'0'
  return d


def lonlat(m, sid):
  la, lo = m.pos(m.stop[sid])
  return [lo, la]


def expected(m, o):
  styles = {}
  out = [stops_folder(m, o, styles)]
  types = sorted(set(int(r[u'route_type']) for r in m.routes))
  for t in (types if o.get('split_routes') else [None]):
    out.append(routes_folder(m, o, t, styles))
  if m.shapes:
    items = []
    for sid in sorted(m.shapes):
      items.append(mark(sid, shape_line(m, sid)))
      if o.get('shape_points'):
        items.append(folder(sid + u' Shape Points', [
            mark(u'%d' % (i + 1), [p], shape='Point')
            for i, p in enumerate(shape_line(m, sid))], hidden=True))
    out.append(folder(u'Shapes', items))
  return styles, out


def shape_line(m, sid):
  return [[float(d[u'shape_pt_lon']), float(d[u'shape_pt_lat'])]
          for d in m.shapes[sid]]


def stops_folder(m, o, styles):
  hier = o.get('show_stop_hierarchy')
  rows = []
  subs = dict((k, []) for k in (u'Stations', u'Platforms', u'Entrances',
                                u'Stand-Alone'))
  links = {u'Platforms': [], u'Entrances': []}
  for d in sorted(m.stops, key=lambda d: d[u'stop_name']):
    desc = [u'Stop id: ' + d[u'stop_id']]
    if d.get(u'stop_desc'):
      desc.append(d[u'stop_desc'])
    if d.get(u'stop_url'):
      desc.append(u'Stop info page: <a href="%s">%s</a>' %
                  (d[u'stop_url'], d[u'stop_url']))
    lt = d.get(u'location_type') or u'0'
    kind = (u'Stations' if lt == u'1' else u'Entrances' if lt == u'2' else
            u'Platforms' if d.get(u'parent_station') else u'Stand-Alone')
    style = {u'Stations': u'stop_station', u'Entrances': u'stop_entrance',
             u'Platforms': u'stop_platform',
             u'Stand-Alone': u'stop_standalone'}[kind] if hier else None
    p = mark(d[u'stop_name'], [lonlat(m, d[u'stop_id'])], u'<br/>'.join(desc),
             style, shape='Point')
    subs[kind].append(p)
    rows.append(p)
    parent = d.get(u'parent_station')
    if hier and kind != u'Stations' and parent in m.stop and parent:
      links[kind].append(mark(
          d[u'stop_name'], [lonlat(m, d[u'stop_id']), lonlat(m, parent)],
          style=u'platform_connection' if kind == u'Platforms' else
          u'entrance_connection'))
  if not hier:
    return folder(u'Stops', rows, order='name')
  items = [folder(u'Stations', subs[u'Stations'], order='name')]
  for k in (u'Platforms', u'Entrances'):
    items.append(folder(k, [folder(u'Connections', links[k], order='name')] +
                        subs[k], order='name'))
  items.append(folder(u'Stand-Alone', subs[u'Stand-Alone'], order='name'))
  for k, colour in (('stop_entrance', 'ff0000ff'), ('stop_platform',
                    'ffff0000'), ('stop_standalone', 'ff00ff00')):
    styles[k] = {'IconStyle': {'color': colour}}
  for k, colour in (('entrance_connection', 'ff0000ff'),
                    ('platform_connection', 'ffff0000')):
    styles[k] = {'LineStyle': {'color': colour, 'width': '2'}}
  return folder(u'Stops', items)


def routes_folder(m, o, only, styles):
  name = u'Routes'
  if only is not None:
    name += u' - ' + TYPES.get(only, u'%s' % only)
  items = []
  for r in m.routes:
    if only is not None and int(r[u'route_type']) != only:
      continue
    sid = u'route_' + r[u'route_id']
    line = {'width': {0: '3', 1: '3', 2: '5', 3: '1'}.get(
        int(r[u'route_type']), '1')}
    c = r.get(u'route_color')
    if c:
      line['color'] = 'ff' + c[4:6].lower() + c[2:4].lower() + c[0:2].lower()
    styles[sid] = {'LineStyle': line}
    parts = []
    if r.get(u'route_short_name'):
      parts.append(u'<b>%s</b>' % r[u'route_short_name'])
    if r.get(u'route_long_name'):
      parts.append(r[u'route_long_name'])
    desc = []
    if r.get(u'route_desc'):
      desc.append(r[u'route_desc'])
    if r.get(u'route_url'):
      desc.append(u'Route info page: <a href="%s">%s</a>' %
                  (r[u'route_url'], r[u'route_url']))
    sub = []
    trips = [t for t in m.trips if t[u'route_id'] == r[u'route_id']]
    by = {}
    for t in trips:
      if t.get(u'shape_id'):
        by.setdefault(t[u'shape_id'], []).append(t[u'trip_id'])
    if by:
      sub.append(folder(u'Shapes', [
          mark(u'%s (trips: %d)' % (s, len(ids)), shape_line(m, s),
               (u'Trips using this shape (%d in total): ' % len(ids), ids),
               sid, True) for s, ids in by.items()], hidden=True,
          order='trips'))
    pats = m.patterns(r[u'route_id'])
    if pats:
      sub.append(folder(u'Patterns', [
          mark(u'Pattern * (trips: %d)' % len(ts),
               [lonlat(m, s) for s in pat],
               (u'Trips using this pattern (%d in total): ' % len(ts),
                [t[u'trip_id'] for t in ts]), sid, True)
          for pat, ts in pats.items()], hidden=True, order='trips'))
    if o.get('show_trips') and trips:
      sub.append(trips_folder(m, o, trips, sid))
    items.append(folder(u' - '.join(parts) or r[u'route_id'], sub,
                        u'<br/>'.join(desc) or None))
  return folder(name, items, hidden=True, order='name')


def trips_folder(m, o, trips, sid):
  items = []
  alt = o.get('altitude_per_sec', 0)
  for t in sorted(trips, key=lambda t: t[u'trip_id']):
    if o.get('date_filter') and not m.active(t[u'service_id'],
                                             o['date_filter']):
      continue
    at = [lonlat(m, d[u'stop_id']) for d in m.times.get(t[u'trip_id'], ())]
    if alt > 0 and at:
      for p, (secs, timed) in zip(at, m.interpolated(t[u'trip_id'])):
        p.append((secs - 4 * 3600) * alt)
    items.append(mark(
        t[u'trip_id'], at, u'Headsign: ' + t[u'trip_headsign']
        if t.get(u'trip_headsign') else None, sid, True,
        alt='absolute' if alt > 0 else None))
  return folder(u'Trips', items, hidden=True)


# --- comparison ----------------------------------------------------------------
def compare(ctx, got, want, path, o):
  """Both are lists of nodes; `order` of the parent says how the children are
  arranged."""
  where = '/'.join(path)
  d = lambda *x: (lambda: canon([u8(where), x]))
  left = list(got)
  pairs = []
  for w in want:
    for g in left:
      if same(g, w, o):
        left.remove(g)
        pairs.append((g, w))
        break
    else:
      ctx.violate('missing:' + kind(path), d(w, left))
  ctx.check(not left, 'more:' + kind(path), d(left))
  return pairs


def kind(path):
  return path[0].split(' ')[0] + ('' if len(path) < 2 else
                                  '>' + str(len(path)))


def same_text(a, b):
  if b is None or a is None:
    return a is None and b is None
  if re.search(ILLEGAL, b):
    return strip(a) == strip(b)
  return a == b


def same(g, w, o):
  if g['kind'] != w['kind'] or g.get('visibility') != w.get('visibility') or \
      not same_text(g.get('styleUrl'), w.get('styleUrl')):
    if not (w.get('styleUrl') == u'#stop_station' and
            g.get('styleUrl') is None):
      return False
  if w['name'].startswith(u'Pattern * '):
    if re.sub(u'^Pattern [0-9]+ ', u'Pattern * ', g.get('name', u'')) != \
        w['name']:
      return False
  elif not same_text(g.get('name'), w['name']):
    return False
  wd = w.get('description')
  gd = g.get('description')
  if isinstance(wd, tuple):
    if gd is None or not gd.startswith(wd[0]):
      return False
    if sorted(gd[len(wd[0]):].replace(u', ', u'\0').split(u'\0')) != \
        sorted(u', '.join(text(i) for i in wd[1]).replace(u', ', u'\0').split(
            u'\0')):
      return False
  elif not same_text(gd, wd):
    return False
  if g.get('shape') != w.get('shape') or g.get('alt') != w.get('alt'):
    return False
  a, b = g.get('at') or [], w.get('at') or []
  if len(a) != len(b):
    return False
  for p, q in zip(a, b):
    if len(p) != len(q) or abs(p[0] - q[0]) > 1e-6 or abs(p[1] - q[1]) > 1e-6:
      return False
    if len(p) == 3 and abs(p[2] - q[2]) > 1e-5 + 1.01 * abs(
        o.get('altitude_per_sec', 0)) + abs(q[2]) * 1e-9:
      return False
  if len(g['items']) < len(w['items']):
    return False
  return True


def tree(ctx, got, want, path, order, o):
  pairs = compare(ctx, got, want, path, o)
  seq = got
  d = lambda: canon([u8('/'.join(path)), [g.get('name') for g in seq]])
  if order is None:
    at = dict((id(g), i) for i, (g, w) in enumerate(pairs))
    ctx.check([at[id(g)] for g in got] == range(len(got)), 'order:' +
              kind(path), d)
  elif order == 'name':
    names = [g['name'] for g in got
             if g['name'] != u'Connections' or g['kind'] == 'Placemark']
    if not any(re.search(ILLEGAL, w['name']) for w in want):
      ctx.check(names == sorted(names), 'order:' + kind(path), d)
  else:
    n = [int(re.search(r'\(trips: ([0-9]+)\)$', g['name']).group(1))
         for g in got]
    ctx.check(n == sorted(n, reverse=True), 'order:' + kind(path), d)
    if path[-1] == u'Patterns':
      ctx.check([g['name'].split(u' ')[1] for g in got] ==
                [u'%d' % (i + 1) for i in range(len(got))], 'numbers', d)
  for g, w in pairs:
    if w['items'] or g['items']:
      tree(ctx, g['items'], w['items'], path + [w['name']], w.get('order'), o)


def used_styles(items):
  for g in items:
    if 'styleUrl' in g:
      yield g['styleUrl']
    for s in used_styles(g['items']):
      yield s


def check_blob(ctx, m, o, blob, odd):
  styles, items = parse(ctx, blob, odd)
  wstyles, want = expected(m, o)
  for s in used_styles(items):
    ctx.check(s[:1] == u'#' and re.sub(u'\\s', u' ', s[1:]) in styles, 'style-undefined',
              lambda: canon([s, sorted(styles)]))
  extra = dict((k, v) for k, v in styles.items() if k != 'stop_station')
  if not odd:
    wstyles = dict((re.sub(u'\\s', u' ', k), v) for k, v in wstyles.items())
    ctx.check(extra == wstyles, 'styles',
              lambda: canon([extra, wstyles]))
  tree(ctx, items, want, [u'Document'], None, o)


def argv(trace, path, out):
  a = ['kmlwriter.py']
  flags = {'show_trips': '-t', 'split_routes': '-s', 'shape_points': '-p',
           'show_stop_hierarchy': '--show_stop_hierarchy'}
  for k, v in trace['opts']:
    if k in flags:
      a.append(flags[k])
    elif k == 'altitude_per_sec':
      a += ['-a', repr(v)]
    else:
      a += ['-d', v]
  a.append(path)
  if out:
    a.append(out)
  return [u8(x) for x in a]


def write(w, trace, path, out, salt):
  """-> (ok, run)"""
  if not trace['api']:
    real = kmlwriter.KMLWriter.Write.__func__

    def scrambled(self, schedule, *a, **k):
      simdictify(schedule, salt)
      return real(self, schedule, *a, **k)
    kmlwriter.KMLWriter.Write = scrambled
    try:
      r = cli.run_main(w, kmlwriter.main, argv(trace, path, out))
    finally:
      kmlwriter.KMLWriter.Write = real
    return r.status == 0, r
  loader = transitfeed.Loader(path, problems=drive.reporter()[0],
                              gtfs_factory=googletransit.GetGtfsFactory())
  schedule = loader.Load()
  simdictify(schedule, salt)
  k = kmlwriter.KMLWriter()
  for n, v in trace['opts']:
    setattr(k, n, v)
  try:
    k.Write(schedule, out)
  except EnvironmentError as e:
    return False, e
  return True, None


def run(trace, ctx):
  feed = trace['feed']
  m = viewing.Model(feed)
  if not m.stops or not m.routes or not m.trips:
    return
  for t in m.trips:
    if not m.times.get(t[u'trip_id']):
      return
  if not trace['api'] and any(d.get(u'location_type') == u'2'
                              for d in m.stops):
    return
  o = dict(trace['opts'])
  if not trace['api']:
    o.setdefault('altitude_per_sec', 1.0)
  odd = any(re.search(ILLEGAL, c) for t in feed.values() for r in t['rows']
            for c in r)
  f = o.get('date_filter')
  senseless = f and not re.match('[0-9]{4}(0[1-9]|1[0-2])[0-9]{2}$', f)
  if senseless and trace['api']:
    return
  blobs = []
  w = World(ctx, net_plan=[], buffer_size=trace['buffer'])
  ctx.world = w
  with w:
    path = '/sim/in/out.dir' if trace['as_dir'] else '/sim/in/out.zip'
    w.fs.mkdir('/sim/in')
    drive.put_feed(w, feed, path)
    named = trace['named'] or trace['api']
    out = '/sim/out.kml' if named else '/sim/in/out.kml'
    if trace['old']:
      w.fs.put(out, 'OLD FILE')
    before = w.fs.snapshot()
    w.fs.faults = [dict(x) for x in trace['faults']]
    done = sum(ctx.faults.values())
    crashed = False
    try:
      ok, r = write(w, trace, path, out if named else None,
                    trace['salts'][0])
    except SimCrash:
      crashed = True
      ok, r = False, None
    if not crashed:
      w.finalise()
    w.fs.faults = []
    w.fs.full = False
    w.fs.reboot()
    hit = sum(ctx.faults.values()) > done
    ctx.steps += 1
    info = lambda: canon([trace['opts'], getattr(r, 'status', None),
                          getattr(r, 'out', '')[-1000:],
                          getattr(r, 'err', '')[-2500:], repr(r)[:200]])
    if senseless:
      ctx.probe('senseless')
      ctx.check(not ok and (crashed or r.status == 2), 'nonsense-taken', info)
      ctx.check(w.fs.get(out) == before.get(out), 'nonsense-written', info)
      return
    if hit:
      ctx.probe('failed' if not ok else 'ok_under_fault')
      if not ok and not crashed and not trace['api']:
        ctx.check(r.status == 127, 'failure-status', info)
    else:
      ctx.check(ok, 'refused', info)
    if ok:
      check_blob(ctx, m, o, w.fs.get(out), odd)
      blobs.append(w.fs.get(out))
    after = w.fs.snapshot()
    changed = [n for n in set(before) | set(after)
               if before.get(n) != after.get(n) and n != out and
               not n.endswith('transitfeedcrash.txt')]
    ctx.check(not changed, 'other-files', lambda: canon(changed))
    # once the disk is well, the next run draws everything
    again = World(ctx, net_plan=[])
  with again:
    again.fs.mkdir('/sim/in')
    drive.put_feed(again, feed, path)
    left = after.get(out)
    if left is not None:
      again.fs.put(out, left)
    ok, r = write(again, trace, path, out if named else None,
                  trace['salts'][1])
    again.finalise()
    ctx.check(ok, 'refused', lambda: canon([repr(r), getattr(r, 'err', '')]))
    check_blob(ctx, m, o, again.fs.get(out), odd)
    blobs.append(again.fs.get(out))
    if len(blobs) == 2:
      ctx.check(blobs[0] == blobs[1], 'not-repeatable',
                lambda: canon([x for x in zip(blobs[0].split('\n'),
                                              blobs[1].split('\n'))
                               if x[0] != x[1]][:6]))
    ctx.probe('api' if trace['api'] else 'cli')
    for k in sorted(o):
      ctx.probe(k)
    if odd:
      ctx.probe('odd')
  ctx.sig = canon([sorted(o), len(m.trips), len(m.stops), sorted(ctx.faults),
                   len(blobs[-1])])

