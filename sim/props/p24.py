# -*- coding: utf-8 -*-
"""KML import: every point becomes a stop and every line a shape, in place and
once, or the program says it failed."""
import StringIO
import zipfile

import model
from core import SimCrash, canon, uni, u8
from world import World, simdictify
import cli
import drive
import viewing
import kmlparser
import kmlwriter
import transitfeed

SHRINK = ('items', 'faults')
SHRINK_KEYS = ()
IN, OUT = '/sim/in.kml', '/sim/out.zip'


def gen(rng, tier, index):
  items = []
  names = [model.pick_name(rng, u'Place', i, True)
           for i in range(rng.between(1, 4))]
  names += rng.choice([[], [u'a', u'a_1', u'a_2', u'a_3'], [u'Line'],
                       [u'b'] * 3 + [u'b_%d' % i for i in range(2, 9)],
                       [u'tram 1', u'tram 1_1']])
  lines = []
  for _ in range(rng.between(1, 12)):
    name = rng.choice(names) if rng.chance(93) else u''
    style = rng.weighted([('plain', 6), ('cdata', 2), ('indent', 1),
                          ('comment', 1), ('split', 1), ('late', 1)])
    if not name and rng.chance(50):
      style = 'absent'
    k = rng.weighted([('point', 5), ('line', 5), ('empty', 1), ('nothing', 1)])
    pt = lambda: [rng.between(-179000, 179000) / 1e3,
                  rng.choice([-1, 1]) * rng.between(2000, 89000) / 1e3]
    if k == 'point':
      at = [pt()]
    elif k == 'line':
      if lines and rng.chance(50):
        at = rng.choice(lines)
      else:
        at = [pt() for _ in range(rng.between(2, 6))]
        if rng.chance(25):     # a ring, perhaps of no length
          at = at[:rng.between(1, len(at))]
          at.append(list(at[0]))
        lines.append(at)
    else:
      at = []
    items.append([k, name, style, at,
                  [rng.weighted([(' ', 6), ('\n', 2), ('alt', 2),
                                 ('comment', 1), ('cdata', 1)]),
                   rng.below(3)]])
  if rng.chance(10):       # names made up for lines are in use already
    ids = [u'c', u'c_3', u'c_4', u'c_5'][:rng.between(3, 4)]
    rng.shuffle(ids)
    items = [['line', n, 'plain', [pt(), pt()], [' ', 0]]
             for n in ids + [u'c']] + items
  faults = []
  if rng.chance(35):
    op = rng.choice(['write', 'write', 'openw', 'close', 'read', 'open'])
    faults.append({'op': op, 'path': 'in.kml' if op in ('read', 'open')
                   else 'out.zip',
                   'kind': rng.choice(['EIO', 'ENOSPC', 'TORN', 'CRASH'])
                   if op == 'write' else
                   rng.choice(['SHORT', 'SHORT', 'EIO'])
                   if op == 'read' else 'EIO',
                   'nth': rng.choice([1, 1, 2, 3]), 'frac': rng.below(101)})
  return {'items': items, 'faults': faults, 'old': rng.chance(50),
          'feed': viewing.gen_viewer_feed(rng) if rng.chance(15) else None,
          'buffer': rng.choice([0, 64, 8192]), 'rand': rng.seed()}


def esc(t):
  return t.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(
      u'>', u'&gt;')


def name_xml(name, style):
  if style == 'absent':
    return u''
  t = {'plain': esc(name), 'late': esc(name),
       'cdata': u'<![CDATA[%s]]>' % name,
       'indent': u'\n      %s\n    ' % esc(name),
       'comment': u'%s<!-- no name -->%s' % (esc(name[:2]), esc(name[2:])),
       'split': u'%s<![CDATA[%s]]>%s' % (esc(name[:1]), name[1:3],
                                         esc(name[3:]))}[style]
  return u'<name>%s</name>' % t


def coords_xml(at, how):
  out = []
  for lo, la in at:
    p = u'%.6f,%.6f' % (lo, la)
    if how == 'alt':
      p += u',12.5'
    out.append(p)
  if how == 'comment':
    return u'\n' + out[0] + u'<!-- here -->\n' + u' '.join(out[1:])
  if how == 'cdata':
    return u'<![CDATA[%s]]>' % u' '.join(out)
  return {' ': u' ', '\n': u'\n  ', 'alt': u' '}[how].join(out)


def document(items):
  out = [u'<?xml version="1.0" encoding="UTF-8"?>',
         u'<kml xmlns="http://earth.google.com/kml/2.1"><Document>',
         u'<name>not a place</name>']
  for kind, name, style, at, (how, deep) in items:
    n = name_xml(name, style)
    g = u''
    if at:
      tag = u'Point' if kind == 'point' else u'LineString'
      g = u'<%s><tessellate>1</tessellate><coordinates>%s</coordinates></%s>' \
          % (tag, coords_xml(at, how), tag)
    elif kind == 'empty':
      g = u'<LineString><coordinates></coordinates></LineString>'
    body = (g + n) if style == 'late' else (
        n + u'<description>x, y <b>not a name</b></description>' + g)
    out.append(u'<Folder><name>level</name>' * deep +
               u'<Placemark>%s</Placemark>' % body + u'</Folder>' * deep)
  out.append(u'</Document></kml>')
  return u'\n'.join(out).encode('utf-8')


def rows(blob, name):
  z = zipfile.ZipFile(StringIO.StringIO(blob))
  if name not in z.namelist():
    return []
  t = model.parse_csv(z.read(name))
  return [dict(zip(t[0], r)) for r in t[1:]]


def clean(name):
  return u' '.join(name.split())


def check_blob(ctx, stops, lines, blob):
  got = rows(blob, 'stops.txt')
  d = lambda: canon([sorted(stops), [(r.get('stop_name'), r.get('stop_lat'),
                                      r.get('stop_lon')) for r in got]])
  key = lambda n, la, lo: (clean(n), '%.6f' % float(la), '%.6f' % float(lo))
  ctx.check(sorted(key(*s) for s in stops) ==
            sorted(key(r['stop_name'], r['stop_lat'], r['stop_lon'])
                   for r in got), 'stops', d)
  ids = [r['stop_id'] for r in got]
  ctx.check(len(set(ids)) == len(ids) and all(ids), 'stop-ids',
            lambda: canon(ids))
  shapes = {}
  for r in rows(blob, 'shapes.txt'):
    shapes.setdefault(r['shape_id'], []).append(r)
  drawn = {}
  for sid, rs in shapes.items():
    rs.sort(key=lambda r: int(r['shape_pt_sequence']))
    drawn[clean(sid)] = [('%.6f' % float(r['shape_pt_lat']),
                          '%.6f' % float(r['shape_pt_lon'])) for r in rs]
  d = lambda: canon([lines, drawn])
  want = {}
  lines = [(clean(n) and n, at) for n, at in lines]
  for name, at in lines:
    at = [('%.6f' % la, '%.6f' % lo) for lo, la in at]
    l = want.setdefault(clean(name), [])
    if at not in l:
      l.append(at)
  ctx.check(u'' not in drawn, 'shape-without-id', d)
  for name, ats in want.items():
    for i, at in enumerate(ats):
      ok = [s for s, p in drawn.items() if p == at and (
          s == name or s.startswith(name + u'_') or not name)]
      ctx.check(ok, 'shape-missing', d)
    if name:
      ctx.check(name in drawn, 'shape-name', d)
  for sid, p in drawn.items():
    ctx.check(any(p in ats and (sid == n or sid.startswith(n + u'_') or not n)
                  for n, ats in want.items()), 'shape-invented', d)
  ctx.check(len(drawn) <= len(lines), 'shapes-more', d)
  if len(lines) == len(set(clean(n) for n, _ in lines)):
    ctx.check(len(drawn) == len(lines), 'shapes-fewer', d)
  for name, ats in want.items():
    if len(ats) == 1 and name and \
        not any(n != name and n and (n + u'_' == name[:len(n) + 1] or
                                     name + u'_' == n[:len(name) + 1])
                for n in want):
      ctx.check(len([s for s, p in drawn.items() if p == ats[0] and
                     s[:len(name)] == name and s[len(name):] and
                     s not in want and
                     s[len(name)] == u'_']) == 0, 'shape-repeated', d)


def run(trace, ctx):
  items = [i for i in trace['items']
           if not (i[2] in ('cdata', 'split') and u']]>' in i[1])]
  w = World(ctx, net_plan=[], buffer_size=trace['buffer'],
            rand_seed=trace['rand'])
  ctx.world = w
  with w:
    stops = [(i[1], i[3][0][1], i[3][0][0]) for i in items if len(i[3]) == 1]
    lines = [(i[1], i[3]) for i in items if len(i[3]) > 1]
    if trace['feed'] is not None:    # what the exporter drew
      feed = dict(trace['feed'])
      feed.pop('transfers', None)
      drive.put_feed(w, feed, '/sim/feed.zip')
      r = cli.run_main(w, kmlwriter.main, ['kmlwriter.py', '/sim/feed.zip',
                                           IN])
      ctx.check(r.status == 0, 'export-failed', lambda: canon([r.err]))
      m = viewing.Model(feed)
      stops = [(s[u'stop_name'],) + m.pos(s) for s in m.stops]
      lines = None
      ctx.probe('exported')
    else:
      w.fs.put(IN, document(items))
    if trace['old']:
      w.fs.put(OUT, 'OLD ARCHIVE')
    before = w.fs.snapshot()
    for f in trace['faults']:
      w.fs.faults.append(dict(f))
    done = sum(ctx.faults.values())
    crashed, r = False, None
    try:
      r = cli.run_main(w, kmlparser.main, ['kmlparser.py', IN, OUT])
      w.finalise()
    except SimCrash:
      crashed = True
    w.fs.faults = []
    w.fs.full = False
    w.fs.reboot()
    hit = sum(ctx.faults.values()) > done
    info = lambda: canon([getattr(r, 'status', None),
                          getattr(r, 'out', '')[-3000:],
                          getattr(r, 'err', '')[-1000:]])
    if not hit:
      ctx.check(not crashed and r.status == 0, 'refused', info)
    elif not crashed and r.status != 0:
      ctx.probe('failed')
      ctx.check(r.status == 127, 'failure-status', info)
    blob = w.fs.get(OUT)
    if r is not None and r.status == 0:
      judge(ctx, stops, lines, blob)
      ctx.probe('imported')
    elif hit and any(f['op'] in ('read', 'open') for f in trace['faults']):
      ctx.probe('unreadable')
      ctx.check(blob == before.get(OUT), 'wrote-anyway', info)
    after = w.fs.snapshot()
    changed = [n for n in set(before) | set(after)
               if before.get(n) != after.get(n) and n != OUT and
               not n.endswith('transitfeedcrash.txt')]
    ctx.check(not changed, 'other-files', lambda: canon(changed))
    if hit:
      r = cli.run_main(w, kmlparser.main, ['kmlparser.py', IN, OUT])
      w.finalise()
      ctx.check(r.status == 0, 'refused', lambda: canon([r.out[-3000:]]))
      judge(ctx, stops, lines, w.fs.get(OUT))
      ctx.probe('recovered')
    ctx.steps += 1
    for i in items:
      ctx.probe(i[0])
      ctx.probe('name_' + i[2])
      if i[3]:
        ctx.probe('coords_' + i[4][0].strip() or 'space')
  ctx.sig = canon([[(i[0], i[2]) for i in items], sorted(ctx.faults)])


def judge(ctx, stops, lines, blob):
  if lines is None:
    got = rows(blob, 'stops.txt')
    key = lambda n, la, lo: (clean(n), '%.6f' % float(la), '%.6f' % float(lo))
    have = [key(r['stop_name'], r['stop_lat'], r['stop_lon']) for r in got]
    for s in stops:
      ctx.check(key(*s) in have, 'exported-stop-lost',
                lambda: canon([s, have]))
    return
  check_blob(ctx, stops, lines, blob)
