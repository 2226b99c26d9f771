# -*- coding: utf-8 -*-
"""The way a feed is packaged and the order in which storage and hash tables
hand it out do not change what is loaded or reported."""
import zipfile

import damage
import model
from core import Rng, canon, uni
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('feed', 'cells', 'variant')
SHRINK_KEYS = ('feed', 'opts')

OPTS = ['dir', 'deflate', 'members', 'cols', 'bom', 'crlf', 'quote', 'noeol',
        'spaces', 'zipobj', 'stream', 'diskdb', 'blanklines', 'salt',
        'listdir', 'quoteall', 'subset_noop']


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=rng.chance(70), blocks=60, trips=(2, 7))
  cells = []
  rows = rng.chance(30)
  for _ in range(rng.weighted([(0, 3), (1, 4), (3, 3), (6, 1)])):
    name = rng.choice(sorted(feed))
    op = 'droprow' if rows else rng.choice(['cell', 'cell', 'cell', 'droprow',
                                            'duprow', 'copycell'])
    cells.append([op, name, rng.seed()])
  for _ in range(rng.weighted([(0, 4), (1, 3), (2, 2)])):
    # defects which involve several objects at once
    cells.insert(0, [rng.choice(GROUP_OPS), '', rng.seed()])
  opts = dict((o, rng.seed()) for o in OPTS if rng.chance(35))
  if rows:
    opts['rows'] = rng.seed()
  if not opts:
    opts['salt'] = 1
  return {'feed': feed, 'cells': cells, 'opts': opts,
          'now': int(drive.NOW) + rng.below(300) * 86400}


GROUP_OPS = ['samenames', 'duptrip', 'mixedtypes', 'unusedshapes', 'block',
             'block', 'badservice', 'closestops', 'sametimes', 'agencies']


def group_op(feed, op, r):
  """Defects between objects."""
  def some(name, n=2):
    t = feed.get(name)
    if not t or not t['rows']:
      return None, []
    return t, r.sample(range(len(t['rows'])), min(n, len(t['rows'])))

  def setcol(name, i, c, v):
    t = feed[name]
    if c not in t['cols']:
      t['cols'].append(c)
      for row in t['rows']:
        row.append(u'')
    t['rows'][i][t['cols'].index(c)] = v

  if op == 'samenames':
    t, ii = some('routes', 3)
    for i in ii:
      setcol('routes', i, u'route_short_name', u'77')
      setcol('routes', i, u'route_long_name', r.choice([u'Same', u'same ']))
  elif op == 'duptrip':
    t, ii = some('trips', 1)
    st = feed['stop_times']
    for i in ii:
      c = t['cols'].index(u'trip_id')
      k = st['cols'].index(u'trip_id')
      old = t['rows'][i][c]
      for n in range(1 + r.below(2)):
        row = list(t['rows'][i])
        row[c] = u'%sD%d' % (r.choice([u'', u'0', u'z']), n)
        if any(x[c] == row[c] for x in t['rows']):
          continue
        t['rows'].insert(r.below(len(t['rows']) + 1), row)
        for x in [list(x) for x in st['rows'] if x[k] == old]:
          x[k] = row[c]
          st['rows'].append(x)
  elif op == 'mixedtypes':
    t, ii = some('routes', 9)
    for i in ii:
      setcol('routes', i, u'route_type', r.choice([u'1', u'3']))
  elif op == 'unusedshapes':
    t = feed.setdefault('shapes', model.new_table(
        [u'shape_id', u'shape_pt_lat', u'shape_pt_lon',
         u'shape_pt_sequence']))
    for n in range(1 + r.below(4)):
      for q in range(2):
        d = {u'shape_id': u'US%d' % n, u'shape_pt_lat': u'%d.5' % (10 + q),
             u'shape_pt_lon': u'20.5', u'shape_pt_sequence': u'%d' % q}
        t['rows'].append([d.get(c, u'') for c in t['cols']])
  elif op == 'block':
    t, ii = some('trips', 9)
    for i in ii:
      setcol('trips', i, u'block_id', r.choice([u'B1', u'B1', u'B2']))
    st = feed['stop_times']
    k = st['cols'].index(u'trip_id')
    ids = sorted(set(x[k] for x in st['rows']))
    for tid in ids:
      # move the whole trip to the same morning
      for cn in (u'arrival_time', u'departure_time'):
        c = st['cols'].index(cn)
        first = [model.secs_of(x[c]) for x in st['rows']
                 if x[k] == tid and x[c]]
        if not first:
          continue
        for x in st['rows']:
          if x[k] == tid and x[c]:
            x[c] = model.hms(model.secs_of(x[c]) - first[0] + 25200)
  elif op == 'badservice':
    t, ii = some('trips', 1 + r.below(2))
    for i in ii:
      setcol('trips', i, u'service_id', r.choice([u'NOPE', u'', u'0NOPE']))
  elif op == 'closestops':
    t, ii = some('stops', 3)
    la, lo = t['cols'].index(u'stop_lat'), t['cols'].index(u'stop_lon')
    for i in ii:
      t['rows'][i][la] = t['rows'][ii[0]][la]
      t['rows'][i][lo] = t['rows'][ii[0]][lo]
  elif op == 'sametimes':
    st = feed['stop_times']
    a, d = (st['cols'].index(u'arrival_time'),
            st['cols'].index(u'departure_time'))
    for x in st['rows']:
      if x[a]:
        x[a] = x[d] = u'07:00:00'
  elif op == 'agencies':
    t, ii = some('agency', 2)
    for i in ii:
      setcol('agency', i, u'agency_timezone',
             r.choice([u'America/New_York', u'Europe/Paris']))
      setcol('agency', i, u'agency_lang', r.choice([u'en', u'fr']))


def break_feed(feed, cells, ctx):
  feed = model.copy_feed(feed)
  for op, name, seed in cells:
    r = Rng(seed)
    if op in GROUP_OPS:
      group_op(feed, op, r)
      ctx.fault('data_' + op)
      continue
    t = feed.get(name)
    if not t or not t['rows']:
      continue
    i, j = r.below(len(t['rows'])), r.below(len(t['cols']))
    if op == 'cell':
      v = r.choice(damage.WEIRD).decode('utf-8', 'replace')
      t['rows'][i][j] = v
    elif op == 'copycell':
      t['rows'][i][j] = t['rows'][r.below(len(t['rows']))][j]
    elif op == 'droprow':
      del t['rows'][i]
    elif op == 'duprow':
      t['rows'].insert(r.below(len(t['rows']) + 1), list(t['rows'][i]))
    ctx.fault('data_' + op)
  return feed


def store(w, feed, opts, ctx):
  """Serialise by the options; returns (path, kwargs for the loader)."""
  feed = model.copy_feed(feed)
  for name in sorted(feed):
    t = feed[name]
    if 'cols' in opts:
      r = Rng(opts['cols']).sub(name)
      perm = list(range(len(t['cols'])))
      r.shuffle(perm)
      t['cols'] = [t['cols'][i] for i in perm]
      t['rows'] = [[row[i] for i in perm] for row in t['rows']]
    if 'rows' in opts:
      Rng(opts['rows']).sub(name).shuffle(t['rows'])
  files = {}
  for name in sorted(feed):
    t = feed[name]
    r = Rng(opts.get('quote', 0)).sub(name)
    pad = lambda: ''
    if 'spaces' in opts:
      rs = Rng(opts['spaces']).sub(name)
      pad = lambda: ' ' * (rs.below(3) if rs.chance(20) else 0)
    lines = []
    for k, row in enumerate([t['cols']] + t['rows']):
      force = 'quoteall' in opts or ('quote' in opts and r.chance(40))
      cells = []
      for c in row:
        x = model.csv_cell(c, force)
        if k > 0 and pad is not None:
          if not x.startswith('"'):
            x = pad() + x + pad()
        cells.append(x)
      line = ','.join(cells)
      if not line and len(row) == 1:
        line = '""'
      lines.append(line)
      if 'blanklines' in opts and k == len(t['rows']):
        lines.append('')
    eol = '\r\n' if 'crlf' in opts else '\n'
    data = eol.join(lines)
    if 'noeol' not in opts:
      data += eol
    if 'bom' in opts:
      data = '\xef\xbb\xbf' + data
    files[name + '.txt'] = data
  order = sorted(files)
  if 'members' in opts:
    Rng(opts['members']).shuffle(order)
  kw = {}
  if 'diskdb' in opts:
    kw['memory_db'] = False
  if 'dir' in opts:
    path = '/sim/v'
    w.fs.mkdir(path)
    for n in order:
      w.fs.put(path + '/' + n, files[n])
    if 'listdir' in opts:
      w.fs.listdir_rng = Rng(opts['listdir'])
    return path, kw
  path = '/sim/v.zip'
  w.fs.put(path, model.zip_bytes([(n, files[n]) for n in order],
                                 8 if 'deflate' in opts else 0))
  if 'zipobj' in opts:
    kw['zip'] = zipfile.ZipFile(path, 'r')
    path = None
  elif 'stream' in opts:
    path = open(path, 'rb')
  return path, kw


def load_all(w, path, salt, kw):
  rec = drive.Recorder()
  pr = transitfeed.ProblemReporter(rec)
  s = transitfeed.Loader(path, problems=pr, extra_validation=False,
                         check_duplicate_trips=True,
                         **kw).Load()
  trips = s.GetTripList()
  trips.sort(key=lambda t: uni(t.trip_id or u''))
  Rng(salt).shuffle(trips)
  for t in trips:
    id(t)      # Jython numbers objects when first asked: the memory layout
  if salt:
    simdictify(s, salt)
    for r in s.GetRouteList():
      simdictify(r, salt)
    for sp in s.service_periods.values():
      simdictify(sp, salt)
  s.Validate(pr)
  return s, rec


def run(trace, ctx):
  feed = break_feed(trace['feed'], trace['cells'], ctx)
  opts = trace['opts']
  w = World(ctx, start=trace['now'])
  ctx.world = w
  rows = 'rows' in opts

  def key(i):
    if rows:
      return (i['cls'], i['type'], i['file'] or '', i['col'] or '')
    return (i['cls'], i['type'], i['file'] or '', i['row'] or 0,
            i['col'] or '', i['value'] or '', i['text'])

  with w:
    a_path, a_kw = store(w, feed, {}, ctx)
    a, ra = load_all(w, a_path, 0, a_kw)
    b_path, b_kw = store(w, feed, opts, ctx)
    b, rb = load_all(w, b_path, opts.get('salt', 0) % 1000, b_kw)
    for o in sorted(opts):
      ctx.fault('variant_' + o)
    pa, pb = sorted(map(key, ra.items)), sorted(map(key, rb.items))
    if pa != pb:
      only_a = [x for x in pa if pa.count(x) > pb.count(x)]
      only_b = [x for x in pb if pb.count(x) > pa.count(x)]
      what = (only_a + only_b)[0]
      ctx.violate('report-depends-on-packaging:%s' % what[0],
                  canon([sorted(opts), 'only plain', only_a[:3],
                         'only variant', only_b[:3]]))
    da, db = drive.dump(a), drive.dump(b)
    d = model.diff_meaning(loose(da), loose(db))
    ctx.check(d is None, 'schedule-depends-on-packaging',
              lambda: canon([sorted(opts), d]))
    if ra.errors():
      ctx.probe('compared_with_errors')
    if ra.bad():
      ctx.probe('compared_with_problems')
    ctx.ev('report', pa)
    ctx.sig = canon([pa, sorted(opts)])


def loose(feed):
  """model.meaning() needs valid cells; here any text compares as itself."""
  out = {}
  for name, t in feed.items():
    out[name] = sorted(sorted((c, uni(v)) for c, v in zip(t['cols'], r)
                              if v != u'') for r in t['rows'])
  return out
