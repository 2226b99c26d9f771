# -*- coding: utf-8 -*-
"""The shape importer: lines given to a feed are the right ones, the rest of
the feed stays.

'graph' runs ask the line network itself for paths; 'program' runs start the
importer on simulated files.  Sets and dictionaries of the network iterate in
drawn orders.
"""
import errno
import json
import math
import os
import sys
import tempfile
import types

import model
from core import SimCrash, canon, uni, u8, Rng
import world
from world import World, SimDict, _stable_key
import cli
import drive
from drive import transitfeed
from transitfeed import shapelib

SHRINK = ('lines', 'asks', 'faults', 'extra', 'old_shapes')
SHRINK_KEYS = ('feed',)
R = 6371010.0
SRC, DST = '/sim/in/feed.zip', '/sim/out/feed.zip'


# -- a set whose order is drawn ---------------------------------------------
class SimSet(object):
  salt = 0

  def __init__(self, items=()):
    self.items = []
    self.known = set()
    for x in items:
      self.add(x)

  def _k(self, x):
    return (x.x, x.y, x.z) if isinstance(x, shapelib.Point) else id(x)

  def add(self, x):
    if self._k(x) not in self.known:
      self.known.add(self._k(x))
      self.items.append(x)

  def remove(self, x):
    k = self._k(x)
    if k not in self.known:
      raise KeyError(x)
    self.discard(x)

  def discard(self, x):
    k = self._k(x)
    if k in self.known:
      self.known.remove(k)
      self.items = [y for y in self.items if self._k(y) != k]

  def __contains__(self, x):
    return self._k(x) in self.known

  def __len__(self):
    return len(self.items)

  def __iter__(self):
    xs = list(self.items)
    Rng(SimSet.salt * 31 + len(xs)).shuffle(xs)
    return iter(xs)


# -- the stub of the shape file library ---------------------------------------
class _Named(object):
  def __init__(self, name):
    self.name = name

  def GetName(self):
    return self.name


class _Feature(object):
  def __init__(self, d):
    self.d = d

  def GetGeometryRef(self):
    return self

  def GetPointCount(self):
    return len(self.d['points'])

  def GetX(self, i):
    return self.d['points'][i][1]

  def GetY(self, i):
    return self.d['points'][i][0]

  def GetField(self, name):
    if name not in self.d['fields']:
      raise ValueError('Illegal field requested in GetField()')
    return self.d['fields'][name]

  def GetFieldCount(self):
    return len(self.d['fields'])

  def GetFieldDefnRef(self, j):
    return _Named(u8(sorted(self.d['fields'])[j]))

  def GetFieldAsString(self, j):
    return u8(uni(self.d['fields'][sorted(self.d['fields'])[j]]))


class _Layer(object):
  def __init__(self, features):
    self.features = features

  def __len__(self):
    return len(self.features)

  def GetLayer(self, n):
    assert n == 0
    return self

  def GetFeature(self, i):
    return _Feature(self.features[i])


OGR = types.ModuleType('ogr')


def _ogr_open(path):
  try:
    f = open(path, 'rb')
    data = f.read()
    f.close()
    return _Layer(json.loads(data))
  except (IOError, ValueError):
    return None                     # what the real one does


OGR.Open = _ogr_open
sys.modules['ogr'] = OGR
import shape_importer                 # noqa
_FILE = shape_importer.__file__.replace('$py.class', '.py').replace('.pyc',
                                                                     '.py')
_CODE = compile(open(_FILE).read(), _FILE, 'exec')


# -- geometry, independently ---------------------------------------------------
def vec(lat, lon):
  a, b = math.radians(lat), math.radians(lon)
  return (math.cos(b) * math.cos(a), math.sin(b) * math.cos(a), math.sin(a))


def dot(a, b):
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
  return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
          a[0] * b[1] - a[1] * b[0])


def norm(a):
  return math.sqrt(dot(a, a))


def dist(a, b):
  """Metres between two places, by the chord."""
  d = (a[0] - b[0], a[1] - b[1], a[2] - b[2])
  return 2 * R * math.asin(min(1.0, norm(d) / 2))


def length(line):
  return sum(dist(a, b) for a, b in zip(line, line[1:]))


def closest(p, a, b):
  n = cross(a, b)
  if norm(n) < 1e-14:
    return a
  n = tuple(x / norm(n) for x in n)
  v = cross(n, a)
  end = math.atan2(dot(b, v), dot(b, a))
  ang = math.atan2(dot(p, v), dot(p, a))
  if ang <= 0 or ang >= end:
    return a if dist(p, a) <= dist(p, b) else b
  return tuple(math.cos(ang) * x + math.sin(ang) * y for x, y in zip(a, v))


def follow(pattern, line):
  """Worst distance of a stop when the stops are put on the line one after
  the other, each on the closest place after the one before; None where two
  places are equally close."""
  rest, worst = list(line), 0.0
  for p in pattern:
    best = (dist(p, rest[0]), rest[0], 0)
    options = [best]
    for i in range(len(rest) - 1):
      c = closest(p, rest[i], rest[i + 1])
      d = dist(p, c)
      options.append((d, c, i))
      if d < best[0]:
        best = (d, c, i)
    for d, c, i in options:
      if d < best[0] + 0.01 and i != best[2]:
        (i1, c1), (i2, c2) = sorted([(i, c), (best[2], best[1])])
        if dist(c1, rest[i1 + 1]) + length(rest[i1 + 1:i2 + 1]) + \
            dist(rest[i2], c2) > 0.05:
          return None
    worst = max(worst, best[0])
    rest = [best[1]] + rest[best[2] + 1:]
  return worst


def near_equal(a, b):
  return abs(a - b) < 1e-3


class Net(object):
  """Lines as edges between their two end points."""

  def __init__(self):
    self.names = {}
    self.lines = []       # lines to choose from
    self.edges = []

  def add(self, name, pts, skip_edges=False):
    """-> 'new', 'same', 'variant' or None when that cannot be told"""
    pts = [vec(*p) for p in pts]
    if name not in self.names:
      self.names[name] = pts
      self.lines.append(pts)
      self.edges.append(pts)
      return 'new'
    d = follow(pts, self.names[name])
    if d is None or abs(d - 10) < 0.01:
      return None
    if d < 10:
      if not skip_edges:
        self.edges.append(pts)
      return 'same'
    self.lines.append(pts)
    self.edges.append(pts)
    return 'variant'

  def nodes(self):
    out = []
    for e in self.edges:
      for p in (e[0], e[-1]):
        if p not in out:
          out.append(p)
    return out

  def from_node(self, start):
    """Shortest distance to every node (Bellman-Ford)."""
    far = {start: 0.0}
    changed = True
    ls = [(e[0], e[-1], length(e)) for e in self.edges]
    while changed:
      changed = False
      for a, b, l in ls:
        for x, y in ((a, b), (b, a)):
          if x in far and far[x] + l < far.get(y, 1e18) - 1e-9:
            far[y] = far[x] + l
            changed = True
    return far

  def through(self, stops, radius, keep, stay):
    """Length of the shortest chain with a node near every stop in turn,
    keeping the best 'keep' after each; None without any; 'edge' when a
    distance is on the limit.  stay: may the first leg be of no length."""
    nodes = self.nodes()
    near = []
    for s in stops:
      ds = [(dist(s, n), n) for n in nodes]
      if any(abs(d - radius) < 0.01 for d, _ in ds):
        return 'edge'
      near.append([n for d, n in ds if d < radius])
      if not near[-1]:
        return None
    far = dict((n, self.from_node(n)) for n in nodes)
    paths = [(0.0, n) for n in near[0]]
    for i in range(1, len(stops)):
      new = []
      for l, n in paths:
        for m in near[i]:
          if m in far[n] and (i > 1 or stay or n != m):
            new.append((l + far[n][m], m))
      new.sort()
      if len(new) > keep:
        last = new[keep - 1][0]
        ties = [n for l, n in new if near_equal(l, last)]
        if near_equal(new[keep][0], last) and len(set(ties)) > 1:
          return 'edge'       # which to keep is open
      paths = new[:keep]
    return min(l for l, _ in paths) if paths else None


# -- generation -------------------------------------------------------------------
def gen_net(rng):
  centre = rng.choice([[47.5, 8.5], [0.0, 32.0], [-33.9, 18.4], [37.3, -122.0],
                       [64.1, -21.9]])
  scale = rng.choice([0.003, 0.01, 0.03])
  spot = lambda: [centre[0] + (rng.below(1001) - 500) * scale / 500.0,
                  centre[1] + (rng.below(1001) - 500) * scale / 500.0]
  nodes = [spot() for _ in range(rng.between(2, 7))]
  if rng.chance(30):          # some close together
    for _ in range(2):
      n = rng.choice(nodes)
      nodes.append([n[0] + rng.below(9) * 0.0001, n[1] + rng.below(9) * 0.0001])
  lines = []
  for i in range(rng.weighted([(2, 1), (4, 2), (8, 3), (14, 3)])):
    a, b = rng.choice(nodes), rng.choice(nodes)
    mids = [spot() if rng.chance(40) else
            [(a[0] * (k - j) + b[0] * j) / k + rng.below(20) * 0.00001,
             (a[1] * (k - j) + b[1] * j) / k] for k in
            [rng.weighted([(1, 4), (2, 3), (4, 2)])] for j in range(1, k)]
    lines.append([u'L%d' % (i if rng.chance(75) else rng.below(3)),
                  rng.choice([u'a', u'b', u'1']), [a] + mids + [b]])
  if lines and rng.chance(40):     # the same again, or part of it
    for _ in range(rng.between(1, 3)):
      l = rng.choice(lines)
      pts = l[2] if rng.chance(50) or len(l[2]) < 3 else l[2][:-1]
      lines.append([l[0], l[1], pts])
  if lines and rng.chance(15):     # a name the importer may make up
    lines[rng.below(len(lines))][0] = u'L%d-%d' % (
        rng.below(3), rng.between(1, max(2, len(lines) - 1)))
  return nodes, lines, spot


def gen(rng, tier, index):
  nodes, lines, spot = gen_net(rng)
  for l in lines:
    l[2] = [[round(x, 7) for x in p] for p in l[2]]
  jitter = rng.choice([0, 1, 8])
  by = lambda n: [n[0] + (rng.below(101) - 50) * 0.00002 * jitter,
                  n[1] + (rng.below(101) - 50) * 0.00002 * jitter]
  if rng.chance(35):
    asks = []
    for _ in range(rng.between(1, 5)):
      if rng.chance(50):
        asks.append(['path', rng.below(50), rng.below(50)])
      else:
        asks.append(['multi', [by(rng.choice(nodes)) if rng.chance(90) else
                               spot() for _ in range(rng.between(2, 5))],
                     rng.choice([30, 150, 150, 400]),
                     rng.choice([1, 2, 3, 10, 10, 1000])])
    return {'kind': 'graph', 'lines': lines, 'asks': asks, 'seed': rng.seed(),
            'extra': [], 'faults': [], 'old_shapes': []}
  feed = model.gen_feed(rng, calm=True, trips=(1, 7), stops=(3, 6))
  places = []
  for r in feed['stops']['rows']:
    p = by(rng.choice(nodes)) if rng.chance(85) else spot()
    places.append(p)
    r[model.col(feed['stops'], 'stop_lat')] = u'%.6f' % p[0]
    r[model.col(feed['stops'], 'stop_lon')] = u'%.6f' % p[1]
  if rng.chance(60):          # a line along the stops of a trip
    lat = dict((d[u'stop_id'], [float(d[u'stop_lat']), float(d[u'stop_lon'])])
               for d in model.dicts(feed, 'stops'))
    for t in rng.sample(model.dicts(feed, 'trips'), 2):
      seq = sorted((int(d[u'stop_sequence']), d[u'stop_id'])
                   for d in model.dicts(feed, 'stop_times')
                   if d[u'trip_id'] == t[u'trip_id'])
      pts = [lat[s] for _, s in seq]
      if rng.chance(30) and len(pts) > 2:
        pts = pts[:1] + pts[2:]
      if rng.chance(25):
        pts = [by(p) for p in pts]
      if rng.chance(20):
        pts = pts[::-1]
      lines.append([u'T%d' % len(lines), u'a',
                    [[round(x, 7) for x in p] for p in pts]])
  rng.shuffle(lines)
  extra = [lines.pop() for _ in range(rng.choice([0, 0, 0, 1, 2]))
           if len(lines) > 1]
  old = []
  if rng.chance(40):
    old = [[rng.choice([u'shape_1', u'shape_2', u'shape_3', u'own']),
            [spot(), spot()]] for _ in range(rng.between(1, 2))]
    if old[0][0] == old[-1][0]:
      old = old[:1]
  faults = []
  if rng.chance(25):
    op = rng.choice(['write', 'write', 'write', 'openw', 'close', 'read',
                     'open'])
    faults.append({'op': op, 'nth': 1 + rng.below(8 if op == 'write' else 3),
                   'frac': rng.below(101),
                   'kind': rng.choice(['EIO', 'ENOSPC', 'TORN', 'CRASH'])
                   if op == 'write' else 'EIO'})
    if rng.chance(40):
      faults[0]['under'] = rng.choice(['/sim/out', '/sim/tmp', '/sim/in'])
  return {'kind': 'program', 'feed': feed, 'lines': lines, 'extra': extra,
          'asks': [], 'old_shapes': old, 'faults': faults,
          'files': rng.between(1, 3), 'seed': rng.seed(),
          'keys': rng.choice(['', 'NAME', 'NAME', 'NAME,DIR']),
          'max': rng.choice([None, 20, 150, 400]),
          'verbosity': rng.choice([0, 0, 1, 3]),
          'buffer': rng.choice([0, 64, 8192])}


# -- runs ---------------------------------------------------------------------------
def points_of(poly):
  return [(p.x, p.y, p.z) for p in poly.GetPoints()]


def run(trace, ctx):
  w = World(ctx, net_plan=[], buffer_size=trace.get('buffer', 0))
  ctx.world = w
  old_tmp, old_names = tempfile.tempdir, tempfile._get_candidate_names
  old_init = shapelib.PolyCollection.__init__
  SimSet.salt = trace['seed']
  shapelib.set = SimSet

  def init(self):
    old_init(self)
    for k, v in sorted(vars(self).items()):
      if type(v) is dict:
        d = SimDict(v)
        d._sim_salt = trace['seed']
        setattr(self, k, d)
  shapelib.PolyCollection.__init__ = init
  tempfile.tempdir = '/sim/tmp'
  tempfile._get_candidate_names = lambda: iter(['n%d' % i for i in range(99)])
  try:
    with w:
      w.fs.mkdir('/sim/tmp')
      if trace['kind'] == 'graph':
        run_graph(trace, ctx, w)
      else:
        run_program(trace, ctx, w)
  finally:
    del shapelib.set
    shapelib.PolyCollection.__init__ = old_init
    tempfile.tempdir = old_tmp
    tempfile._get_candidate_names = old_names


def nets_of(ctx, named):
  """The networks the lines may make, or None when the names leave it open."""
  nets, names = [], [n for n, _ in named]
  for skip in (False, True):
    net = Net()
    for i, (name, pts) in enumerate(named):
      how = net.add(name, pts, skip)
      if how is None or (how == 'variant' and any(
          n.startswith(name + u'-') for n in names[i + 1:])):
        return None       # a later line has the name made up for this one
      if not skip:
        ctx.probe('line_' + how)
    nets.append(net)
  return nets


def chained(net, pts):
  """Is this a chain of whole lines, each starting where the last ended?"""
  todo, seen = [0], set()
  while todo:
    i = todo.pop()
    if i == len(pts) - 1:
      return True
    if i in seen:
      continue
    seen.add(i)
    for e in net.edges:
      for line in (e, e[::-1]):
        n = len(line)
        if all(dist(x, y) < 0.3 for x, y in zip(line, pts[i:i + n])) and \
            len(pts[i:i + n]) == n:
          if n > 1 and dist(line[0], line[-1]) >= 0:
            todo.append(i + n - 1)
  return False


def run_graph(trace, ctx, w):
  g = shapelib.PolyGraph()
  named = [(l[0], l[2]) for l in trace['lines']]
  for name, pts in named:
    g.AddPoly(shapelib.Poly([shapelib.Point.FromLatLng(*p) for p in pts],
                            u8(name)))
  nets = nets_of(ctx, named)
  if nets is None:
    return
  ctx.check(g.NumPolys() == len(nets[0].lines), 'lines-kept',
            lambda: canon([g.NumPolys(), len(nets[0].lines)]))
  for ask in trace['asks']:
    ctx.steps += 1
    if ask[0] == 'path':
      nodes = nets[1].nodes()       # nodes in both
      if not nodes:
        return
      a, b = nodes[ask[1] % len(nodes)], nodes[ask[2] % len(nodes)]
      got = g.ShortestPath(shapelib.Point(*a), shapelib.Point(*b))
      want = [n.from_node(a).get(b) for n in nets]
      if got is None or want[0] is None:
        ctx.check(got is None and None in want, 'path-found',
                  lambda: canon([ask, got and points_of(got), want]))
        continue
      pts = points_of(got)
      if a != b:
        ctx.check(dist(pts[0], a) < 0.01 and dist(pts[-1], b) < 0.01,
                  'path-ends', lambda: canon([ask, pts]))
        ctx.check(chained(nets[0], pts), 'path-through',
                  lambda: canon([ask, pts]))
        ctx.probe('path')
      l = length(pts)
      ctx.check(any(x is not None and near_equal(l, x) for x in want),
                'path-length', lambda: canon([ask, l, want]))
      ctx.ev('path', '%.3f' % l)
    else:
      stops = [vec(*p) for p in ask[1]]
      got = g.FindShortestMultiPointPath(
          [shapelib.Point.FromLatLng(*p) for p in ask[1]], ask[2], ask[3])
      want = [n.through(stops, ask[2], ask[3], stay)
              for n in nets for stay in (False, True)]
      judge_path(ctx, nets, stops, ask[2], got and points_of(got), want,
                 [ask, want])
  ctx.sig = canon([len(trace['lines']), trace['asks'],
                   sorted(ctx.probes)])


def judge_path(ctx, nets, stops, radius, pts, want, info, tol=1e-3):
  if 'edge' in want:
    ctx.probe('on_the_limit')
    return
  if pts is None or len(pts) == 0:
    ctx.check(None in want, 'chain-missed', lambda: canon(info))
    ctx.probe('no_chain')
    return
  if len(pts) == 1:
    ctx.check(0 in want, 'chain-stays', lambda: canon(info))
    return
  ctx.check(chained(nets[0], pts), 'chain-through', lambda: canon([pts, info]))
  ctx.check(dist(pts[0], stops[0]) < radius + 0.3 and
            dist(pts[-1], stops[-1]) < radius + 0.3, 'chain-ends',
            lambda: canon(info))
  l = length(pts)
  ctx.check(any(x is not None and abs(l - x) < tol for x in want),
            'chain-length', lambda: canon([l, info]))
  ctx.probe('chain')


def _execute(scope):
  exec(_CODE, scope)


def start(w, argv):
  scope = {'__name__': '__main__', '__file__': _FILE}

  return cli.run_main(w, lambda: _execute(scope), argv, handler=False)


def run_program(trace, ctx, w):
  w.fs.mkdir('/sim/out')
  w.fs.cwd = '/sim'
  feed = model.copy_feed(trace['feed'])
  if trace['old_shapes']:
    if 'shapes' not in feed:
      feed['shapes'] = model.new_table(['shape_id', 'shape_pt_lat',
                                        'shape_pt_lon', 'shape_pt_sequence'])
    cols = feed['shapes']['cols']
    for name, pts in trace['old_shapes']:
      for i, p in enumerate(pts):
        v = {u'shape_id': name, u'shape_pt_lat': u'%.6f' % p[0],
             u'shape_pt_lon': u'%.6f' % p[1], u'shape_pt_sequence': u'%d' % i}
        feed['shapes']['rows'].append([v.get(c, u'') for c in cols])
  drive.put_feed(w, feed, SRC)
  argv = ['shape_importer.py', '--source_gtfs=' + SRC, '--dest_gtfs=' + DST]
  keys = [k for k in trace['keys'].split(',') if k]
  if keys:
    argv.append('--keycols=' + trace['keys'])
  if trace['max'] is not None:
    argv.append('--max_distance=%d' % trace['max'])
  radius = trace['max'] or 150
  if trace['verbosity']:
    argv.append('--verbosity=%d' % trace['verbosity'])
  named = []
  for k in range(trace['files']):
    mine = trace['lines'][k::trace['files']]
    path = '/sim/in/%d.shp' % k
    w.fs.put(path, json.dumps([
        {'points': l[2], 'fields': {'NAME': l[0], 'DIR': l[1]}}
        for l in mine]))
    argv.append(path)
    for i, l in enumerate(mine):
      fields = {'NAME': l[0], 'DIR': l[1]}
      named.append((u'-'.join(fields[c] for c in keys) if keys else
                    uni('%s-%d' % (path, i)), l[2]))
  if trace['extra']:
    t = model.new_table(['shape_id', 'shape_pt_lat', 'shape_pt_lon',
                         'shape_pt_sequence'])
    seen = {}
    for l in trace['extra']:
      if l[0] in seen or len(l[2]) < 2:
        continue
      seen[l[0]] = [[float('%.9f' % x) for x in p] for p in l[2]]
      for i, p in enumerate(l[2]):
        t['rows'].append([l[0], u'%.9f' % p[0], u'%.9f' % p[1], u'%d' % i])
    w.fs.put('/sim/in/extra.txt', model.table_bytes(t))
    argv.append('--extra_shapes=/sim/in/extra.txt')
    # their order is the library's own: without equal names it is no matter
    if set(seen) & set(n for n, _ in named):
      named = None
    else:
      named += sorted(seen.items())
  nets = nets_of(ctx, named) if named is not None else None
  before = w.fs.snapshot()
  w.fs.faults = [dict(f) for f in trace['faults']]
  done = sum(ctx.faults.values())
  crashed, r = False, None
  try:
    r = start(w, argv)
    w.finalise()
  except SimCrash:
    crashed = True
  w.fs.faults = []
  w.fs.full = False
  w.fs.reboot()
  hit = sum(ctx.faults.values()) > done
  ctx.steps += 1
  info = lambda: canon([argv, getattr(r, 'status', None),
                        repr(getattr(r, 'exc', None)),
                        getattr(r, 'out', '')[-700:],
                        getattr(r, 'err', '')[-500:]])
  after = w.fs.snapshot()
  changed = [n for n in set(before) | set(after)
             if before.get(n) != after.get(n) and n != DST and
             not (crashed and n.startswith('/sim/tmp/'))
             and not (hit and n.startswith('/sim/tmp/'))]
  ctx.check(not changed, 'others-changed', lambda: canon([changed, info()]))
  ctx.check(not w.fs.outside_writes, 'outside',
            lambda: canon(w.fs.outside_writes))
  ok = r is not None and r.status == 0
  if not hit:
    ctx.check(ok, 'refused:%s' % type(getattr(r, 'exc', None)).__name__, info)
  if not ok:
    ctx.probe('failed')
    for n in list(w.fs.nodes):
      if n.startswith('/sim/tmp/'):
        del w.fs.nodes[n]
    r = start(w, argv)
    w.finalise()
    ctx.check(r.status == 0, 'refused-afterwards', info)
    ctx.probe('recovered')
  judge(ctx, w, trace, feed, nets, radius, info)
  ctx.sig = canon([len(trace['lines']), trace['keys'], trace['max'],
                   sorted(ctx.probes), sorted(ctx.faults)])


def judge(ctx, w, trace, feed, nets, radius, info):
  got = model.read_zip_feed(w.fs.get(DST))
  # all but the shapes of trips is as it was
  mapped = dict((d[u'trip_id'], d.get(u'shape_id', u''))
                for d in model.dicts(got, 'trips'))
  old = dict((d[u'trip_id'], d.get(u'shape_id', u''))
             for d in model.dicts(feed, 'trips'))
  lines = {}
  for d in model.dicts(got, 'shapes'):
    lines.setdefault(d[u'shape_id'], []).append(
        (int(d[u'shape_pt_sequence']), float(d[u'shape_pt_lat']),
         float(d[u'shape_pt_lon'])))
  lines = dict((k, [vec(a, b) for _, a, b in sorted(v)])
               for k, v in lines.items())
  own = set(d[u'shape_id'] for d in model.dicts(feed, 'shapes'))
  expect = model.copy_feed(feed)
  t = expect['trips']
  if u'shape_id' not in t['cols']:
    t['cols'].append(u'shape_id')
    for row in t['rows']:
      row.append(u'')
  for row in t['rows']:
    row[model.col(t, 'shape_id')] = mapped.get(row[model.col(t, 'trip_id')],
                                               u'')
  made = [r for r in (got['shapes']['rows'] if 'shapes' in got else ())
          if r[model.col(got['shapes'], 'shape_id')] not in own]
  if made:
    if 'shapes' not in expect:
      expect['shapes'] = {'cols': list(got['shapes']['cols']), 'rows': []}
    cols = expect['shapes']['cols']
    for r in made:
      d = dict(zip(got['shapes']['cols'], r))
      expect['shapes']['rows'].append([d.get(c, u'') for c in cols])
  diff = model.diff_meaning(model.meaning(expect), model.meaning(got))
  ctx.check(not diff, 'feed-changed', lambda: canon([diff, info()]))
  where = dict((d[u'stop_id'], vec(float(d[u'stop_lat']),
                                   float(d[u'stop_lon'])))
               for d in model.dicts(feed, 'stops'))
  seqs = {}
  for d in model.dicts(feed, 'stop_times'):
    seqs.setdefault(d[u'trip_id'], []).append((int(d[u'stop_sequence']),
                                               d[u'stop_id']))
  groups = {}
  for d in model.dicts(feed, 'trips'):
    k = (d[u'route_id'], tuple(s for _, s in sorted(seqs.get(d[u'trip_id'],
                                                             ()))))
    groups.setdefault(k, []).append(d[u'trip_id'])
  for (route, stops), trips in sorted(groups.items()):
    ctx.steps += 1
    new = set(mapped[x] for x in trips)
    detail = lambda: canon([route, stops, trips,
                            [(x, old[x], mapped[x]) for x in trips], info()])
    kept = all(mapped[x] == old[x] for x in trips)
    if not kept:
      ctx.check(len(new) == 1, 'pattern-split', detail)
      s = new.pop()
      ctx.check(s in lines and s not in own, 'shape-taken', detail)
    else:
      s = None
    if nets is None:
      continue
    at = [where[x] for x in stops]
    for e in nets[0].lines:
      for p, q in ((at[0], e[0]), (at[-1], e[-1])):
        if abs(dist(p, q) - radius) < 0.01:
          s = 'edge'
    if s == 'edge':
      ctx.probe('on_the_limit')
      continue
    fits = [e for e in nets[0].lines if dist(at[0], e[0]) < radius and
            dist(at[-1], e[-1]) < radius]
    if fits:
      scores = [follow(at, e) for e in fits]
      if None in scores or any(abs(x - radius) < 0.01 for x in scores):
        ctx.probe('ambiguous')
        continue
      best = min(scores)
      if s is None:
        ctx.check(best > radius, 'line-missed', lambda: canon(
            [scores, detail()]))
        ctx.probe('lines_too_far')
        continue
      ctx.check(best <= radius, 'line-too-far', lambda: canon(
          [scores, detail()]))
      mine = [x for x, e in zip(scores, fits) if len(e) == len(lines[s]) and
              all(dist(p, q) < 0.5 for p, q in zip(e, lines[s]))]
      ctx.check(mine and min(mine) <= best + 0.02, 'line-wrong',
                lambda: canon([scores, mine, lines[s], detail()]))
      ctx.probe('line_of_several' if len(fits) > 1 else 'line')
    else:
      want = [n.through(at, radius, 10, stay) for n in nets
              for stay in (False, True)]
      if s is None:
        if None not in want and 'edge' not in want:
          # a chain there is, but it may stray from the stops between
          ctx.probe('chain_refused')
          continue
        ctx.probe('nothing_near')
        continue
      judge_path(ctx, nets, at, radius, lines[s], want,
                 [want, detail()], tol=1.0)
