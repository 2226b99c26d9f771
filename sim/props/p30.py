# -*- coding: utf-8 -*-
"""The pathway picture: every chosen place and every pathway between chosen
places is drawn, once, where it belongs and under its own name."""
import subprocess

import model
from core import SimCrash, canon, uni, u8, Rng
from world import World, SimDict
import cli
import visualize_pathways as vp

SHRINK = ('stations', 'loose', 'paths', 'ask', 'faults', 'spoil')
SHRINK_KEYS = ()
SRC = '/sim/feed'
COLORS = ['lightskyblue', 'lightyellow', 'lightcoral', 'lightgrey',
          'springgreen']
SHAPES = ['box', 'polygon', 'doubleoctagon', 'hexagon', 'oval']
MODES = ['unknown', 'walkway', 'stairs', 'moving_sidewalk', 'escalator',
         'elevator', 'fare_gate', 'exit_gate']
IDS = [u'%s', u'%s', u'%s', u'p-%s', u'%s"q', u'%s\\', u'a b %s', u'\\n%s',
       u'\xe9%s', u'<%s>', u'%s;', u'{%s}', u'%s]', u'a->%s', u'"%s"', u'--%s',
       u'#%s', u'//%s', u'%s/*', u'%s.5']
WORDS = [u'node', u'edge', u'graph', u'Graph', u'digraph', u'subgraph',
         u'strict', u'NODE', u'cluster_x', u'_', u'a', u'7', u'-3.5', u'1a']
TEXTS = [u'', u'', u'Main', u'Hall "A"', u'Gleis 1\\2', u'line\nbreak',
         u'back\\', u'North Entrance of the Central Station, Level 3',
         u'Z\xfcrich Hauptbahnhof Nord und S\xfcd', u'\u505c\u8eca' * 12,
         u'%s', u'<b>x</b>', u'\\N', u'a, b', u'exactly twenty chars',
         u'exactly twenty-five char.', u'{a|b}', u'-> there', u'# 9']


def gen(rng, tier, index):
  used, words = set(), list(WORDS)
  rng.shuffle(words)

  def new_id():
    if words and rng.chance(12):
      s = words.pop()
    else:
      s = rng.choice(IDS) % (rng.choice([u'S', u'x_', u'']) +
                             u'%d' % len(used))
    if s in used:
      return new_id()
    used.add(s)
    return s
  name = lambda: rng.choice(TEXTS)
  stations = []
  for _ in range(rng.between(1, 4)):
    kids = []
    for _ in range(rng.below(6)):
      t = rng.choice([0, 0, 2, 3])
      areas = [[new_id(), name(), u'', name()] for _ in range(rng.between(1, 3))
               ] if t == 0 and rng.chance(35) else []
      kids.append([new_id(), t, name(), rng.choice([u'', u'', u'1', u'2b',
                                                    u'"3"', u'4\\']),
                   name(), areas])
    stations.append([new_id(), name(), kids])
  # what a pathway may join: all but stations and platforms with areas
  paths = []
  for k in range(rng.weighted([(0, 1), (3, 2), (8, 3)])):
    paths.append([u'w%d' % k, rng.below(100), rng.below(100),
                  rng.choice([u'', u'0', u'1', u'2', u'3', u'4', u'5', u'6',
                              u'7']), rng.choice([u'', u'0', u'1', u'1']),
                  name(), name(), rng.chance(85)])
  faults = []
  if rng.chance(20):
    op = rng.choice(['write', 'openw', 'close', 'read', 'open'])
    faults.append({'op': op, 'nth': 1 + rng.below(3), 'frac': rng.below(101),
                   'kind': rng.choice(['EIO', 'ENOSPC', 'TORN', 'CRASH'])
                   if op == 'write' else 'EIO'})
  return {'stations': stations,
          'loose': [[new_id(), name()] for _ in range(rng.below(3))],
          'paths': paths, 'faults': faults, 'seed': rng.seed(),
          'ask': [rng.below(100) for _ in range(rng.choice([0, 0, 1, 1, 2]))],
          'spoil': [x for x in ('bom', 'crlf', 'quote', 'short', 'space',
                                'fewer', 'blank') if rng.chance(15)],
          'dot': rng.choice([None, '/sim/out.dot', 'here.dot']),
          'arg': rng.choice([SRC, SRC + '/', '/sim/./feed', 'feed']),
          'old': rng.chance(30), 'png': rng.chance(25), 'svg': rng.chance(25),
          'buffer': rng.choice([0, 64, 8192])}


# -- a reader of the picture's language ----------------------------------------
class Bad(Exception):
  pass


def tokens(text):
  out, i = [], 0
  while i < len(text):
    c = text[i]
    if c in ' \t\r\n':
      i += 1
    elif text.startswith('//', i) or c == '#':
      i = text.find('\n', i)
      if i < 0:
        break
    elif text.startswith('/*', i):
      i = text.index('*/', i) + 2
    elif c in '{}[]=;,':
      out.append((c, None))
      i += 1
    elif text.startswith('->', i):
      out.append(('->', None))
      i += 2
    elif c == '"':
      j, s = i + 1, ''
      while True:
        if j >= len(text):
          raise Bad('unfinished string')
        if text[j] == '\\' and text[j + 1:j + 2] == '"':
          # a backslash before it belongs to a pair
          s += '\\"'
          j += 2
        elif text[j] == '\\':
          s += text[j:j + 2]
          j += 2
        elif text[j] == '"':
          break
        else:
          s += text[j]
          j += 1
      out.append(('id', s))
      i = j + 1
    else:
      j = i
      while j < len(text) and (text[j].isalnum() or text[j] == '_' or
                               ord(text[j]) > 127):
        j += 1
      if j == i:
        raise Bad('odd character %r' % text[i:i + 10])
      w = text[i:j]
      if w[0].isdigit() and not w.isdigit():
        raise Bad('odd word %r' % w)
      if w.lower() in ('node', 'edge', 'graph', 'digraph', 'subgraph',
                       'strict'):
        out.append((w.lower(), None))
      else:
        out.append(('id', w))
      i = j
  return out


def text_of(s):
  """What a label shows."""
  out, i = '', 0
  while i < len(s):
    if s[i] == '\\' and i + 1 < len(s):
      if s[i + 1] not in '\\"n':
        raise Bad('escape %r' % s[i:i + 2])
      out += {'n': '\n'}.get(s[i + 1], s[i + 1])
      i += 2
    else:
      out += s[i]
      i += 1
  return out


class Reader(object):
  def __init__(self, text):
    self.t = tokens(text) + [('end', None)]
    self.i = 0
    self.nodes = {}       # id -> (clusters around it, attributes)
    self.groups = {}      # cluster -> (clusters around it, attributes)
    self.edges = []
    self.defaults = {}
    self.take('digraph')
    self.take('id')
    self.take('{')
    self.body(())
    self.take('end')

  def peek(self, k=0):
    return self.t[min(self.i + k, len(self.t) - 1)][0]

  def take(self, kind):
    k, v = self.t[self.i]
    if k != kind:
      raise Bad('%s where %s belongs, after %r' % (
          k, kind, self.t[max(0, self.i - 6):self.i]))
    self.i += 1
    return v

  def attrs(self):
    d = {}
    while self.peek() == '[':
      self.take('[')
      while self.peek() != ']':
        k = self.take('id')
        self.take('=')
        d[k] = self.take('id')
        if self.peek() in (';', ','):
          self.i += 1
      self.take(']')
    return d

  def body(self, around):
    while self.peek() != '}':
      k = self.peek()
      if k == ';':
        self.i += 1
      elif k == 'subgraph':
        self.take(k)
        name = self.take('id')
        if name in self.groups:
          raise Bad('group %r twice' % name)
        self.groups[name] = (around, {})
        self.take('{')
        self.body(around + (name,))
      elif k in ('graph', 'node', 'edge'):
        self.take(k)
        a = self.attrs()
        if k == 'graph' and around:
          self.groups[around[-1]][1].update(a)
        elif k == 'edge':
          self.defaults.update(a)
      else:
        a = self.take('id')
        if self.peek() == '->':
          self.take('->')
          b = self.take('id')
          d = dict(self.defaults)
          d.update(self.attrs())
          self.edges.append((a, b, d))
        elif self.peek() == '=':
          self.take('=')
          self.take('id')
        else:
          if a in self.nodes:
            raise Bad('node %r twice' % a)
          self.nodes[a] = (around, self.attrs())
    self.take('}')


# -- runs -----------------------------------------------------------------------
class SimSet(set):
  salt = 0

  def __iter__(self):
    xs = sorted(set.__iter__(self))
    Rng(SimSet.salt * 7 + len(xs)).shuffle(xs)
    return iter(xs)

  def copy(self):
    return SimSet(list(self))


def sim_dict(d, salt):
  out = SimDict(d)
  out._sim_salt = salt
  return out


def run(trace, ctx):
  w = World(ctx, net_plan=[], buffer_size=trace['buffer'])
  ctx.world = w
  salt = SimSet.salt = trace['seed']
  old = (vp.GtfsReader._read_table, vp.GraphViz.__init__,
         vp.GraphCluster.__init__, subprocess.call)
  calls = []

  def read_table(self, *a):
    return sim_dict(old[0](self, *a), salt)

  def clustered(init):
    def f(self, *a, **k):
      init(self, *a, **k)
      self.clusters = sim_dict(self.clusters, salt)
    return f

  def call(argv, *a, **k):
    calls.append(list(argv))
    return 0
  vp.GtfsReader._read_table = read_table
  vp.GraphViz.__init__ = clustered(old[1])
  vp.GraphCluster.__init__ = clustered(old[2])
  subprocess.call = call
  vp.set = SimSet
  try:
    with w:
      inside(trace, ctx, w, calls)
  finally:
    del vp.set
    (vp.GtfsReader._read_table, vp.GraphViz.__init__,
     vp.GraphCluster.__init__, subprocess.call) = old


def inside(trace, ctx, w, calls):
  w.fs.cwd = '/sim'
  w.fs.mkdir(SRC)
  rng = Rng(trace['seed'])
  spoil = trace['spoil']
  places, parent, ends = [], {}, []
  for sid, name, kids in trace['stations']:
    places.append([sid, 1, name, u'', u'', None])
    for kid, t, kname, code, sign, areas in kids:
      places.append([kid, t, kname, code, sign, sid])
      if not areas:
        ends.append(kid)
      for aid, aname, acode, asign in areas:
        places.append([aid, 4, aname, acode, asign, kid])
        ends.append(aid)
  for sid, name in trace['loose']:
    places.append([sid, 0, name, u'', u'', None])
  info = dict((p[0], p) for p in places)
  stops = model.new_table(['stop_id', 'stop_name', 'location_type',
                           'parent_station', 'platform_code', 'signposted_as'])
  fewer = 'fewer' in spoil
  if fewer:
    stops['cols'] = stops['cols'][:4]
  for p in places:
    row = [p[0], p[2], rng.choice([u'', u'0']) if p[1] == 0 else u'%d' % p[1],
           p[5] or u'', p[3], p[4]]
    stops['rows'].append(row[:len(stops['cols'])])
  order = list(range(len(places)))
  rng.shuffle(order)
  stops['rows'] = [stops['rows'][i] for i in order]
  table = model.new_table(['pathway_id', 'from_stop_id', 'to_stop_id',
                           'pathway_mode', 'is_bidirectional', 'signposted_as',
                           'reversed_signposted_as'])
  if fewer:
    table['cols'] = table['cols'][:5]
  paths = []
  for pid, a, b, mode, both, sign, back, same in trace['paths']:
    if not ends:
      break
    a, b = ends[a % len(ends)], ends[b % len(ends)]
    if same:        # mostly inside one station
      near = [e for e in ends if top(info, e) == top(info, a)]
      b = near[len(ends) % len(near)] if b not in near else b
    paths.append([a, b, int(mode or 0), both == u'1', u'' if fewer else sign,
                  u'' if fewer else back])
    table['rows'].append([pid, a, b, mode, both, sign, back]
                         [:len(table['cols'])])
  files = {}
  for n, t in (('stops', stops), ('pathways', table)):
    t = {'cols': t['cols'], 'rows': [list(r) for r in t['rows']]}
    for r in t['rows']:
      if 'space' in spoil:
        for i, c in enumerate(r):
          if rng.chance(15) and t['cols'][i] not in (
              u'location_type', u'pathway_mode', u'is_bidirectional'):
            r[i] = c + u' '
      if 'short' in spoil:
        while len(r) > 2 and r[-1] == u'':
          r.pop()
    b = model.table_bytes(t, eol='\r\n' if 'crlf' in spoil else '\n',
                          bom='bom' in spoil, quote='quote' in spoil)
    if 'blank' in spoil:
      b += '\n'
    w.fs.put(SRC + '/' + n + '.txt', b)
  for x in spoil:
    ctx.probe(x)
  argv = ['visualize_pathways.py', trace['arg']]
  dot = SRC + '.dot'
  if trace['dot']:
    argv += ['--dot', trace['dot']]
    dot = w.fs.norm(trace['dot'])
  for o in ('png', 'svg'):
    if trace[o]:
      argv.append('--' + o)
  if trace['old']:
    w.fs.put(dot, 'old picture ' * 500)
  asked = [places[k % len(places)][0] for k in trace['ask']]
  asked = [a for a in asked if u',' not in a]
  if asked:
    argv.append('--stop_ids=' + ','.join(u8(a) for a in asked))
    tops = set(top(info, a) for a in asked)
  else:
    tops = set(top(info, x) for p in paths for x in p[:2])
  before = w.fs.snapshot()
  w.fs.faults = [dict(f) for f in trace['faults']]
  done = sum(ctx.faults.values())
  r = None
  try:
    r = cli.run_main(w, vp.main, argv, handler=False)
    w.finalise()
  except SimCrash:
    pass
  w.fs.faults = []
  w.fs.full = False
  w.fs.reboot()
  hit = sum(ctx.faults.values()) > done
  ctx.steps += 1
  detail = lambda: canon([argv, getattr(r, 'status', None),
                          repr(getattr(r, 'exc', None)),
                          getattr(r, 'out', '')[-300:],
                          getattr(r, 'err', '')[-300:]])

  def untouched():
    after = w.fs.snapshot()
    changed = [n for n in set(before) | set(after)
               if before.get(n) != after.get(n) and n != dot]
    ctx.check(not changed and not w.fs.outside_writes, 'others-changed',
              lambda: canon([changed, w.fs.outside_writes, detail()]))
  untouched()
  ok = r is not None and r.status == 0
  if not hit:
    ctx.check(ok, 'refused:%s' % type(getattr(r, 'exc', None)).__name__,
              detail)
  if not ok:
    ctx.probe('failed')
    ctx.check(r is None or 'Generated %s' % dot not in r.out, 'claimed',
              detail)
    del calls[:]
    r = cli.run_main(w, vp.main, argv, handler=False)
    w.finalise()
    ctx.check(r.status == 0, 'refused-afterwards', detail)
    untouched()
    ctx.probe('recovered')
  base = dot[:-4]
  given = [[x for x in c if x.startswith('-') or x in ('png', 'svg', 'dot')] +
           [w.fs.norm(x) for x in c if x.endswith(('.dot', '.png', '.svg'))]
           for c in calls]
  ctx.check(given == [['dot', '-T', o, '-o', base + '.' + o, dot]
                      for o in ('png', 'svg') if trace[o]], 'drawings',
            lambda: canon([calls, given]))
  judge(ctx, w.fs.get(dot), info, tops, paths, fewer)
  ctx.sig = canon([len(places), len(paths), len(tops), sorted(spoil),
                   sorted(ctx.faults), asked != []])


def top(info, x):
  while info[x][5]:
    x = info[x][5]
  return x


def shows(label, first, text, full):
  """Does this label show the name in the first line and then the text, which
  may be cut short in the middle?"""
  lines = label.split(first + u'\n', 1) if label.startswith(first + u'\n') \
      else None
  if not text:
    return label == first
  if lines is None:
    return False
  rest = lines[1]
  if rest == text:
    return True
  if full or len(text) <= 20 or u'..' not in rest or len(rest) < 12:
    return False
  a, b = rest.rsplit(u'..', 1)
  return len(a) >= 8 and text.startswith(a) and text.endswith(b)


def judge(ctx, data, info, tops, paths, fewer):
  try:
    r = Reader(data)
    nodes = dict((plain(k), v) for k, v in r.nodes.items())
    groups = dict((plain(k), v) for k, v in r.groups.items())
  except (Bad, ValueError) as e:
    ctx.violate('no-picture', lambda: canon([str(e), data[:1500]]))
  kids = {}
  for p in info.values():
    kids.setdefault(p[5], []).append(p[0])
  expect = {}
  for x, p in info.items():
    if top(info, x) not in tops:
      continue
    around, y = [], p[5]
    while y:
      around.insert(0, u'cluster_' + y)
      y = info[y][5]
    expect[x] = (p[5] is None or (p[1] == 0 and bool(kids.get(x))), around)
  drawn = set(nodes) | set(k[8:] for k in groups if k.startswith(u'cluster_'))
  ctx.check(drawn == set(expect) and len(nodes) + len(groups) == len(drawn),
            'places', lambda: canon([sorted(drawn), sorted(expect)]))
  for x in sorted(expect):
    p = info[x]
    is_group, around = expect[x]
    ctx.check((u'cluster_' + x in groups) == is_group, 'drawn-as',
              lambda: canon([x]))
    got, a = groups[u'cluster_' + x] if is_group else nodes[x]
    ctx.check([plain(g) for g in got] == around, 'inside', lambda: canon(
        [x, got, around]))
    try:
      label = uni(text_of(a.get('label', '')))
    except Bad as e:
      ctx.violate('label-text', lambda: canon([x, a, str(e)]))
    code, sign = (u'', u'') if fewer else (p[3].strip(), p[4].strip())
    text, full = ((u'Platform ' + code, True) if code else
                  (sign, True) if sign else (p[2].strip(), p[5] is None))
    ctx.check(shows(label, p[0], text, full), 'label', lambda: canon(
        [label, p, text]))
    ctx.check(a.get('color') == COLORS[p[1]] and
              (is_group or a.get('shape') == SHAPES[p[1]]), 'looks',
              lambda: canon([x, p[1], a]))
    ctx.probe('group' if is_group else 'node')
    if p[1] == 4:
      ctx.probe('area')
  want = [p for p in paths if p[0] in expect and p[1] in expect]
  ctx.check(len(want) == len(r.edges), 'pathways', lambda: canon(
      [len(want), len(r.edges)]))
  left = list(want)
  for a, b, d in r.edges:
    try:
      label = uni(text_of(d.get('label', '')))
    except Bad as e:
      ctx.violate('label-text', lambda: canon([a, b, d, str(e)]))
    for p in left:
      if p[0] == plain(a) and p[1] == plain(b) and \
          d.get('dir') == ('both' if p[3] else 'forward') and \
          path_shows(label, MODES[p[2]], p[4].strip(), p[5].strip()):
        left.remove(p)
        break
    else:
      ctx.violate('pathway', lambda: canon([a, b, d, left]))
    ctx.probe('pathway')
  if len(want) < len(paths):
    ctx.probe('left_out')


def path_shows(label, first, a, b):
  if not a or not b:
    return shows(label, first, a or b, False)
  # both texts, each perhaps cut short
  if not label.startswith(first + u'\n'):
    return False
  rest = label[len(first) + 1:]
  for i in range(len(rest)):
    if rest[i] == u'\n' and shows(u'x\n' + rest[:i], u'x', a, False) and \
        shows(u'x\n' + rest[i + 1:], u'x', b, False):
      return True
  return False


def plain(s):
  """The name a quoted or plain word stands for (a pair of backslashes is
  one, consistently)."""
  out, i = '', 0
  while i < len(s):
    if s[i] == '\\' and s[i + 1:i + 2] in ('\\', '"'):
      i += 1
    out += s[i]
    i += 1
  return uni(out)
