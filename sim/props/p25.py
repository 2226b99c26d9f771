# -*- coding: utf-8 -*-
"""The unusual trip filter: marks exactly the trips which run a rare sequence
of stops, whatever ran before, and changes nothing else."""
import model
from core import SimCrash, canon, uni, u8
from world import World, simdictify
import cli
import drive
import viewing
import unusual_trip_filter

SHRINK = ('steps', 'feed')
SHRINK_KEYS = ('feed',)
TYPES = {'Tram': u'0', 'Subway': u'1',
         'Rail': u'2', 'Bus': u'3', 'Ferry': u'4', 'Cable Car': u'5',
         'Gondola': u'6', 'Funicular': u'7'}


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True, stops=(2, 5), trips=(2, 14),
                        routes=(1, 3))
  feed.pop('transfers', None)
  if rng.chance(50):       # the same sequence many times
    t, st = feed['trips'], feed['stop_times']
    tid, i = model.col(t, 'trip_id'), model.col(st, 'trip_id')
    base = rng.choice(t['rows'])
    times = [r for r in st['rows'] if r[i] == base[tid]]
    for k in range(rng.between(1, 12)):
      row = list(base)
      row[tid] = u'copy%d' % k
      if u'block_id' in t['cols']:
        row[model.col(t, 'block_id')] = u''
      t['rows'].append(row)
      for r in times:
        r = list(r)
        r[i] = row[tid]
        for c in (u'arrival_time', u'departure_time'):
          j = model.col(st, c)
          if r[j]:
            r[j] = model.hms(model.secs_of(r[j]) + 60 * (k + 1))
        st['rows'].append(r)
  if rng.chance(15):       # trips nobody can ride
    t, st = feed['trips'], feed['stop_times']
    gone = [r[model.col(t, 'trip_id')] for r in t['rows'] if rng.chance(30)]
    i = model.col(st, 'trip_id')
    st['rows'] = [r for r in st['rows'] if r[i] not in gone]
    if 'frequencies' in feed:
      f = feed['frequencies']
      i = model.col(f, 'trip_id')
      f['rows'] = [r for r in f['rows'] if r[i] not in gone]
  for r in feed['routes']['rows']:
    if rng.chance(30):
      r[model.col(feed['routes'], 'route_type')] = rng.choice(
          [u'0', u'1', u'2', u'3'])
  if u'trip_headsign' in feed['trips']['cols'] and rng.chance(30):
    for r in feed['trips']['rows']:
      if rng.chance(50):
        r[model.col(feed['trips'], 'trip_headsign')] = u''
  steps = []
  for _ in range(rng.weighted([(1, 5), (2, 3), (3, 2)])):
    o = {}
    if rng.chance(70):
      o['threshold'] = rng.choice([0.1, 0.2, 0.25, 0.5, 1.0, 0, 1.5, 0.3333,
                                   -1, 1.0 / 3])
    if rng.chance(45):
      o['route_type'] = rng.choice(['0', '2', '3', '3', 'Bus', 'Rail', 'Tram',
                                    '3', 'bus', 'rocket', '2x', '11', ''])
    for k in ('force', 'quiet', 'memory_db', 'output'):
      if rng.chance(40):
        o[k] = True
    fault = None
    if rng.chance(20):
      op = rng.choice(['write', 'write', 'openw', 'close', 'read', 'open'])
      fault = {'op': op, 'nth': 1 + rng.below(4), 'path': '.zip',
               'kind': rng.choice(['EIO', 'ENOSPC', 'TORN', 'CRASH'])
               if op == 'write' else 'EIO', 'frac': rng.below(101)}
    steps.append([o, fault, rng.below(1000)])
  return {'feed': feed, 'steps': steps, 'buffer': rng.choice([0, 64, 8192]),
          'name': rng.choice(['/sim/feed.zip', '/sim/feed.zip',
                              '/sim/caf\xc3\xa9.zip'])}


def argv(o, path, out):
  a = ['unusual_trip_filter.py']
  if 'threshold' in o:
    a += ['-t', repr(o['threshold'])]
  if 'route_type' in o:
    a += ['-r', o['route_type']]
  for k, f in (('force', '-f'), ('quiet', '-q'), ('memory_db', '-m')):
    if o.get(k):
      a.append(f)
  if o.get('output'):
    a += ['-o', out]
  return [u8(x) for x in a + [path]]


def senseless(o):
  t = o.get('route_type')
  return t is not None and t not in TYPES and not t.isdigit()


def expected(ctx, feed, o):
  """The feed afterwards."""
  feed = model.copy_feed(feed)
  m = viewing.Model(feed)
  only = o.get('route_type')
  only = None if only is None else TYPES.get(only, uni(only))
  limit = float(o.get('threshold', 0.1))
  marks = {}
  for r in m.routes:
    if only is not None and r[u'route_type'] != only:
      continue
    pats = m.patterns(r[u'route_id'])
    total = sum(len(v) for v in pats.values())
    for trips in pats.values():
      rare = float(len(trips)) / total < limit
      if rare or o.get('force'):
        for t in trips:
          marks[t[u'trip_id']] = u'1' if rare else u'0'
      ctx.probe('rare' if rare else 'usual')
  t = feed['trips']
  if u'trip_type' not in t['cols'] and marks:
    t['cols'].append(u'trip_type')
    for r in t['rows']:
      r.append(u'')
  for r in t['rows']:
    v = marks.get(r[model.col(t, 'trip_id')])
    if v is not None:
      r[model.col(t, 'trip_type')] = v
  return feed


def run(trace, ctx):
  feed = trace['feed']
  m = viewing.Model(feed)
  if not m.stops or not m.routes or not m.trips:
    return
  w = World(ctx, start=drive.NOW, net_plan=[], buffer_size=trace['buffer'])
  ctx.world = w
  path, out = u8(trace['name']), '/sim/out.zip'
  real = unusual_trip_filter.UnusualTripFilter.filter.__func__
  salt = [0]

  def scrambled(self, dataset):
    simdictify(dataset, salt[0])
    return real(self, dataset)
  with w:
    drive.put_feed(w, feed, path)
    unusual_trip_filter.UnusualTripFilter.filter = scrambled
    try:
      for o, fault, salt[0] in trace['steps']:
        feed = step(ctx, w, feed, o, fault, path, out)
        ctx.steps += 1
    finally:
      unusual_trip_filter.UnusualTripFilter.filter = real
  ctx.sig = canon([[(sorted(o), f and f['op']) for o, f, _ in trace['steps']],
                   len(m.trips), len(m.routes), sorted(ctx.faults)])


def step(ctx, w, feed, o, fault, path, out):
  before = w.fs.snapshot()
  w.fs.faults = [dict(fault)] if fault else []
  done = sum(ctx.faults.values())
  crashed, r = False, None
  try:
    r = cli.run_main(w, unusual_trip_filter.main, argv(o, path, out))
    w.finalise()
  except SimCrash:
    crashed = True
  w.fs.faults = []
  w.fs.full = False
  w.fs.reboot()
  hit = sum(ctx.faults.values()) > done
  target = out if o.get('output') else path
  info = lambda: canon([o, fault, getattr(r, 'status', None),
                        getattr(r, 'out', '')[-3000:],
                        getattr(r, 'err', '')[-1000:]])
  after = w.fs.snapshot()
  changed = [n for n in set(before) | set(after)
             if before.get(n) != after.get(n) and n != target and
             not n.endswith('transitfeedcrash.txt')]
  ctx.check(not changed, 'other-files', lambda: canon([changed, o]))
  if senseless(o):
    ctx.probe('senseless')
    ctx.check(crashed or r.status != 0, 'nonsense-taken', info)
    if not hit:
      ctx.check(r.status == 2, 'nonsense-crashed', info)
    ctx.check(after.get(target) == before.get(target), 'nonsense-written',
              info)
    return feed
  want = expected(ctx, feed, o)
  ok = r is not None and r.status == 0
  if not hit:
    ctx.check(ok, 'refused', info)
  if ok:
    try:
      got = model.read_zip_feed(w.fs.get(target))
    except Exception as e:
      ctx.violate('unreadable', lambda: canon([repr(e), info()]))
    d = model.diff_meaning(model.meaning(want), model.meaning(got))
    ctx.check(d is None, 'differs' + (':force' if o.get('force') else ''),
              lambda: canon([d, o]))
    ctx.probe('marked')
    for k in o:
      ctx.probe(k)
    return feed if o.get('output') else want
  ctx.probe('failed')
  if not o.get('output') and w.fs.get(path) != before.get(path):
    ctx.probe('in_place_cut')
    w.fs.put(path, before[path])     # the owner restores it
  return feed
