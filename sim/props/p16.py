# -*- coding: utf-8 -*-
"""Merging two feeds conserves everything in them."""
import model
from core import canon, uni
from world import World, simdictify
import drive
import merging
from drive import transitfeed
import merge

SHRINK = ('feeds',)
SHRINK_KEYS = ()
CLASSES = [('agency', 'Agency'), ('stops', 'Stop'), ('routes', 'Route'),
           ('services', 'ServicePeriod'), ('fare_attributes', 'FareAttribute'),
           ('shapes', 'Shape'), ('trips', 'Trip')]


def gen(rng, tier, index):
  return {'feeds': merging.gen_feeds(rng), 'salt': rng.below(1 << 30),
          'stop_limit': rng.choice([10.0, 10.0, 0.5, 100.0]),
          'shape_limit': rng.choice([10.0, 10.0, 0.5, 100.0]),
          'memory_db': rng.chance(70), 'store': rng.choice(['zip', 'dir'])}


class Merge(object):
  """One merge of two loaded feeds through the library."""

  def __init__(self, w, a, b, trace, ctx):
    self.w, self.a, self.b, self.trace, self.ctx = w, a, b, trace, ctx
    self.rec = drive.Recorder()
    self.merged_rec = drive.Recorder()

  def setup(self, sa, sb):
    self.sa, self.sb = sa, sb
    self.before = (drive.loaded_meaning(sa), drive.loaded_meaning(sb))
    self.sm = transitfeed.Schedule(
        transitfeed.ProblemReporter(self.merged_rec),
        memory_db=self.trace['memory_db'])
    simdictify(self.sm, self.trace['salt'] + 1)
    self.fm = merge.FeedMerger(sa, sb, self.sm,
                               merge.MergeProblemReporter(self.rec))
    self.fm.AddDefaultMergers()
    self.fm.GetMerger(merge.StopMerger).SetLargestStopDistance(
        self.trace['stop_limit'])
    self.fm.GetMerger(merge.ShapeMerger).SetLargestShapeDistance(
        self.trace['shape_limit'])

  def maps(self):
    """Old id -> merged id of every entity, from the merger's maps."""
    self.ids = []
    for which, m in ((0, self.fm.a_merge_map), (1, self.fm.b_merge_map)):
      out = {}
      for kind, cls in CLASSES:
        cls = getattr(transitfeed, cls)
        attr = str(merging.KEY[kind])
        d = {}
        for old, new in m.items():
          if isinstance(old, cls):
            d[drive.clean(getattr(old, attr))] = drive.clean(
                getattr(new, attr))
        out[kind] = d
      self.ids.append(out)
    self.zones = [dict((drive.clean(k), drive.clean(v)) for k, v in z.items())
                  for z in (self.fm.a_zone_map, self.fm.b_zone_map)]

  def limits(self):
    return (self.trace['stop_limit'], self.trace['shape_limit'])


def load(w, path, trace, ctx):
  rec = drive.Recorder()
  s, rec = drive.load(w, path, rec=rec, memory_db=trace['memory_db'])
  simdictify(s, trace['salt'])
  return s, [i for i in rec.items if i['type'] == 0]


def run(trace, ctx):
  w = World(ctx)
  with w:
    for i, f in enumerate(trace['feeds']):
      drive.put_feed(w, f, '/sim/in%d%s' % (
          i, '.zip' if trace['store'] == 'zip' else ''))
    a = trace['feeds'][0]
    path = '/sim/in0' + ('.zip' if trace['store'] == 'zip' else '')
    for i in range(1, len(trace['feeds'])):
      b = trace['feeds'][i]
      m = Merge(w, a, b, trace, ctx)
      sa, ea = load(w, path, trace, ctx)
      sb, eb = load(w, '/sim/in%d' % i +
                    ('.zip' if trace['store'] == 'zip' else ''), trace, ctx)
      if ea or eb:
        ctx.probe('input_errors')
        return
      m.setup(sa, sb)
      ok = m.fm.MergeSchedules()
      ctx.steps += 1
      if not ok:
        ctx.probe('refused')
        return
      ctx.probe('merged')
      m.maps()
      out = '/sim/out%d.zip' % i
      m.sm.WriteGoogleTransitFeed(out)
      got = model.read_zip_feed(w.fs.get(out))
      judge(m, got, ctx, i)
      ctx.check((drive.loaded_meaning(sa), drive.loaded_meaning(sb)) ==
                m.before, 'inputs-changed',
                lambda: canon([model.diff_meaning(x, y) for x, y in zip(
                    m.before, (drive.loaded_meaning(sa),
                               drive.loaded_meaning(sb)))]))
      s2, errors = load(w, out, trace, ctx)
      for e in errors:
        ctx.violate('merged-feed-invalid:%s' % e['cls'], canon(drive.pkey(e)))
      d = model.diff_meaning(m.final, merging.comparable(drive.dump(s2)))
      ctx.check(d is None, 'reload:%s-%s' % (d or ('', '', ''))[:2], canon(d))
      a, path = got, out
      a = dict(a)


def judge(m, got, ctx, i):
  a, b = m.a, m.b
  for which, f in ((0, a), (1, b)):
    for kind, _ in CLASSES:
      have = merging.entities(f, kind)
      for e in have:
        ctx.check(e in m.ids[which][kind], 'lost:' + kind,
                  lambda: canon([kind, which, e]))
    for kind, _ in CLASSES:
      news = [m.ids[which][kind][e] for e in merging.entities(f, kind)]
      ctx.check(len(set(news)) == len(news), 'conflated:' + kind,
                lambda: canon([kind, m.ids[which][kind]]))
    zs = set(d.get(u'zone_id', u'') for d in model.dicts(f, 'stops'))
    zs.discard(u'')
    for z in zs:
      ctx.check(m.zones[which].get(z), 'zone-lost', lambda: canon([z, which]))
    ctx.check(len(set(m.zones[which][z] for z in zs)) == len(zs),
              'zones-conflated', lambda: canon([m.zones, which]))
  # a zone of both feeds is one zone only if a stop of it is in both
  shared = set()
  stops = merging.entities(b, 'stops')
  back = dict((v, k) for k, v in m.ids[0]['stops'].items())
  for j, d in stops.items():
    k = back.get(m.ids[1]['stops'][j])
    if k is not None:
      shared.add(m.zones[1].get(d.get(u'zone_id', u'')))
      ctx.probe('merged_stops')
  za = set(m.zones[0].get(d.get(u'zone_id', u'')) for d in
           model.dicts(a, 'stops') if d.get(u'zone_id'))
  zb = set(m.zones[1].get(d.get(u'zone_id', u'')) for d in
           model.dicts(b, 'stops') if d.get(u'zone_id'))
  ctx.check(not ((za & zb) - shared), 'zones-joined',
            lambda: canon([sorted(za & zb), sorted(shared)]))
  want = merging.comparable(merging.expected(a, b, m.ids, m.zones))
  m.final = merging.comparable(got)
  d = model.diff_meaning(want, m.final)
  ctx.check(d is None, 'merged:%s-%s' % (d or ('', '', ''))[:2],
            lambda: canon([d, 'related', related(m.final, d)]))
  ctx.ev(canon([i, m.ids]))
  ctx.sig = canon([len(m.ids[0][k]) for k, _ in CLASSES] +
                  [len(m.ids[1][k]) for k, _ in CLASSES])
  for n in ('transfers', 'fare_rules', 'frequencies', 'shapes'):
    if want.get(n):
      ctx.probe('has_' + n)
  if i > 1:
    ctx.probe('second_merge')


def related(final, d):
  """rows of the merged feed sharing the first id of the differing row"""
  if not d or not isinstance(d[2], list):
    return []
  row = dict(d[2])
  return [r for r in final.get(d[0], [])
          if len([k for k in row if dict(r).get(k) == row[k]]) * 2 >
          len(row)][:3]
