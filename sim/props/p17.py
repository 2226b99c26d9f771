# -*- coding: utf-8 -*-
"""Merging recognises exactly what is the same in both feeds, and says so."""
import model
from core import canon, uni
from world import World
import drive
import merging
from props import p16
import merge

SHRINK = ('feeds',)
SHRINK_KEYS = ()
NAMES = {'agency': 'agency', 'stops': 'stop', 'routes': 'route',
         'fare_attributes': 'fare attribute', 'shapes': 'shape'}
MERGERS = {'agency': 'AgencyMerger', 'stops': 'StopMerger',
           'routes': 'RouteMerger', 'fare_attributes': 'FareMerger',
           'shapes': 'ShapeMerger'}


def gen(rng, tier, index):
  t = p16.gen(rng, tier, index)
  t['feeds'] = t['feeds'][:2]
  if rng.chance(40):
    merging.boundary(rng, t)
  return t


def run(trace, ctx):
  w = World(ctx)
  with w:
    ext = '.zip' if trace['store'] == 'zip' else ''
    a, b = trace['feeds'][0], trace['feeds'][1]
    drive.put_feed(w, a, '/sim/a' + ext)
    drive.put_feed(w, b, '/sim/b' + ext)
    m = p16.Merge(w, a, b, trace, ctx)
    sa, ea = p16.load(w, '/sim/a' + ext, trace, ctx)
    sb, eb = p16.load(w, '/sim/b' + ext, trace, ctx)
    if ea or eb:
      ctx.probe('input_errors')
      return
    m.setup(sa, sb)
    ok = m.fm.MergeSchedules()
    ctx.steps += 1
    if not ok:
      ctx.probe('refused')
      return
    m.maps()
    judge(m, ctx, trace)


def judge(m, ctx, trace):
  a, b = m.a, m.b
  want = merging.matching(a, b, m.limits())
  reports = {}
  for i in m.rec.items:
    reports.setdefault(i['cls'], []).append(i)
  told = set()
  for e in m.rec.raw:
    if e.__class__.__name__ == 'SameIdButNotMerged':
      told.add((e.entity_type_name, drive.clean(e.id)))
  taken = dict((kind, set()) for kind in merging.ORDER)
  shape = []
  for kind in merging.ORDER:
    ea, eb = merging.entities(a, kind), merging.entities(b, kind)
    ia, ib = m.ids[0][kind], m.ids[1][kind]
    n = {'merged': 0, 'a': 0, 'b': 0}
    unsure = False
    for i in ea:
      both = i in eb
      one = both and ia[i] == ib[i]
      should = want[kind].get(i, False)
      if both:
        ctx.probe('same_id:%s:%s' % (kind, {True: 'yes', False: 'no',
                                            None: 'unsure'}[should]))
        if should is None:
          unsure = True
          should = one
        ctx.check(one == should, 'matching:%s-%s' % (
            kind, 'missed' if should else 'wrong'),
            lambda: canon([kind, ea[i], eb[i], m.limits()]))
        if kind in NAMES:
          key = (NAMES[kind], i)
          ctx.check((key in told) == (not one), 'same-id-report:' + kind,
                    lambda: canon([key, one, sorted(told)]))
          told.discard(key)
        elif one:
          ctx.violate('matching:%s-wrong' % kind, canon(i))
      n['merged' if one else 'a'] += 1
      # an id stays unless both feeds have it
      if one or not both:
        ctx.check(ia[i] == i or (kind == 'agency' and not i and not one),
                  'id-changed:' + kind, lambda: canon([i, ia[i]]))
      else:
        ctx.check(ia[i] != i, 'id-kept:' + kind, lambda: canon([i, ia[i]]))
        ctx.check(ib[i] != i, 'id-kept:' + kind, lambda: canon([i, ib[i]]))
        ctx.probe('renamed')
        for new in (ia[i], ib[i]):
          ctx.check(new not in ea and new not in eb, 'id-taken:' + kind,
                    lambda: canon([i, new]))
    for i in eb:
      if i not in ea:
        ctx.check(ib[i] == i or (kind == 'agency' and not i),
                  'id-changed:' + kind, lambda: canon([i, ib[i]]))
      if not (i in ea and ia[i] == ib[i]):
        n['b'] += 1
    # different entities only share an id if they are the same one
    for i in ea:
      for j in eb:
        if ia[i] == ib[j] and i != j:
          ctx.violate('joined:' + kind, canon([i, j, ia[i]]))
    stats = m.fm.GetMerger(getattr(merge, MERGERS[kind])).GetMergeStats() \
        if kind in MERGERS else None
    if kind in MERGERS:
      ctx.check(tuple(stats) == (n['merged'], n['a'], n['b']),
                'stats:' + kind, lambda: canon([list(stats), n]))
    shape.append([n['merged'], n['a'], n['b']])
  ctx.check(not told, 'same-id-report:extra', lambda: canon(sorted(told)))
  # the other messages
  n = len(reports.pop('MergeNotImplemented', []))
  ctx.check(n == 2, 'not-implemented', lambda: canon(n))
  rules = len(model.dicts(a, 'fare_rules')) + len(model.dicts(b, 'fare_rules'))
  n = len(reports.pop('FareRulesBroken', []))
  ctx.check(n == (1 if rules else 0), 'fare-rules-notice', lambda: canon(n))
  reports.pop('SameIdButNotMerged', None)
  ctx.check(not reports, 'report:' + ','.join(sorted(reports)),
            lambda: canon(sorted(reports)))
  # the trips say what they were called
  for which, f in ((0, a), (1, b)):
    for i in merging.entities(f, 'trips'):
      new = m.ids[which]['trips'][i]
      t = m.sm.GetTrip(new)
      orig = drive.clean(getattr(t, 'original_trip_id', None))
      old = merging.entities(f, 'trips')[i].get(u'original_trip_id', u'')
      ctx.check(orig == (i if new != i else old), 'original-trip-id',
                lambda: canon([which, i, new, orig]))
  ctx.ev(canon([m.ids, shape]))
  ctx.sig = canon([shape, sorted(set((k, r) for k in want
                                     for r in want[k].values()))])
