# -*- coding: utf-8 -*-
"""Whatever loads can be saved, and the saved copy is stable: a damaged feed is
loaded, written out, read by another process and written again."""
import zipfile

import damage
import model
from core import canon, uni
from world import World, simdictify
import drive
from props import p04

SHRINK = ('feed', 'ops')
SHRINK_KEYS = ('feed',)


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=rng.chance(70))
  ops = []
  kinds = rng.weighted([('cells', 6), ('bytes', 3), ('all', 2)])
  for _ in range(rng.weighted([(1, 4), (2, 3), (4, 3), (8, 2)])):
    fam = rng.choice(['cells', 'bytes']) if kinds == 'all' else kinds
    op = rng.choice(damage.CELL_OPS if fam == 'cells' else
                    [o for o in damage.BYTE_OPS if o != 'longfield'])
    ops.append([op, rng.choice(sorted(feed)), rng.seed()])
  return {'feed': feed, 'ops': ops, 'dir': rng.chance(25),
          'validate': rng.chance(50), 'memory_db': rng.chance(85),
          'salt': rng.below(1000)}



FARES = {'fare_attributes': [u'fare_id', u'price', u'currency_type',
                             u'payment_method', u'transfers',
                             u'transfer_duration', u'agency_id'],
         'fare_rules': [u'fare_id', u'route_id', u'origin_id',
                        u'destination_id', u'contains_id']}


def meaning(feed):
  out = {}
  for name, t in feed.items():
    rows = []
    for r in t['rows']:
      d = {}
      for c, v in zip(t['cols'], r):
        try:
          v = model.norm_cell(name, c, v)
        except (ValueError, OverflowError):
          pass
        # what else is in the two fare tables was never kept
        if v != u'' and c in FARES.get(name, (c,)):
          d[c] = v
      if name in ('frequencies', 'stop_times') and not d.get(u'trip_id'):
        continue
      if d:
        rows.append(sorted(d.items()))
    if rows:
      out[name] = sorted(rows)
  return out


def read(w, path):
  z = zipfile.ZipFile(path, 'r')
  try:
    return dict((n, model.parse_csv(z.read(n))) for n in z.namelist())
  finally:
    z.close()


def run(trace, ctx):
  w = World(ctx)
  ctx.world = w
  with w:
    path = '/sim/in' if trace['dir'] else '/sim/in.zip'
    drive.put_files(w, p04.damaged(trace, ctx), path)
    held = []
    for k in range(3):
      s, rec = drive.load(w, path, memory_db=trace['memory_db'])
      simdictify(s, trace['salt'] + k)
      if trace['validate'] and k == 0:
        s.Validate(drive.reporter()[0])
      held.append(drive.dump(s))
      if k:
        # what is wrong with a file as a file does not come back
        odd = [[i['cls'], i['file'], i['text']] for i in rec.items
               if i['cls'] in ('CsvSyntax', 'FileFormat',
                               'UnknownFormat') and
               'any known column names' not in uni(i['text']) or
               'cells (commas)' in uni(i['text']) or
               'Unicode error' in uni(i['text'])]
        ctx.check(not odd, 'saved-file-malformed', lambda: canon(odd))
      path = '/sim/out%d.zip' % k
      s.WriteGoogleTransitFeed(path)
      names = zipfile.ZipFile(path).namelist()
      ctx.check(len(names) == len(set(names)), 'member-twice', canon(names))
      ctx.ev('saved', [k, sorted(names), len(rec.bad())])
      if k == 0:
        for n in rec.kinds():
          ctx.probe('reported_' + n)
      s = None
    if not all(any(r) for r in held[0].get('agency', {'rows': []})['rows']):
      # rows without a single value are no rows when they are read back, and
      # routes need an agency
      ctx.probe('agency_without_data')
      return
    for k in (1, 2):
      d = model.diff_meaning(meaning(held[k - 1]), meaning(held[k]))
      ctx.check(d is None, 'changed-by-save-%d' % k, lambda: canon(d))
    if any(held[0].values()):
      ctx.probe('saved_with_data')
