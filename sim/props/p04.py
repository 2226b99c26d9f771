# -*- coding: utf-8 -*-
"""Damaged feeds: loading and validating always ends with a report."""
import datetime

import damage
import model
from core import Rng, canon, uni
from world import World, simdictify
import drive
from drive import transitfeed

SHRINK = ('feed', 'ops')
SHRINK_KEYS = ('feed',)
WANT = 'agency feed_info stops routes calendar calendar_dates trips ' \
       'stop_times shapes frequencies fare_attributes fare_rules transfers'.split()


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True)
  ops = []
  kinds = rng.weighted([('cells', 6), ('bytes', 5), ('zip', 3), ('all', 3)])
  if rng.chance(3):
    ops = [['longfield', rng.choice(sorted(feed)), rng.seed()]]
    kinds = None
  for _ in range(rng.weighted([(1, 5), (2, 3), (4, 2), (8, 1)])
                 if kinds else 0):
    fam = kinds
    if kinds == 'all':
      fam = rng.choice(['cells', 'bytes', 'zip'])
    if fam == 'zip':
      ops.append([rng.choice(damage.ZIP_OPS), '', rng.seed()])
    else:
      op = rng.choice(damage.CELL_OPS if fam == 'cells' else damage.BYTE_OPS)
      ops.append([op, rng.choice(sorted(feed)), rng.seed()])
  return {'feed': feed, 'ops': ops, 'dir': rng.chance(25),
          'method': rng.choice([0, 8]), 'extra': rng.chance(80),
          'memory_db': rng.chance(85), 'salt': rng.below(1000),
          'via': rng.weighted([('path', 6), ('stream', 1)]),
          'dup_member': rng.chance(4), 'is_dir': rng.chance(3),
          'now': int(drive.NOW) + rng.below(500) * 86400}


def damaged(trace, ctx):
  files = model.feed_files(trace['feed'])
  names = sorted(files)
  for op, table, seed in trace['ops']:
    if op in damage.ZIP_OPS:
      continue
    name = table + '.txt'
    if name not in files:
      continue
    files[name] = damage.apply_text(op, files[name], Rng(seed),
                                    [files[n] for n in names])
    ctx.fault('data_' + op)
  return files


def run(trace, ctx):
  w = World(ctx, start=trace['now'])
  ctx.world = w
  files = damaged(trace, ctx)
  zip_ops = [o for o in trace['ops'] if o[0] in damage.ZIP_OPS]
  with w:
    if trace['dir'] and not zip_ops:
      path = '/sim/in'
      drive.put_files(w, files, path)
      if trace['is_dir']:
        victim = sorted(files)[trace['salt'] % len(files)]
        w.fs.remove(path + '/' + victim)
        w.fs.mkdir(path + '/' + victim)
        ctx.fault('member_is_directory')
    else:
      path = '/sim/in.zip'
      members = sorted(files.items())
      if trace['dup_member']:
        members.append(members[trace['salt'] % len(members)])
        ctx.fault('duplicate_member')
      data = model.zip_bytes(members, trace['method'])
      for op, _, seed in zip_ops:
        data = damage.apply_zip(op, data, Rng(seed))
        ctx.fault('archive_' + op)
      w.fs.put(path, data)
    w.fs.touched.clear()
    rec = drive.Recorder()
    pr = transitfeed.ProblemReporter(rec)
    src = path
    if trace['via'] == 'stream' and path.endswith('.zip') and not zip_ops:
      src = open(path, 'rb')
    loader = transitfeed.Loader(src, problems=pr,
                                extra_validation=False,
                                memory_db=trace['memory_db'])
    s = loader.Load()
    ctx.check(s is not None, 'no-schedule')
    simdictify(s, trace['salt'])
    if trace['extra']:
      s.Validate(pr)
    # every report can be shown
    for e in rec.raw:
      t = e.FormatProblem()
      c = e.FormatContext()
      ctx.check(isinstance(t, basestring), 'unprintable-report',
                e.__class__.__name__)
      ctx.check(isinstance(c, basestring), 'unprintable-report',
                e.__class__.__name__)
    # the disk is not written to
    ctx.check(not w.fs.touched and not w.fs.outside_writes,
              'loading-writes-files',
              lambda: canon([sorted(w.fs.touched), w.fs.outside_writes]))
    ctx.ev('problems', [[i['cls'], i['file'], i['row']]
                        for i in sorted(rec.items, key=drive.pkey)])
    for k in rec.kinds():
      ctx.probe('reported_' + k)
    # other data survives: tables that no other table depends on
    kinds = set(o[0] for o in trace['ops'])
    hit = set(o[1] for o in trace['ops'])
    if not zip_ops and not trace['is_dir'] and not trace['dup_member'] and \
        'agency' not in hit and 'stops' not in hit:
      got = model.meaning(drive.dump_stops(s))
      want = model.meaning(dict((k, v) for k, v in trace['feed'].items()
                                if k in ('agency', 'stops')))
      d = model.diff_meaning(want, got)
      ctx.check(d is None, 'undamaged-data-lost', lambda: canon(d))
      ctx.probe('survivors_checked')
    # a table whose first bytes are rubbish, or which has no bytes but a byte
    # order mark, is named
    if len(trace['ops']) == 1 and not trace['is_dir'] and \
        not trace['dup_member'] and \
        trace['ops'][0][0] in ('bombyte', 'onlybom', 'empty'):
      name = trace['ops'][0][1] + '.txt'
      ctx.check([i for i in rec.items
                 if i['file'] == name or uni(name) in uni(i['text'])],
                'damage-not-reported', lambda: canon([trace['ops'][0][0], name]))
      ctx.probe('damage_named')
    # rows of a file the parser gave up on are never lost in silence
    if len(trace['ops']) == 1 and trace['ops'][0][0] == 'longfield' and \
        not trace['is_dir'] and not trace['dup_member']:
      table = trace['ops'][0][1]
      told = [i for i in rec.items if i['file'] == table + '.txt']
      if not told and table in ('agency', 'stops', 'routes', 'trips',
                                'stop_times', 'shapes', 'transfers',
                                'fare_attributes'):
        got = drive.dump(s).get(table, {'rows': []})['rows']
        want = trace['feed'][table]['rows']
        ctx.check(len(got) >= len(want), 'rows-lost-silently',
                  lambda: canon([table, len(got), len(want)]))
      ctx.probe('giant_cell')
