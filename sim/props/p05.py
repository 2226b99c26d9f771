# -*- coding: utf-8 -*-
"""Storage faults while a feed is loaded: never a silent partial load."""
import struct
import zipfile
import zlib

import model
from core import Rng, canon
from world import World
import drive
from drive import transitfeed
from com.ziclix.python.sql import zxJDBC

SHRINK = ('feed', 'faults', 'db')
SHRINK_KEYS = ('feed',)
FAILURES = (IOError, OSError, EOFError, zipfile.BadZipfile, zlib.error,
            struct.error, zxJDBC.Error)


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True, trips=(2, 5), extra_cols=False)
  store = rng.choice(['zip', 'zip', 'dir', 'stream', 'zipobj'])
  faults, db = [], []
  for _ in range(rng.weighted([(0, 1), (1, 8), (2, 3)])):
    what = rng.weighted([('read', 8), ('open', 2), ('db', 2), ('listdir', 1)])
    if what == 'db':
      db.append({'pos': rng.below(1000),
                 'kind': rng.choice(['locked', 'ioerr', 'full'])})
    elif what == 'read':
      kinds = ['EIO'] if store == 'dir' else ['EIO', 'SHORT', 'FLIP', 'FLIP']
      faults.append({'op': 'read', 'pos': rng.below(1000),
                     'kind': rng.choice(kinds), 'sticky': rng.chance(20),
                     'frac': rng.choice([0, 10, 50, 90, 99]),
                     'at': rng.below(4000), 'bit': rng.below(8)})
    elif what == 'open':
      faults.append({'op': 'open', 'nth': rng.between(1, 8),
                     'kind': rng.choice(['EIO', 'EACCES', 'EMFILE',
                                         'ENOENT'])})
    elif store == 'dir':
      faults.append({'op': 'listdir', 'nth': rng.between(1, 2), 'kind': 'EIO'})
  return {'feed': feed, 'store': store, 'faults': faults, 'db': db,
          'method': rng.choice([0, 8]), 'memory_db': rng.chance(75),
          'validate': rng.chance(60), 'buffer': 0}


class Source(object):
  def __init__(self, w, trace):
    self.store = trace['store']
    self.path = '/sim/in' if self.store == 'dir' else '/sim/in.zip'
    drive.put_files(w, model.feed_files(trace['feed']), self.path,
                    method=trace['method'])

  def load(self, w, trace, rec):
    pr = transitfeed.ProblemReporter(rec)
    kw = {'memory_db': trace['memory_db']}
    path = self.path
    if self.store == 'stream':
      path = open(path, 'rb')
    elif self.store == 'zipobj':
      kw['zip'] = zipfile.ZipFile(path, 'r')
      path = None
    s = transitfeed.Loader(path, problems=pr, **kw).Load()
    if trace['validate']:
      s.Validate(pr)
    return s


def cut_off(row, rows):
  """Is row the beginning of one of rows (last line of a text cut short)?"""
  d = dict(row)
  for r in rows:
    m = dict(r)
    if len([k for k in d if k not in m or
            not (m[k] == d[k] or m[k].startswith(d[k]))]) == 0 and \
       len([k for k in d if m[k] != d[k]]) <= 1:
      return True
  return False


def subset(want, got, short):
  """First row that is loaded and is not in the feed."""
  for name in sorted(got):
    left = list(want.get(name, []))
    cut = 0
    for row in got[name]:
      if row in left:
        left.remove(row)
      elif name == 'shapes':
        # ranks shift when points are lost
        continue
      elif short and cut == 0 and cut_off(row, left):
        cut = 1
      else:
        return (name, 'invented', row)
  return None


def run(trace, ctx):
  want = model.meaning(trace['feed'])
  w = World(ctx)
  ctx.world = w
  with w:
    src = Source(w, trace)
    # a run without faults tells how many reads and statements there are
    w.fs.faults = [{'op': 'read', 'nth': 1 << 30}]
    n0 = w.db.statements
    rec = drive.Recorder()
    s = src.load(w, trace, rec)
    ctx.check(not rec.bad(), 'clean-load-reports', lambda: canon(rec.items[:2]))
    d = model.diff_meaning(want, drive.loaded_meaning(s))
    ctx.check(d is None, 'clean-load-differs', lambda: canon(d))
    reads = max(1, w.fs.faults[0].get('seen', 0))
    nsql = max(1, w.db.statements - n0)
    w.finalise()
    fired = dict(ctx.faults)
    w.fs.faults = []
    for f in trace['faults']:
      f = dict(f)
      if 'pos' in f:
        f['nth'] = 1 + f['pos'] * reads // 1000
      w.fs.faults.append(f)
    w.db.faults = [dict(f, nth=1 + f['pos'] * nsql // 1000)
                   for f in trace['db']]
    rec = drive.Recorder()
    outcome = 'loaded'
    s = None
    try:
      s = src.load(w, trace, rec)
    except FAILURES as e:
      outcome = 'raised'
      ctx.ev('raised', type(e).__name__)
    w.finalise()
    injected = dict((k, v) for k, v in ctx.faults.items()
                    if v != fired.get(k, 0))
    w.fs.faults = []
    w.db.faults = []
    ctx.check(injected or outcome == 'loaded', 'failed-without-fault', outcome)
    if outcome == 'loaded':
      ctx.check(s is not None, 'no-schedule')
      got = drive.loaded_meaning(s)
      d = model.diff_meaning(want, got)
      if rec.bad():
        ctx.check(injected, 'reports-without-fault',
                  lambda: canon(rec.items[:2]))
        ctx.probe('reported')
        x = subset(want, got, 'read_SHORT' in injected)
        ctx.check(x is None, 'partial-load-invents-data', lambda: canon(x))
      else:
        ctx.check(d is None, 'silent-partial-load',
                  lambda: canon([d, sorted(injected)]))
        ctx.probe('complete')
    else:
      ctx.probe('raised')
    ctx.ev(outcome, sorted(injected), drive.pset(rec.items))
    # the faults are over: the next load is complete
    w.fs.reboot()
    rec = drive.Recorder()
    s = src.load(w, trace, rec)
    d = model.diff_meaning(want, drive.loaded_meaning(s))
    ctx.check(d is None and not rec.bad(), 'load-after-faults-differs',
              lambda: canon([d, rec.items[:2]]))
    ctx.probe('recovered')
  ctx.steps += 1
  ctx.sig = canon([ctx.digest(), sorted(want)])
