# -*- coding: utf-8 -*-
"""Saving under storage and database faults, crashes and full disks."""
import zipfile

import model
from core import SimCrash, Rng, canon
from world import World, simdictify
import drive
import build

SHRINK = ('feed', 'fs_faults', 'db_faults')
SHRINK_KEYS = ('feed',)
OUT = '/sim/feed.zip'


def gen(rng, tier, index):
  feed = model.gen_feed(rng, calm=True, trips=(2, 5))
  start = rng.choice(['load', 'api'])
  if start == 'api':
    feed = build.renumber(feed)
  faults = []
  db = []
  n = rng.weighted([(0, 1), (1, 8), (2, 2)])
  for _ in range(n):
    what = rng.weighted([('write', 8), ('openw', 1), ('close', 1),
                         ('db', 2), ('flush', 1), ('value', 2)])
    if what == 'db':
      db.append({'pos': rng.below(1000),
                 'kind': rng.choice(['locked', 'ioerr', 'full'])})
    elif what == 'value':
      faults.append({'op': 'value', 'seed': rng.seed()})
    elif what == 'write':
      faults.append({'op': 'write', 'path': OUT, 'pos': rng.below(1000),
                     'kind': rng.choice(['EIO', 'ENOSPC', 'TORN', 'CRASH',
                                         'CRASH']),
                     'sticky': rng.chance(25),
                     'frac': rng.choice([0, 1, 25, 50, 75, 90, 99, 100])})
    else:
      faults.append({'op': what, 'path': OUT, 'nth': 1,
                     'kind': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'CRASH'])
                     if what == 'openw' else rng.choice(['EIO', 'ENOSPC',
                                                         'CRASH'])})
  return {'feed': feed, 'start': start, 'old': rng.chance(60),
          'old_seed': rng.seed(), 'fs_faults': faults, 'db_faults': db,
          'target': rng.weighted([('path', 5), ('stream', 2)]),
          'salt': rng.below(1000), 'memory_db': rng.chance(80),
          'buffer': rng.choice([0, 0, 512, 8192]), 'via': rng.below(2)}


class Poison(object):
  """A value whose conversion to text fails."""

  def __unicode__(self):
    raise ValueError('poisoned value')
  __str__ = __unicode__


def run(trace, ctx):
  m = trace['feed']
  w = World(ctx, buffer_size=trace['buffer'])
  ctx.world = w
  with w:
    if trace['start'] == 'api':
      s, rec = build.api_build(m, trace['via'], trace['memory_db'])
    else:
      drive.put_feed(w, m, '/sim/in.zip')
      s, rec = drive.load(w, '/sim/in.zip', memory_db=trace['memory_db'])
    before = drive.loaded_meaning(s)
    want = model.meaning(m)
    d = model.diff_meaning(want, before)
    ctx.check(d is None, 'schedule-differs-from-source', lambda: canon(d))
    old_bytes = None
    if trace['old']:
      old = model.gen_feed(Rng(trace['old_seed']), calm=True)
      w.fs.put(OUT, model.zip_bytes(sorted(model.feed_files(old).items())))
      old_bytes = w.fs.get(OUT)
    simdictify(s, trace['salt'])
    # how many writes and statements one save takes, to aim inside it
    w.fs.writes = 0
    n0 = w.db.statements
    s.WriteGoogleTransitFeed('/sim/dry.zip')
    nwrites = max(1, w.fs.writes)
    nsql = max(1, w.db.statements - n0)
    # arm the faults
    poison = []
    for f in trace['fs_faults']:
      if f['op'] == 'value':
        r = Rng(f['seed'])
        pool = (s.GetStopList() + s.GetRouteList() + s.GetTripList() +
                s.GetAgencyList())
        victim = r.choice(pool)
        victim.x_poison = Poison()
        poison.append(victim)
        cls = {'Stop': 'stops', 'Route': 'routes', 'Trip': 'trips',
               'Agency': 'agency'}[victim.__class__.__name__]
        s.AddTableColumn(cls, 'x_poison')
        ctx.fault('unprintable_value')
      else:
        f = dict(f)
        if 'pos' in f:
          f['nth'] = 1 + f['pos'] * nwrites // 1000
        w.fs.faults.append(f)
    w.db.faults = [dict(f, nth=1 + f['pos'] * nsql // 1000)
                   for f in trace['db_faults']]
    outcome = 'ok'
    try:
      if trace['target'] == 'path':
        s.WriteGoogleTransitFeed(OUT)
      else:
        f = open(OUT, 'wb')
        try:
          s.WriteGoogleTransitFeed(f)
        finally:
          f.close()
    except SimCrash:
      outcome = 'crash'
    except Exception as e:
      outcome = 'error'
      ctx.ev('error', type(e).__name__)
    ctx.probe('save_' + outcome)
    if outcome != 'crash':
      w.finalise()
    w.fs.faults = []
    w.fs.full = False
    w.db.faults = []
    w.fs.reboot()
    ctx.ev('outcome', outcome)
    data = w.fs.get(OUT) if w.fs.isfile(OUT) else None
    if outcome == 'ok':
      ctx.check(not poison, 'unprintable-value-saved')
      ctx.check(data is not None, 'save-succeeded-without-file')
      try:
        back = model.read_zip_feed(data)
      except Exception as e:
        ctx.violate('save-succeeded-unreadable-file', repr(e))
      d = model.diff_meaning(want, model.meaning(back))
      ctx.check(d is None, 'save-succeeded-incomplete-file', lambda: canon(d))
    else:
      ctx.check(trace['fs_faults'] or trace['db_faults'], 'save-failed-alone',
                outcome)
    # what a fresh process gets from whatever is at the path now
    if data is not None and data != old_bytes:
      s2, rec2 = drive.load(w, OUT)
      if rec2.errors():
        ctx.probe('leftover_rejected')
        ctx.check(outcome != 'ok', 'good-save-rejected',
                  lambda: canon(rec2.errors()[:2]))
      else:
        got = drive.loaded_meaning(s2)
        d = model.diff_meaning(want, got)
        ctx.check(d is None, 'leftover-loads-as-different-feed',
                  lambda: '%s after %s' % (canon(d), outcome))
        ctx.probe('leftover_complete')
    elif data is not None:
      ctx.probe('old_feed_intact')
    # the failure of the save has not touched the schedule; once the faults
    # stop saving works again
    if outcome != 'crash':
      for victim in poison:
        victim.x_poison = u''
      d = model.diff_meaning(before, drive.loaded_meaning(s))
      ctx.check(d is None, 'failed-save-changed-the-schedule',
                lambda: canon(d))
      s.WriteGoogleTransitFeed('/sim/again.zip')
      back = model.read_zip_feed(w.fs.get('/sim/again.zip'))
      d = model.diff_meaning(want, model.meaning(back))
      ctx.check(d is None, 'save-after-faults-differs', lambda: canon(d))
      ctx.probe('recovered')
  ctx.steps += 1
  ctx.sig = canon([ctx.digest(), sorted(want), len(data or ''),
                   trace['fs_faults'], trace['db_faults']])
