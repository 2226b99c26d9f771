# -*- coding: utf-8 -*-
"""The schedule viewer's answers: every page and every query says what the
feed says, whatever the delivery of the requests looked like."""
import model
from core import canon
from world import World
import http
import viewing

SHRINK = ('queries', 'feed')
SHRINK_KEYS = ('feed',)


def gen(rng, tier, index):
  feed = viewing.gen_viewer_feed(rng)
  return {'feed': feed,
          'queries': [[q, rng.weighted([(0, 4), (1, 1), (7, 2), (50, 1)]),
                       rng.weighted([(None, 6), ('idle', 1), ('eintr', 1),
                                     ('gone', 1), ('aborted', 1)])]
                      for q in viewing.gen_queries(rng, feed,
                                                   rng.between(4, 16))],
          'salt': rng.below(1000), 'as_dir': rng.chance(40),
          'hash': rng.seed()}


def run(trace, ctx):
  feed = trace['feed']
  m = viewing.Model(feed)
  if not m.stops or not m.routes or not m.trips or not m.times:
    return
  w = World(ctx, net_plan=[{'body': 'version=1.0.0'}])
  ctx.world = w
  with w:
    viewing.install_files(w)
    path = '/sim/feed' if trace['as_dir'] else '/sim/feed.zip'
    import drive
    drive.put_feed(w, feed, path)
    script = []
    for q, chunks, before in trace['queries']:
      if before:
        script.append({before: 1})
      script.append({'req': viewing.request(viewing.target(m, q)),
                     'chunks': chunks})
    p = viewing.serve(ctx, w, script, path, salt=trace['salt'])
    ctx.check(p.run.status == 130, 'server-ended',
              lambda: canon([p.run.status, repr(p.run.exc),
                             p.run.out[-1500:], p.run.err[-1500:]]))
    ctx.check(len(p.conns) == len(trace['queries']), 'not-served',
              lambda: canon([len(p.conns)]))
    for (q, _, _), c in zip(trace['queries'], p.conns):
      ctx.steps += 1
      a = http.Answer(c.answer())
      ctx.ev(canon([q, a.status, len(a.body)]))
      ctx.check(c.closed, 'left-open:' + q[0])
      if not a.complete:
        ctx.violate('no-answer:' + q[0],
                    lambda: canon([q, c.answer()[-500:], p.run.err[-2500:]]))
      viewing.check_answer(ctx, m, q, a, w)
    ctx.check(p.before == p.after, 'schedule-changed',
              lambda: canon(model.diff_meaning(p.before, p.after)))
    ctx.check(not w.fs.outside_writes, 'wrote-outside',
              lambda: canon(w.fs.outside_writes))
  ctx.sig = canon([[q[0][0] for q in trace['queries']], len(m.trips),
                   sorted(ctx.faults)])
