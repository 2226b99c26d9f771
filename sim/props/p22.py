# -*- coding: utf-8 -*-
"""The location editor over histories of moves, refused moves, questions,
saves and restarts: the server and every saved feed hold exactly the moves
that were made."""
import model
from core import canon, u8
from world import World
import drive
import http
import viewing

SHRINK = ('lives', 'feed')
SHRINK_KEYS = ('feed',)


def gen_move(rng, feed):
  rows = model.dicts(feed, 'stops')
  s = rng.choice(rows)
  la = float(s[u'stop_lat']) + rng.between(-9000, 9000) / 1e6
  lo = float(s[u'stop_lon']) + rng.between(-9000, 9000) / 1e6
  x = rng.weighted([('near', 8), ('far', 1), ('edge', 1)])
  if x == 'far':
    la, lo = rng.between(-89, 89), rng.between(-179, 179)
  elif x == 'edge':
    la, lo = rng.choice([(90, 180), (-90, -180), (0, 0), (0, 180)])
  la, lo = max(-90, min(90, la)), max(-180, min(180, lo))
  return [s[u'stop_id'], rng.choice(['%.6f', '%r', '%f']) % round(la, 6),
          rng.choice(['%.6f', '%r', '%f']) % round(lo, 6)]


def gen(rng, tier, index):
  feed = viewing.gen_viewer_feed(rng)
  lives = []
  for _ in range(rng.between(1, 3)):
    events = []
    for _ in range(rng.between(2, 12)):
      x = rng.weighted([('move', 6), ('bad', 4), ('query', 4), ('save', 2)])
      fault = None
      if rng.chance(15):
        fault = ['epipe', rng.choice([0, 1, 20, rng.below(300)])]
      elif rng.chance(5):
        fault = ['reset', rng.below(30)]
      if x == 'move':
        e = [x] + gen_move(rng, feed)
      elif x == 'bad':
        sid, la, lo = gen_move(rng, feed)
        p = {'id': viewing.quote(sid), 'lat': la, 'lng': lo}
        k = rng.choice(sorted(p))
        how = rng.choice(['drop', 'junk', 'junk'])
        if how == 'drop':
          del p[k]
        elif k == 'id':
          p[k] = rng.choice(['', 'nothing', '%ff', '%C3%A9'])
        else:
          p[k] = rng.choice(['', 'x', 'nan', 'inf', '-inf', '1e400', '%ff',
                             '1,5', '181', '-200', 'None', '1.2.3', '%00'])
        e = [x, p]
      elif x == 'query':
        e = [x, viewing.gen_queries(rng, feed, 1)[0]]
      else:
        disk = []
        if rng.chance(35):
          op = rng.choice(['openw', 'write', 'close'])
          disk = [{'op': op, 'kind': rng.choice(
              {'openw': ['EIO', 'EACCES', 'ENOSPC'],
               'write': ['EIO', 'ENOSPC', 'TORN'],
               'close': ['EIO', 'ENOSPC']}[op]), 'frac': rng.below(100)}]
        e = [x, disk]
      events.append(e + [fault])
    lives.append(events)
  return {'feed': feed, 'lives': lives, 'salt': rng.below(1000),
          'name': rng.choice(['/sim/feed.zip', u'/sim/caf\xe9.zip',
                              '/sim/data/my feed.zip', '/sim/feed']),
          'buffer': rng.choice([0, 64, 8192]), 'hash': rng.seed()}


def run(trace, ctx):
  feed = model.copy_feed(trace['feed'])
  if not (feed['stops']['rows'] and feed['routes']['rows'] and
          feed['trips']['rows'] and feed['stop_times']['rows']):
    return
  disk = model.copy_feed(feed)     # what the file holds
  w = World(ctx, net_plan=[{'body': 'version=1.0.0'}
                           for _ in trace['lives']],
            buffer_size=trace['buffer'])
  ctx.world = w
  path = trace['name']
  with w:
    viewing.install_files(w)
    w.fs.mkdir('/sim/data')
    drive.put_feed(w, feed, u8(path))
    zipped = path.endswith('.zip')
    for n, events in enumerate(trace['lives']):
      m = viewing.Model(model.copy_feed(disk))
      script = []
      for e in events:
        spec = plan(e, m)
        if e[-1]:
          spec[e[-1][0]] = e[-1][1]
        script.append(spec)
      p = serve(ctx, w, script, events, path, trace['salt'] + n, m, disk,
                zipped)
      if p.stop:
        break
  ctx.sig = canon([[e[0][0] + (e[-1][0] if e[-1] else '') for e in l]
                   for l in trace['lives']] + [sorted(ctx.faults)])


def plan(e, m):
  if e[0] == 'move':
    t = viewing.url('/json/setstoplocation', [('id', e[1]), ('lat', e[2]),
                                              ('lng', e[3])])
  elif e[0] == 'bad':
    t = '/json/setstoplocation?' + '&'.join('%s=%s' % (k, e[1][k])
                                            for k in sorted(e[1]))
  elif e[0] == 'save':
    t = '/json/savedata'
  else:
    t = viewing.target(m, e[1])
  return {'req': viewing.request(t)}


def serve(ctx, w, script, events, path, salt, m, disk, zipped):
  """One life; checks every answer against the model as it stood then."""
  saved = {}

  def arrived(i):
    e = events[i]
    if e[0] == 'save':
      w.fs.full = False
      w.fs.faults[:] = [dict(f) for f in e[1]]
    saved[i] = None

  def left(i):
    """Right after connection i: the disk as it is now."""
    if events[i][0] == 'save':
      w.fs.faults[:] = []
      w.fs.full = False
      saved[i] = w.fs.get(u8(path)) if zipped else w.fs.snapshot()

  before = w.fs.snapshot()
  p = viewing.serve(ctx, w, script, u8(path), editor=True, salt=salt,
                    arrived=arrived, left=left)
  p.stop = True
  d0 = lambda: canon([p.run.status, repr(p.run.exc), p.run.out[-800:],
                      p.run.err[-2500:]])
  ctx.check(p.run.status == 130, 'server-ended', d0)
  ctx.check(len(p.conns) == len(events), 'not-served', d0)
  torn = False
  for i, (e, c) in enumerate(zip(events, p.conns)):
    ctx.steps += 1
    a = http.Answer(c.answer())
    d = lambda: canon([e, a.status, a.headers, c.answer()[:1000],
                       p.run.err[-2000:]])
    ctx.check(c.closed, 'left-open', d)
    ctx.ev(canon([e[0], a.status, c.lost_request, c.broken]))
    if c.lost_request:
      ctx.probe('lost_request')
      continue
    if e[0] == 'move':
      rows = m.feed['stops']
      for row in rows['rows']:
        if row[model.col(rows, 'stop_id')] == e[1]:
          row[model.col(rows, 'stop_lat')] = u'%s' % e[2]
          row[model.col(rows, 'stop_lon')] = u'%s' % e[3]
      m.__init__(m.feed)
      ctx.probe('moved_unheard' if c.broken else 'moved')
      if not c.broken:
        ctx.check(a.complete and a.status == 200, 'move-answer', d)
        try:
          ok = isinstance(viewing.unjson(a.body), unicode)
        except ValueError:
          ok = False
        ctx.check(ok, 'move-not-json', d)
    elif e[0] == 'bad':
      ctx.probe('bad_move')
      if not c.broken:
        ctx.check(a.complete and a.status in (400, 404), 'bad-move-answer', d)
    elif e[0] == 'query':
      if not c.broken:
        viewing.check_answer(ctx, m, e[1], a, w)
    else:
      said = a.complete and a.status == 200 or \
          'Data saved to' in c.answer()
      good = False
      if zipped:
        try:
          got = model.read_zip_feed(saved[i])
          diff = model.diff_meaning(model.meaning(m.feed),
                                    model.meaning(got))
          good = diff is None
        except Exception as x:
          diff = repr(x)
      else:
        diff = 'a directory'
        ctx.check(saved[i] == before, 'directory-changed', d)
      if said:
        ctx.check(good, 'saved-but-not', lambda: canon([diff, e]))
        ctx.probe('saved')
      elif not c.broken:
        ctx.check(e[1] or not zipped, 'save-refused', d)
        ctx.probe('save_failed')
      if good:
        disk.clear()
        disk.update(model.copy_feed(m.feed))
        torn = False
      elif zipped:
        # a failed save: the old contents, or a torn file
        try:
          same = model.diff_meaning(model.meaning(disk), model.meaning(
              model.read_zip_feed(saved[i]))) is None
        except Exception:
          same = False
        torn = not same
  if p.after is not None:
    diff = model.diff_meaning(model.meaning(m.feed), p.after)
    ctx.check(diff is None, 'server-holds-other', lambda: canon(diff))
  ctx.check(not w.fs.outside_writes, 'wrote-outside',
            lambda: canon(w.fs.outside_writes))
  if torn:
    ctx.probe('torn_file')
  p.stop = torn
  return p
