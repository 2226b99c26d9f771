# -*- coding: utf-8 -*-
"""The viewer survives its clients: histories of sound, senseless and broken
requests on healthy and failing connections, with disk errors under the static
files.  Every complete GET gets a complete answer, queries about things which
do not exist are refused, sound queries are answered as if nothing had
happened before, and nothing outside the file directory is ever sent.
"""
import damage
import model
from core import Rng, canon, u8
from world import World
import drive
import http
import viewing

SHRINK = ('events', 'damage', 'faults', 'feed')
SHRINK_KEYS = ('feed',)
JUNK = ['', 'x', '-1', '1e400', 'nan', 'inf', '-inf', '1.5', '%207%20', '0x10',
        '%ff%fe', '%C3%A9', '%00', '99999999999999999999', '+3', '%F0%9F%9A']
HANDLERS = ['routes', 'routerow', 'routepatterns', 'triprows', 'tripstoptimes',
            'tripshape', 'neareststops', 'boundboxstops', 'stopsearch',
            'stoptrips']
PATHS = ['/file/../secret.txt', '/file/%2e%2e/secret.txt', '/file/..',
         '/file/..%2fsecret.txt', '//sim/secret.txt', '/file//sim/secret.txt',
         '/file/sub/inner.txt', '/file/sub', '/file/secret.txt', '/file/',
         '/file/a', '/file/plain', '/file/odd.zzq', '/file/index.html/..',
         '/file/.htaccess', '/file/a..b', '/secret.txt', '/../secret.txt',
         '/home', '/default', '/static', '/file', '/json', '/json/',
         '/json/nothing', '/json/wrapper', '/nothing', '/ttablegraph',
         'http://[', 'http://h/json/routes', '*', '?', '/?', '/;x', '/#frag',
         u'/\xe9', '/%e9', '/json/routes;a=b', '/json/routes/../../secret.txt',
         '/' + 'a' * 3000, '/json/' + 'z' * 70, '/file/' + 'z' * 200]


def gen_params(rng, feed, k):
  """A query string of handler k with something wrong."""
  m = viewing.Model(feed)
  ident = {'routerow': ('route', m.routes, u'route_id'),
           'routepatterns': ('route', m.routes, u'route_id'),
           'stoptrips': ('stop', m.stops, u'stop_id'),
           'ttablegraph': ('trip', m.trips, u'trip_id')}
  num = {'neareststops': ['lat', 'lon', 'limit'],
         'boundboxstops': ['n', 'e', 's', 'w', 'limit'],
         'routepatterns': ['time'], 'stoptrips': ['time'],
         'ttablegraph': ['height'], 'stopsearch': [], 'routes': [],
         'triprows': [], 'tripstoptimes': [], 'tripshape': [], 'routerow': []}
  p = {}
  for n in num[k]:
    p[n] = rng.choice(['3', '10', '-20', '1', '300'])
  if k in ident:
    n, rows, c = ident[k]
    p[n] = viewing.quote(rng.choice(rows)[c]) if rows else 'x'
  if k in ('triprows', 'tripstoptimes', 'tripshape'):
    p['trip'] = viewing.quote(rng.choice(m.trips)[u'trip_id']) \
        if m.trips else 'x'
  if k == 'stopsearch':
    p['q'] = 'S'
  if k in ('routepatterns', 'stoptrips') and rng.chance(60):
    p['date'] = rng.choice(['20140513', '20140599', '2014', 'x', '20140513x',
                            '201405131', '99999999', '%ff'])
  names = sorted(p)
  kind = rng.choice(['junk', 'missing', 'unknown', 'twice', 'none', 'junk'])
  expect = 'any'
  if not names:
    kind = 'none'
  if kind == 'junk':
    n = rng.choice(names)
    p[n] = rng.choice(JUNK)
    if p[n] in ('%ff%fe', '%F0%9F%9A', 'x', 'nan') and n in num[k]:
      expect = 'refused'
  elif kind == 'missing':
    n = rng.choice(names)
    del p[n]
    if k in ('neareststops', 'boundboxstops') or \
        k in ident and n == ident[k][0]:
      expect = 'refused'
  elif kind == 'unknown':
    if k in ident:
      p[ident[k][0]] = 'no%20such'
      expect = 'refused'
    elif 'trip' in p:
      p['trip'] = 'no%20such'
  elif kind == 'none':
    p = {}
    if k in ident or k in ('neareststops', 'boundboxstops'):
      expect = 'refused'
  qs = '&'.join('%s=%s' % (n, p[n]) for n in sorted(p))
  if kind == 'twice':
    qs += '&' + qs
  if rng.chance(10):
    qs += rng.choice(['&', '&&', '&x', '&=', '=', '&%ff=%ff', '#f', ';'])
  return qs, expect


def gen(rng, tier, index):
  feed = viewing.gen_viewer_feed(rng)
  if rng.chance(5):
    feed = model.gen_feed(rng, calm=True)
  events = []
  for _ in range(rng.between(4, 18)):
    x = rng.weighted([('query', 5), ('params', 6), ('path', 4),
                      ('garbage', 2), ('wait', 2)])
    if x == 'wait':
      events.append([rng.choice(['idle', 'eintr', 'gone', 'aborted']),
                     rng.between(1, 3)])
      continue
    if x == 'query':
      e = ['query', viewing.gen_queries(rng, feed, 1)[0]]
    elif x == 'params':
      k = rng.choice(HANDLERS + ['ttablegraph'])
      qs, expect = gen_params(rng, feed, k)
      e = ['raw', ('/' if k == 'ttablegraph' else '/json/') + k +
           ('?' + qs if qs or rng.chance(50) else ''), expect]
    elif x == 'path':
      e = ['raw', rng.choice(PATHS), 'any']
    else:
      e = ['bytes', rng.choice([
          '', '\r\n', '\r\n\r\n', 'GET\r\n\r\n', 'GET / HTTP/9.9\r\n\r\n',
          'GET / HTTP/x\r\n\r\n', 'POST /json/routes HTTP/1.0\r\n'
          'Content-Length: 3\r\n\r\nabc', 'HEAD / HTTP/1.0\r\n\r\n',
          'BREW / HTTP/1.1\r\n\r\n', u'\x00\x01\x02\xff\r\n', 'GET / / /\r\n',
          'GET ' + '/' * 70000, 'GET /json/routes\r\n', u'\xe9' * 10,
          '__init__ / HTTP/1.0\r\n\r\n', 'GET / HTTP/1.0\r\nbad header\r\n'
          '\r\n', 'GET / HTTP/1.0\r\n' + 'a: b\r\n' * 200 + '\r\n'])]
    fault = rng.weighted([(None, 12), ('reset', 2), ('eof', 2), ('epipe', 3)])
    if fault:
      fault = [fault, rng.choice([0, 1, 5, 17, rng.below(400),
                                  rng.below(20000)])]
    events.append(e + [[fault, rng.weighted([(0, 4), (1, 1), (13, 2)]),
                        rng.weighted([('HTTP/1.0', 3), ('HTTP/1.1', 2)])]])
  faults = []
  if rng.chance(25):
    for _ in range(rng.between(1, 2)):
      op = rng.choice(['open', 'read'])
      faults.append({'op': op, 'kind': rng.choice(['EIO', 'EACCES', 'EMFILE'])
                     if op == 'open' else 'EIO', 'nth': rng.between(1, 4),
                     'under': '/sim/files/'})
  return {'feed': feed, 'events': events, 'salt': rng.below(1000),
          'faults': faults, 'as_dir': rng.chance(30),
          'damage': [[rng.choice(damage.CELL_OPS), rng.choice(sorted(feed)),
                      rng.seed()] for _ in range(rng.between(1, 4))]
          if rng.chance(25) else [], 'hash': rng.seed()}


def run(trace, ctx):
  feed = model.copy_feed(trace['feed'])
  m = viewing.Model(feed)
  if not m.stops or not m.routes or not m.trips or not m.times:
    return
  sane = not trace['damage']
  w = World(ctx, net_plan=[{'body': 'version=1.0.0'}])
  ctx.world = w
  with w:
    viewing.install_files(w)
    path = '/sim/feed' if trace['as_dir'] else '/sim/feed.zip'
    files = model.feed_files(feed)
    for op, name, seed in trace['damage']:
      name += '.txt'
      if name in files:
        files[name] = damage.apply_text(op, files[name], Rng(seed),
                                        [files[x] for x in sorted(files)])
    drive.put_files(w, files, path)
    w.fs.faults.extend(dict(f) for f in trace['faults'])
    script, what = [], []
    for e in trace['events']:
      if e[0] in ('idle', 'eintr', 'gone', 'aborted'):
        script.append({e[0]: e[1]})
        continue
      fault, chunks, version = e[-1]
      if e[0] == 'query':
        req = viewing.request(viewing.target(m, e[1]), version=version)
      elif e[0] == 'raw':
        req = 'GET %s %s\r\n\r\n' % (e[1], version)
      else:
        req = e[1]
      spec = {'req': req, 'chunks': chunks}
      if fault:
        spec[fault[0]] = fault[1]
      script.append(spec)
      what.append(e)
    p = viewing.serve(ctx, w, script, path, salt=trace['salt'],
                      watch=sane)
    if not p.net.listening:
      ctx.check(not sane, 'did-not-start',
                lambda: canon([p.run.status, repr(p.run.exc), p.run.err]))
      ctx.probe('no_start')
      return
    ctx.check(p.run.status == 130, 'server-ended',
              lambda: canon([p.run.status, repr(p.run.exc),
                             p.run.err[-1500:]]))
    ctx.check(len(p.conns) == len(what), 'not-served',
              lambda: canon([len(p.conns), len(what)]))
    for e, c in zip(what, p.conns):
      ctx.steps += 1
      judge(ctx, w, m, e, c, p, sane, trace['faults'])
    ctx.check(p.before == p.after, 'schedule-changed',
              lambda: canon(model.diff_meaning(p.before or {}, p.after or {})))
    ctx.check(not w.fs.outside_writes, 'wrote-outside',
              lambda: canon(w.fs.outside_writes))
  ctx.sig = canon([[e[0][0] + (e[1][0][:6] if e[0] == 'query' else
                               e[-1] if e[0] == 'raw' else '')
                    if not isinstance(e[-1], list) else e[0][0] +
                    (e[1][0] if e[0] == 'query' else '') +
                    (e[-1][0][0] if e[-1][0] else '') for e in what],
                   sorted(ctx.faults)])


def judge(ctx, w, m, e, c, p, sane, faults):
  a = http.Answer(c.answer())
  text = c.answer()
  d = lambda: canon([e, a.status, a.headers, text[:1500], p.run.err[-2000:]])
  ctx.ev(canon([e[0], e[1] if e[0] != 'bytes' else '', a.status, len(text)]))
  ctx.check(c.closed, 'left-open', d)
  ctx.check(viewing.SECRET not in text and 'inner' != a.body, 'leak', d)
  if c.lost_request or c.broken:
    ctx.probe('lost')
    return
  if e[0] == 'bytes':
    ctx.probe('garbage')
    ctx.check(a.complete or not e[1].strip() or not text.startswith('HTTP/'),
              'garbage-answer', d)
    ctx.check(a.status != 500, 'garbage-500', d)
    return
  name = e[1][0] if e[0] == 'query' else 'raw'
  if faults and e[0] == 'query' and e[1][0] in ('home', 'file') or \
      faults and e[0] == 'raw' and not e[1].startswith('/json'):
    ctx.probe('maybe_disk')
    ctx.check(not text or a.complete, 'half-answer', d)
    return
  if not a.complete:
    if not sane:      # nothing is promised about a feed with errors
      ctx.probe('damaged_feed_breaks_off')
      return
    ctx.violate('no-answer:%s' % (name if name != 'raw' else
                                  e[1].split('?')[0][:24]), d)
  if e[0] == 'query':
    if sane:
      viewing.check_answer(ctx, m, e[1], a, w)
    else:
      ctx.check(a.status in (200, 404), 'status:%s:%s' % (name, a.status), d)
      ctx.probe('damaged_feed')
    return
  ctx.check(a.status in (200, 400, 404), 'raw-status:%s' % a.status, d)
  ctx.probe('raw_%s_%s' % (e[2], a.status))
  if e[2] == 'refused' and sane:
    ctx.check(a.status in (400, 404), 'not-refused:' + e[1].split('?')[0], d)
  if a.status == 200:
    ctx.check(a.headers.get('content-length') == '%d' % len(a.body),
              'content-length', d)
    if e[1].startswith('/json/'):
      try:
        viewing.unjson(a.body)
      except ValueError:
        ctx.violate('not-json', d)
