# -*- coding: utf-8 -*-
"""The check for new versions over histories of a misbehaving network."""
import re

import model
from core import canon, u8, uni
from world import World
import cli
import drive
from drive import transitfeed
from transitfeed import util

SHRINK = ('plan',)
VERSION = transitfeed.__version__
FAILS = ['timeout', 'reset', 'refused', 'dns', 'http404', 'http500',
         'badstatus', 'incomplete', 'ioerror']


def number(rng):
  a = [int(x) for x in VERSION.split('.')]
  i = rng.below(3)
  kind = rng.below(7)
  if kind == 0:
    pass
  elif kind == 1:
    a[i] += 1 + rng.choice([0, 8, 9, 90, 10 ** 12])
  elif kind == 2:
    a[i] = max(0, a[i] - 1)
  elif kind == 3:
    a[i] += 1
    for j in range(i + 1, 3):
      a[j] = 0
  elif kind == 4:
    a[i] = max(0, a[i] - 1)
    for j in range(i + 1, 3):
      a[j] += 99
  elif kind == 5:
    a[2] = int('%d0' % a[2])
  else:
    return '.'.join('%03d' % x for x in a)
  return '.'.join('%d' % x for x in a)


def gen(rng, tier, index):
  plan = []
  for _ in range(rng.between(1, 6)):
    x = rng.weighted([('page', 6), ('fail', 4), ('read', 3), ('option', 3),
                      ('junk', 2)])
    v = number(rng)
    body = '%sversion=%s%s' % (rng.choice(['', '#\n', 'version=\n',
                                           'version=1.2\n', 'VERSION=9.9.9 ',
                                           'x\n' * 500]),
                               v, rng.choice(['', '\n', '.5', 'rc1', '\r\n',
                                              '\nversion=0.0.1', ' ']))
    if x == 'page':
      plan.append({'body': body})
    elif x == 'junk':
      plan.append({'body': rng.choice(['', 'hello', 'version=', 'version=a.b.c',
                                       'version=1.2', u'<html>\xe9</html>',
                                       'version 1.2.3'])})
    elif x == 'fail':
      k = rng.choice(FAILS)
      plan.append({'fail': k, 'kind': k})
    elif x == 'read':
      k = rng.choice(['timeout', 'reset', 'incomplete', 'ioerror'])
      plan.append({'fail_read': k, 'kind': k, 'body': body,
                   'after': rng.below(len(body) + 1)})
    else:
      plan.append({'option': rng.choice([v, v, v, 'None', 'x', '1.2', '2',
                                         '1..2', '-1.0.0', '1.2.3.4', ''])})
  return {'plan': plan}


def tup(v):
  return [int(x) for x in v.split('.')]


def expect(p):
  """-> (class, fragment) or None"""
  opt = p.get('option')
  if opt:
    if not re.match(r'\d+(\.\d+)*\Z', opt):
      return ('OtherProblem', 'trouble parsing')
    return ('NewVersionAvailable', opt) if tup(opt) > tup(VERSION) else None
  if 'fail' in p or 'fail_read' in p:
    return ('OtherProblem', 'failed to reach')
  n = cli.newer(p['body'], VERSION)
  if n is None:
    return ('OtherProblem', 'trouble parsing')
  return ('NewVersionAvailable', n) if n else None


def run(trace, ctx):
  net = []
  steps = []
  for p in trace['plan']:
    if p.get('option') in ('None', ''):   # asks the network after all
      p = {'option': p['option'], 'body': 'version=' + VERSION}
      net.append(p)
      steps.append((p, None, True))
    elif 'option' in p:
      steps.append((p, expect(p), False))
    else:
      net.append(p)
      steps.append((p, expect(p), True))
  w = World(ctx, net_plan=net)
  ctx.world = w
  with w:
    for i, (p, want, asks) in enumerate(steps):
      ctx.steps += 1
      rec = drive.Recorder()
      pr = transitfeed.ProblemReporter(rec)
      n = len(w.net.requests)
      t0 = w.clock.now
      r = util.CheckVersion(pr, p.get('option'))
      detail = lambda: canon([i, p, want, rec.kinds(),
                              [x['text'] for x in rec.items]])
      ctx.check(r is None, 'returns-something', detail)
      ctx.check(len(w.net.requests) - n == (1 if asks else 0),
                'requests', detail)
      ctx.check(len(rec.items) == (1 if want else 0), 'count', detail)
      if want:
        x = rec.items[0]
        ctx.check(x['type'] == 2, 'not-a-notice', detail)
        ctx.check(x['cls'] == want[0] and want[1] in x['text'], 'notice',
                  detail)
        ctx.probe(want[0] + ':' + want[1].split(' ')[0]
                  if want[0] == 'OtherProblem' else 'newer')
      else:
        ctx.probe('silent')
      import socket
      if asks:
        ctx.check(socket.getdefaulttimeout() is not None and
                  0 < socket.getdefaulttimeout() <= 60, 'may-wait-forever',
                  detail)
  ctx.sig = canon([[s[1] for s in steps],
                   sorted(k for k in ctx.faults)])
