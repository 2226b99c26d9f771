# -*- coding: utf-8 -*-
"""Worker process (Jython): runs, replays and minimises simulated runs.

usage: jython worker.py CONFIG.json      (CONFIG describes the job)
Results are JSON lines appended to config['out'].
"""
import gc
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import core
from core import (Ctx, Rng, Violation, KnownFinding, HarnessError, SimCrash,
                  seed_of)
import world                                   # noqa: keeps the real functions
import time as _time
REAL_TIME = world.REAL['time']

CFG = core.loads(open(sys.argv[1]).read())
REPO = CFG.get('repo', '/repo').encode('utf-8')
sys.path.insert(0, REPO)


def load_prop(pid):
  mod = __import__('props.' + pid.lower(), fromlist=['x'])
  return mod


def emit(out, rec):
  f = world.REAL['open'](out, 'ab')
  f.write(core.dumps(rec) + '\n')
  f.close()


def classify(exc_info):
  """(kind, code, text) of an unexpected exception."""
  et, ev, tb = exc_info
  frames = traceback.extract_tb(tb)
  name = getattr(et, '__name__', str(et)).split('.')[-1]
  text = ''.join(traceback.format_exception(et, ev, tb))[-3000:]
  if isinstance(text, unicode):
    text = text.encode('utf-8')
  in_repo = [f for f in frames if f[0].startswith(REPO + '/')]
  if in_repo:
    fn = in_repo[-1][2]
    # a TypeError for a wrong call made by the harness itself would have no
    # repository frame, so this is the repository failing on its own
    return ('violation', 'unexpected-exception:%s' % name, text)
  # No repository frame: the code handed back something the public interface
  # does not allow (on the unchanged tree this never happens).
  return ('violation', 'unusable-result:%s' % name, text)


def run_one(prop, trace, findings, repeat=False):
  """-> dict(result) ; never raises."""
  ctx = Ctx()
  ctx.findings = findings
  res = {'ctx': ctx, 'viol': None, 'harness': None, 'known': None}
  try:
    try:
      prop.run(trace, ctx)
    finally:
      w = getattr(ctx, 'world', None)
      if w is not None:
        w.__exit__()
  except Violation as v:
    res['viol'] = {'code': v.code, 'detail': v.detail}
  except KnownFinding as k:
    res['known'] = str(k)
  except HarnessError as h:
    res['harness'] = 'HarnessError %s\n%s' % (h, traceback.format_exc()[-2000:])
  except SimCrash:
    res['harness'] = 'SimCrash escaped\n' + traceback.format_exc()[-2000:]
  except KeyboardInterrupt:
    raise
  except BaseException:
    kind, code, text = classify(sys.exc_info())
    if kind == 'violation':
      if code in findings:
        res['known'] = code
        ctx.known.append(code)
      else:
        res['viol'] = {'code': code, 'detail': text}
    else:
      res['harness'] = text
  except:
    # Java throwables
    ei = sys.exc_info()
    try:
      kind, code, text = classify(ei)
    except Exception:
      kind, code, text = 'harness', 'java', repr(ei[1])
    if kind == 'violation':
      res['viol'] = {'code': code, 'detail': text}
    else:
      res['harness'] = 'java: ' + text
  return res


def make_trace(prop, pid, seed, index, tier):
  rng = Rng(seed_of(seed, pid, index))
  trace = prop.gen(rng, tier, index)
  return core.loads(core.dumps(trace))


# ---------------------------------------------------------------------------
def batch(cfg):
  pid = cfg['prop'].encode('ascii')
  prop = load_prop(pid)
  out = cfg['out'].encode('utf-8')
  findings = frozenset([f.encode('utf-8') for f in cfg.get('findings', [])])
  t0 = REAL_TIME()
  deadline = t0 + cfg['deadline']
  agg = {'faults': {}, 'probes': {}, 'simtime': 0.0, 'steps': 0}
  runs = []
  stop = False
  hb = world.REAL['open'](out + '.hb', 'wb')
  for i in cfg['indices']:
    now = REAL_TIME()
    if now > deadline:
      break
    hb.seek(0)
    hb.write('%-12d %.1f\n' % (i, now))
    hb.flush()
    trace = make_trace(prop, pid, cfg['seed'], i, cfg['tier'])
    r = run_one(prop, trace, findings)
    ctx = r['ctx']
    for k in ('faults', 'probes'):
      for name, n in getattr(ctx, k).items():
        agg[k][name] = agg[k].get(name, 0) + n
    agg['simtime'] += ctx.simtime
    agg['steps'] += ctx.steps
    nontriv = 1 if (ctx.faults or ctx.probes) else 0
    sig = getattr(ctx, 'sig', None) or ctx.digest()
    runs.append([i, ctx.digest(), sig, nontriv])
    if len(runs) <= 1:
      emit(out, {'kind': 'sample', 'index': i,
                 'trace': core.dumps(trace)[:1200].decode('utf-8', 'replace'),
                 'log': [x.decode('utf-8', 'replace')[:200]
                         for x in ctx.log[:8]]})
    if r['known']:
      emit(out, {'kind': 'known', 'code': r['known'], 'index': i})
    if r['harness']:
      emit(out, {'kind': 'harness', 'index': i, 'text': r['harness'].decode(
          'utf-8', 'replace')})
      stop = True
      break
    if r['viol']:
      emit(out, {'kind': 'viol', 'index': i, 'trace': trace,
                 'code': r['viol']['code'],
                 'detail': r['viol']['detail'].decode('utf-8', 'replace')})
      if not cfg.get('survey'):
        stop = True
        break
    if len(runs) % 200 == 0:
      gc.collect()
  hb.seek(0)
  hb.write('done         \n')
  hb.close()
  emit(out, {'kind': 'done', 'runs': runs, 'agg': agg,
             'wall': REAL_TIME() - t0, 'stopped': stop})


# ---------------------------------------------------------------------------
# Minimisation: drop list elements anywhere under the trace's shrinkable
# paths, then try the property's own simplifications.
# ---------------------------------------------------------------------------
def lists_in(v, path=()):
  """Paths of all lists of length > 0, biggest structures first."""
  res = []
  if isinstance(v, dict):
    for k in sorted(v):
      if k in ('cols', 'noshrink'):
        continue
      res.extend(lists_in(v[k], path + (k,)))
  elif isinstance(v, list):
    if v:
      res.append(path)
    for i, x in enumerate(v):
      if isinstance(x, (list, dict)):
        res.extend(lists_in(x, path + (i,)))
  return res


def fetch(v, path):
  for p in path:
    v = v[p]
  return v


def with_list(trace, path, new):
  t = core.loads(core.dumps(trace))
  parent = fetch(t, path[:-1])
  parent[path[-1]] = new
  return t


def minimise(prop, trace, code, findings, budget):
  t_end = REAL_TIME() + budget
  tried = [0]
  keys = getattr(prop, 'SHRINK', None)

  def fails(t):
    tried[0] += 1
    try:
      r = run_one(prop, t, findings)
    except KeyboardInterrupt:
      raise
    except BaseException:
      return False
    return bool(r['viol']) and r['viol']['code'] == code

  best = trace
  progress = True
  while progress and REAL_TIME() < t_end:
    progress = False
    for path in lists_in(best):
      if not path or REAL_TIME() > t_end:
        continue
      if keys is not None and path[0] not in keys:
        continue
      # rows of a table are cells: never drop cells of a row
      if len(path) >= 2 and path[-2] == 'rows':
        continue
      try:
        lst = fetch(best, path)
      except (KeyError, IndexError, TypeError):
        continue
      if not isinstance(lst, list) or not lst:
        continue
      n = len(lst)
      chunk = n
      while chunk >= 1 and REAL_TIME() < t_end:
        i = 0
        while i < len(lst) and REAL_TIME() < t_end:
          cand = lst[:i] + lst[i + chunk:]
          t = with_list(best, path, cand)
          if fails(t):
            best = t
            lst = cand
            progress = True
          else:
            i += chunk
        chunk //= 2
    # drop optional keys (whole tables)
    for holder in getattr(prop, 'SHRINK_KEYS', ()):
      d = best.get(holder)
      if isinstance(d, dict):
        for k in sorted(d):
          t = core.loads(core.dumps(best))
          t[holder].pop(k, None)
          if REAL_TIME() < t_end and fails(t):
            best = t
            progress = True
    for simp in getattr(prop, 'simplify', lambda t: [])(best):
      if REAL_TIME() > t_end:
        break
      if fails(simp):
        best = simp
        progress = True
        break
  return best, tried[0]


def do_minimise(cfg):
  pid = cfg['prop'].encode('ascii')
  prop = load_prop(pid)
  findings = frozenset([f.encode('utf-8') for f in cfg.get('findings', [])])
  trace = cfg['trace']
  code = cfg['code'].encode('utf-8')
  r = run_one(prop, trace, findings)
  if not r['viol']:
    emit(cfg['out'], {'kind': 'min', 'reproduced': False})
    return
  code = r['viol']['code']
  best, tried = minimise(prop, trace, code, findings, cfg['budget'])
  r = run_one(prop, best, findings)
  emit(cfg['out'], {'kind': 'min', 'reproduced': True, 'trace': best,
                    'tried': tried, 'code': r['viol']['code'],
                    'detail': r['viol']['detail'].decode('utf-8', 'replace'),
                    'log': [x.decode('utf-8', 'replace')[:300]
                            for x in r['ctx'].log[-60:]]})


def do_replay(cfg):
  pid = cfg['prop'].encode('ascii')
  prop = load_prop(pid)
  findings = frozenset([f.encode('utf-8') for f in cfg.get('findings', [])])
  r = run_one(prop, cfg['trace'], findings)
  v = r['viol']
  emit(cfg['out'], {'kind': 'replay', 'code': v['code'] if v else None,
                    'detail': v['detail'].decode('utf-8', 'replace')
                    if v else (r['harness'] or '').decode('utf-8', 'replace'),
                    'known': r['known'], 'harness': bool(r['harness']),
                    'digest': r['ctx'].digest(),
                    'log': [x.decode('utf-8', 'replace')[:300]
                            for x in r['ctx'].log[-60:]]})


def main():
  mode = CFG['mode']
  if mode == 'batch':
    batch(CFG)
  elif mode == 'min':
    do_minimise(CFG)
  elif mode == 'replay':
    do_replay(CFG)
  sys.stdout.flush()
  os._exit(0)


if __name__ == '__main__':
  main()
