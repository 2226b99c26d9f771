#!/usr/bin/env python3
"""Coordinator: runs one property's simulation on all cores.

  check.py run ID            seeded search (VERIF_SEED, VERIF_TIER)
  check.py replay FILE       re-execute a replay file exactly
  check.py determinism [ID..] prove that one seed is one execution
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
JY = '/opt/jy/bin/jython'
REPO = os.environ.get('VERIF_REPO', '/repo')
HANG_S = 150          # one run normally takes milliseconds
sys.path.insert(0, HERE)
import plan           # noqa: E402


def scratch():
    base = os.environ.get('TMPDIR') or '/tmp'
    return tempfile.mkdtemp(prefix='verifsim.', dir=base)


def env_for(tmp, hashseed=None):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
         'HOME': tmp, 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
         'TMPDIR': tmp,
         'JAVA_TOOL_OPTIONS': '-Xmx2200m -Xss4m -Djava.io.tmpdir=%s '
                              '-Dorg.sqlite.tmpdir=%s -XX:-UsePerfData' % (tmp, tmp)}
    if hashseed is not None:
        e['PYTHONHASHSEED'] = str(hashseed)
    return e


def start(cfg, tmp, name, hashseed=None):
    cfg = dict(cfg)
    wd = os.path.join(tmp, name)
    os.makedirs(wd, exist_ok=True)
    cfg['out'] = os.path.join(wd, 'out.jsonl')
    cfg['repo'] = REPO
    open(cfg['out'], 'w').close()
    cpath = os.path.join(wd, 'cfg.json')
    with open(cpath, 'w') as f:
        json.dump(cfg, f)
    err = open(os.path.join(wd, 'err.txt'), 'wb')
    p = subprocess.Popen([JY, os.path.join(SIM, 'worker.py'), cpath],
                         cwd=wd, env=env_for(wd, hashseed),
                         stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                         start_new_session=True)
    return {'p': p, 'out': cfg['out'], 'wd': wd, 'err': err, 'cfg': cfg,
            't0': time.time()}


def kill(w):
    try:
        os.killpg(w['p'].pid, signal.SIGKILL)
    except OSError:
        pass
    w['p'].wait()


def results(w):
    out = []
    try:
        with open(w['out']) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    except (OSError, ValueError):
        pass
    return out


def errtail(w):
    try:
        with open(os.path.join(w['wd'], 'err.txt'), 'rb') as f:
            return f.read()[-3000:].decode('utf-8', 'replace')
    except OSError:
        return ''


def heartbeat(w):
    try:
        with open(w['out'] + '.hb') as f:
            parts = f.read().split()
            return int(parts[0]), float(parts[1])
    except (OSError, ValueError, IndexError):
        return None, None


def findings_for(pid):
    """Codes of listed, unrepaired findings: {code: text}."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) code=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3).strip()
    return out


def solo(pid, trace, tmp, name, findings, mode='replay', limit=240, **kw):
    cfg = {'mode': mode, 'prop': pid, 'trace': trace,
           'findings': sorted(findings)}
    cfg.update(kw)
    w = start(cfg, tmp, name)
    try:
        w['p'].wait(limit)
    except subprocess.TimeoutExpired:
        kill(w)
        return {'hang': True}
    finally:
        w['err'].close()
    r = results(w)
    if not r:
        return {'crash': errtail(w)}
    return r[-1]


def search(pid, seed, tier, nruns, cap, workers, tmp, findings, tag='w',
           hashseed=None, survey=False):
    """Runs the batch; returns (records, aggregate)."""
    ws = []
    for k in range(workers):
        idx = list(range(k, nruns, workers))
        if not idx:
            continue
        cfg = {'mode': 'batch', 'prop': pid, 'seed': seed, 'tier': tier,
               'indices': idx, 'deadline': cap, 'findings': sorted(findings),
               'survey': survey}
        ws.append(start(cfg, tmp, '%s%d' % (tag, k), hashseed))
    hung = []
    while True:
        alive = [w for w in ws if w['p'].poll() is None]
        if not alive:
            break
        now = time.time()
        for w in alive:
            i, t = heartbeat(w)
            if i is not None and now - t > HANG_S:
                kill(w)
                hung.append((i, w))
            elif i is None and now - w['t0'] > cap + 240:
                kill(w)
        time.sleep(0.1)
    out = {'runs': [], 'viol': [], 'harness': [], 'known': {}, 'hung': [],
           'faults': {}, 'probes': {}, 'simtime': 0.0, 'steps': 0, 'dead': [],
           'samples': []}
    for w in ws:
        w['err'].close()
        done = False
        for r in results(w):
            k = r['kind']
            if k == 'viol':
                out['viol'].append(r)
            elif k == 'harness':
                out['harness'].append(r)
            elif k == 'known':
                out['known'][r['code']] = out['known'].get(r['code'], 0) + 1
            elif k == 'sample':
                out['samples'].append({'run': r['index'],
                                       'schedule': r['trace'],
                                       'log': r['log']})
            elif k == 'done':
                done = True
                out['runs'] += r['runs']
                for f in ('faults', 'probes'):
                    for n, c in r['agg'][f].items():
                        out[f][n] = out[f].get(n, 0) + c
                out['simtime'] += r['agg']['simtime']
                out['steps'] += r['agg']['steps']
        if not done and not any(h[1] is w for h in hung):
            out['dead'].append(errtail(w))
    out['hung'] = [i for i, _ in hung]
    out['runs'].sort()
    return out


def gen_trace(pid, seed, tier, index, tmp):
    """A trace by index (the generator is a pure function)."""
    code = ('import sys,json; sys.path.insert(0,%r); sys.argv=["x",%r]\n'
            'import worker\n'
            'prop=worker.load_prop(%r)\n'
            't=worker.make_trace(prop,%r,%d,%d,%r)\n'
            'open(%r,"w").write(worker.core.dumps(t))\n')
    wd = os.path.join(tmp, 'gen')
    os.makedirs(wd, exist_ok=True)
    cpath = os.path.join(wd, 'cfg.json')
    with open(cpath, 'w') as f:
        json.dump({'repo': REPO, 'mode': 'none'}, f)
    opath = os.path.join(wd, 'trace.json')
    src = os.path.join(wd, 'g.py')
    with open(src, 'w') as f:
        f.write(code % (SIM, cpath, pid, pid, seed, index, str(tier), opath))
    subprocess.run([JY, src], cwd=wd, env=env_for(wd), timeout=120,
                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, check=True)
    with open(opath) as f:
        return json.load(f)


def confirm(pid, viol, tmp, findings, min_budget):
    """Minimise and replay in fresh processes -> (record or None)."""
    for attempt in range(2):
        m = solo(pid, viol['trace'], tmp, 'min%d' % attempt, findings,
                 mode='min', limit=min_budget + 200, budget=min_budget,
                 code=viol['code'])
        if m.get('kind') == 'min' and m.get('reproduced'):
            for cand in (m['trace'], viol['trace']):
                r = solo(pid, cand, tmp, 'rep%d' % attempt, findings)
                if r.get('code'):
                    return {'trace': cand, 'code': r['code'],
                            'detail': r['detail'], 'log': r.get('log'),
                            'digest': r.get('digest'),
                            'minimised': cand is m['trace'],
                            'tried': m.get('tried')}
        r = solo(pid, viol['trace'], tmp, 'rep', findings)
        if r.get('code'):
            return {'trace': viol['trace'], 'code': r['code'],
                    'detail': r['detail'], 'log': r.get('log'),
                    'digest': r.get('digest'), 'minimised': False, 'tried': 0}
    return None


def write_replay(pid, seed, tier, index, rec):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-run%s.json' % (pid, seed, index))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'tier': tier, 'run': index,
                   'code': rec['code'], 'detail': rec['detail'],
                   'minimised': rec.get('minimised'),
                   'candidates_tried': rec.get('tried'),
                   'digest': rec.get('digest'),
                   'log_tail': rec.get('log'), 'trace': rec['trace']}, f,
                  indent=1, sort_keys=True)
    return path


def run_check(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    spec = plan.PLAN[pid]
    workers = int(os.environ.get('VERIF_WORKERS', '0') or 0) or \
        min(8, os.cpu_count() or 1)
    nruns = spec[tier + '_runs']
    cap = spec.get(tier + '_cap', 240 if tier == 'quick' else 3600)
    findings = findings_for(pid)
    tmp = scratch()
    rc = 2
    try:
        out = search(pid, seed, tier, nruns, cap, workers, tmp, findings)
        violation = None
        msgs = []
        hang_checked = 0
        for i in sorted(out['hung'])[:1]:
            trace = gen_trace(pid, seed, tier, i, tmp)
            r = solo(pid, trace, tmp, 'hang', findings, limit=200)
            hang_checked += 1
            if r.get('hang'):
                violation = (i, {'trace': trace, 'code': 'no-progress',
                                 'detail': 'the run does not finish (%d s in '
                                 'the batch, 200 s alone)' % HANG_S,
                                 'minimised': False})
            else:
                msgs.append('run %d hung in the batch only: %r' % (i, r))
        if violation is None and out['viol']:
            # smallest run index first; distinct codes are all tried
            seen = set()
            for v in sorted(out['viol'], key=lambda v: v['index']):
                if v['code'] in seen and len(seen) > 2:
                    continue
                seen.add(v['code'])
                rec = confirm(pid, v, tmp, findings,
                              spec.get('min_budget', 40))
                if rec:
                    violation = (v['index'], rec)
                    break
                msgs.append('run %d: %s did not reproduce in a fresh process\n%s'
                            % (v['index'], v['code'], v['detail'][:1500]))
        wall = time.time() - t0
        write_evidence(pid, seed, tier, spec, out, wall, workers, nruns,
                       violation, findings)
        for code in sorted(findings):
            print('KNOWN-FINDING: property=%s %s [%s; seen in %d runs]' %
                  (pid, findings[code], code, out['known'].get(code, 0)))
        if violation is not None:
            path = write_replay(pid, seed, tier, violation[0], violation[1])
            print('violation code: %s' % violation[1]['code'])
            print('detail: %s' % violation[1]['detail'][:2000])
            print('replay with: python3 %s replay %s' %
                  (os.path.join(HERE, 'check.py'), path))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
        elif msgs or out['harness'] or out['dead'] or out['hung']:
            for m in msgs:
                print('UNCONFIRMED: ' + m)
            for h in out['harness'][:3]:
                print('HARNESS ERROR in run %s:\n%s' % (h['index'], h['text']))
            for d in out['dead'][:3]:
                print('WORKER DIED:\n' + d)
            rc = 2
        elif len(out['runs']) < spec.get('min_runs', min(nruns, 40)):
            print('too few runs finished: %d' % len(out['runs']))
            rc = 2
        else:
            missing = [p for p in spec.get('must_reach', ())
                       if not out['probes'].get(p) and not out['faults'].get(p)]
            print('%s: held on %d simulated runs (%d distinct) in %.1f s' %
                  (pid, len(out['runs']), len(set(r[2] for r in out['runs'])),
                   wall))
            if missing:
                print('note: never reached: ' + ', '.join(missing))
            rc = 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc


def write_evidence(pid, seed, tier, spec, out, wall, workers, nruns, violation,
                   findings):
    runs = out['runs']
    dig = hashlib.sha256('\n'.join('%d %s' % (r[0], r[1])
                                   for r in runs).encode()).hexdigest()
    nontriv = set(r[2] for r in runs if r[3])
    samples = sorted(out['samples'], key=lambda x: x['run'])[:3]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(runs),
            'distinct_nontrivial': len(nontriv),
            'rule': spec['rule'],
            'samples': samples,
            'planned_runs': nruns,
            'runs_per_hour': int(len(runs) / max(wall, 0.1) * 3600),
            'seeds_per_hour': int(len(runs) / max(wall, 0.1) * 3600),
            'simulated_seconds': round(out['simtime'], 1),
            'steps': out['steps'],
            'faults_injected': dict(sorted(out['faults'].items())),
            'reach_probes': dict(sorted(out['probes'].items())),
            'probes_at_zero': [p for p in spec.get('must_reach', ())
                               if not out['probes'].get(p) and
                               not out['faults'].get(p)],
            'event_log_digest': dig,
            'real_components': spec['real'],
            'stubbed_components': spec['stub'],
            'workers': workers,
            'known_findings_seen': out['known'],
        },
        'wall_s': round(wall, 2),
    }
    if violation is not None:
        ev['coverage']['violation'] = {'run': violation[0],
                                       'code': violation[1]['code']}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def replay(path):
    with open(path) as f:
        r = json.load(f)
    pid = r['property']
    tmp = scratch()
    try:
        res = solo(pid, r['trace'], tmp, 'replay', findings_for(pid))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if res.get('hang'):
        res = {'code': 'no-progress', 'detail': 'does not finish'}
    for line in res.get('log') or []:
        print('  ' + line)
    print('code: %s' % res.get('code'))
    print(res.get('detail') or res.get('crash') or '')
    if res.get('code'):
        print('digest: %s (recorded %s)' % (res.get('digest'), r.get('digest')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0 if res.get('kind') == 'replay' and not res.get('harness') else 2


def determinism(pids):
    """Every seed twice, at two worker counts, under two hash seeds."""
    bad = 0
    seeds = int(os.environ.get('DET_SEEDS', '2'))
    for pid in pids or sorted(plan.PLAN):
        n = int(os.environ.get('DET_RUNS', '0')) or \
            min(plan.PLAN[pid]['quick_runs'], 160)
        for seed in range(1, seeds + 1):
            tmp = scratch()
            try:
                a = search(pid, seed, 'quick', n, 600, 8, tmp,
                           findings_for(pid), 'a', 0)
                b = search(pid, seed, 'quick', n, 600, 5, tmp,
                           findings_for(pid), 'b', 12345)
                da = dict((r[0], r[1]) for r in a['runs'])
                db = dict((r[0], r[1]) for r in b['runs'])
                diff = sorted(i for i in da if db.get(i) != da[i])
                err = (len(a['harness']) + len(a['dead']) + len(a['viol']) +
                       len(b['harness']) + len(b['dead']) + len(b['viol']))
                print('%s seed %d: %d runs, %d differ %s%s' %
                      (pid, seed, len(da), len(diff), diff[:5],
                       ' (errors: %d)' % err if err else ''))
                sys.stdout.flush()
                bad += len(diff) + err
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


def survey(pid, n):
    """All distinct failures among n runs (for development)."""
    tmp = scratch()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        out = search(pid, seed, 'quick', n, 1200, 8, tmp, findings_for(pid),
                     survey=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    groups = {}
    for v in sorted(out['viol'], key=lambda v: v['index']):
        fr = re.findall(r'File "(/repo[^"]*|%s[^"]*)", line (\d+)' %
                        re.escape(REPO), v['detail'])
        key = (v['code'], fr[-1] if fr else '')
        groups.setdefault(key, []).append(v)
    os.makedirs('/tmp/survey', exist_ok=True)
    for k, vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        v = vs[0]
        path = '/tmp/survey/%s-%d.json' % (pid, v['index'])
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'run': v['index'],
                       'code': v['code'], 'detail': v['detail'],
                       'trace': v['trace']}, f)
        print('%5d x %s %s  %s' % (len(vs), k[0], k[1], path))
        print('        ' + v['detail'].strip()[-400:].replace('\n',
                                                             '\n        '))
    for h in out['harness'][:3] + out['dead'][:3]:
        print('HARNESS', h)
    print(len(out['runs']), 'runs', out['hung'])


def setup():
    """Nothing to build (pure Python); check the interpreter and the import of
    the simulator."""
    for p in (JY, os.path.join(SIM, 'worker.py')):
        if not os.path.exists(p):
            print('missing ' + p)
            return 1
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    return 0


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'run':
        sys.exit(run_check(sys.argv[2]))
    if cmd == 'replay':
        sys.exit(replay(sys.argv[2]))
    if cmd == 'determinism':
        sys.exit(determinism(sys.argv[2:]))
    if cmd == 'survey':
        survey(sys.argv[2], int(sys.argv[3]))
        sys.exit(0)
    if cmd == 'setup':
        sys.exit(setup())
    if cmd == 'trace':
        t = scratch()
        print(json.dumps(gen_trace(sys.argv[2], int(sys.argv[3]), 'quick',
                                   int(sys.argv[4]), t), indent=1))
        shutil.rmtree(t)
        sys.exit(0)
    sys.exit(2)
