#!/usr/bin/env python3
"""Try a planted bug in scratch copies: plant.py ID [--tests] [--nocheck].

Builds scratch trees under /tmp (removed afterwards), confirms that demo.sh
passes without and fails with the patch, optionally that the stable tests
still pass, and runs the check of its property against the patched tree."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def demo(sid, cwd, tmp):
    d = os.path.join(tmp, 'demo')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, 'seeded', sid), d,
                    ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300)
    return p.returncode, p.stdout.decode('utf-8', 'replace')[-600:]


def main():
    sid = sys.argv[1]
    meta = json.load(open(os.path.join(HERE, 'seeded', sid, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='plant.')
    try:
        tree = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', tree, symlinks=True)
        rc0, out0 = demo(sid, tree, tmp)
        subprocess.check_call(['git', '-C', tree, 'apply', os.path.join(
            HERE, 'seeded', sid, 'patch.diff')])
        rc1, out1 = demo(sid, tree, tmp)
        print(sid, 'demo: clean rc=%d patched rc=%d' % (rc0, rc1),
              'OK' if rc0 == 0 and rc1 != 0 else 'BAD')
        if rc0:
            print(out0)
        if '-v' in sys.argv:
            print(out1)
        if '--tests' in sys.argv:
            # run the tests in the copy (same command as /opt/vp/test.sh uses)
            out = os.path.join(tmp, 't.json')
            script = os.path.join(tmp, 'test.sh')
            with open(script, 'w') as f:
                f.write(open('/opt/vp/test.sh').read().replace(
                    'cd /repo ', 'cd %s ' % tree))
            subprocess.run(['bash', script, out], cwd=tree,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            got = json.load(open(out))['passed']
            print('  LOST', sorted(set(base) - set(got))[:5])
        if '--nocheck' not in sys.argv:
            pid = meta['property']
            env = dict(os.environ, VERIF_REPO=tree,
                       VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                       VERIF_TIER='quick')
            p = subprocess.run([sys.executable, 'check.py', 'run', pid],
                               cwd=HERE, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            o = p.stdout.decode('utf-8', 'replace')
            print('  check', pid, 'rc=%d' % p.returncode,
                  'CAUGHT' if p.returncode == 1 else 'MISSED')
            print('   ', '\n    '.join(o.strip().splitlines()[-4:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
