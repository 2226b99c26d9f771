#!/usr/bin/env python3
"""mkpatch.py ID FILE <<EOF  (blocks OLD / ==== / NEW, separated by lines
'@@@@ [file]'): writes seeded/ID/patch.diff from a scratch copy of /repo."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, fn = sys.argv[1:3]
W = '/tmp/w/'
if not os.path.isdir(W):
    subprocess.check_call(['cp', '-a', '/repo', '/tmp/w'])
else:
    subprocess.check_call(['git', '-C', W, 'pull', '-q', '/repo', 'HEAD'])
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
blocks, cur = [], [fn, '']
for line in sys.stdin.read().split('\n'):
    if line.startswith('@@@@'):
        blocks.append(cur)
        cur = [line[4:].strip() or cur[0], '']
    else:
        cur[1] += line + '\n'
blocks.append(cur)
for f, text in blocks:
    old, new = text.split('\n====\n')
    old, new = old.strip('\n'), new.strip('\n')
    s = open(W + f).read()
    if s.count(old) != 1:
        sys.exit('%s: %d occurrences of\n%s' % (f, s.count(old), old))
    open(W + f, 'w').write(s.replace(old, new))
d = subprocess.check_output(['git', '-C', W, 'diff'])
with open(os.path.join(HERE, 'seeded', sid, 'patch.diff'), 'wb') as f:
    f.write(d)
subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
print(sid, len(d.splitlines()), 'diff lines')
