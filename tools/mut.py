#!/usr/bin/env python3
"""mut.py PROP [-o ONLY] FILE OLD NEW: run a check on a scratch copy with one textual mutation (development tool)."""
import sys, subprocess, tempfile, os, shutil
a = sys.argv[1:]
prop = a.pop(0)
env = dict(os.environ)
if a[0] == '-o':
    env['VERIF_ONLY'] = a[1]; a = a[2:]
t = tempfile.mkdtemp(prefix='mut', dir='/tmp')
try:
    subprocess.check_call(['cp', '-a', '/repo', t + '/repo'])
    while a:
        f, old, new = a[:3]; a = a[3:]
        p = t + '/repo/src/sofa/pbrpc/' + f
        s = open(p).read()
        if s.count(old) < 1:
            print('NO SUCH TEXT', f, old); sys.exit(3)
        open(p, 'w').write(s.replace(old, new, 1))
    env.update(VERIF_REPO=t + '/repo', VERIF_EVID=t)
    r = subprocess.run(['./check', prop, 'quick'], cwd='/verif', env=env, capture_output=True, text=True)
    print([l for l in r.stdout.splitlines() if l.strip()][-2:], r.returncode)
    rp = t + '/replay-%s.txt' % prop
    if os.path.exists(rp):
        print('\n'.join(l[:200] for l in open(rp) if l.startswith('==')))
finally:
    shutil.rmtree(t)
