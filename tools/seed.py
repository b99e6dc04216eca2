#!/usr/bin/env python3
"""Makes or re-checks a planted bug. seed.py make ID PROP FILE OLD NEW [FILE OLD NEW ...] (demo.sh, meta text already in seeded/ID or added later); seed.py test ID..."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
cmd = sys.argv[1]
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo is not clean'
if cmd == 'make':
    i, prop = sys.argv[2:4]
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    a = sys.argv[4:]
    for k in range(0, len(a), 3):
        f, old, new = a[k:k + 3]
        s = open('/repo/' + f).read()
        assert s.count(old) >= 1, (f, old)
        open('/repo/' + f, 'w').write(s.replace(old, new, 1))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    clean()
else:
    for i in sys.argv[2:]:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        try:
            bare = '/tmp/demo_%s' % i
            sh('rm -rf %s; cp -r %s %s; rm -f %s/patch.diff %s/meta.json' % (bare, d, bare, bare, bare))
            r0 = sh('cd /repo && timeout 300 bash %s/demo.sh' % bare)
            assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
            b = sh('bash /opt/vp/test.sh /tmp/out.json')
            res = json.load(open('/tmp/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            lost = [t for t in base if t not in res['passed']]
            r1 = sh('cd /repo && timeout 300 bash %s/demo.sh' % bare)
            sh('rm -rf ' + bare)
            r = sh('./check ' + meta['property'], cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, 'demo', r0.returncode, r1.returncode, 'lost', lost, 'check', r.returncode, v[:1], 'OK' if r0.returncode == 0 and r1.returncode and not lost and r.returncode == 1 and v else 'BAD', flush=True)
            if r0.returncode or not r1.returncode: print(r0.stdout[-300:], r0.stderr[-600:], r1.stdout[-300:], r1.stderr[-300:])
        finally:
            clean()
    sh('bash /opt/vp/build.sh')
