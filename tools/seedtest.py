#!/usr/bin/env python3
"""Runs planted changes: seedtest.py [--check] [--all-checks] [id ...]

For each /verif/seeded/<id>: the demo passes on the clean tree, the patch
applies, builds, keeps the stable tests, the demo fails, and (--check) the
property's own check reports it (--checks C01,C02 runs others too). /repo is
restored afterwards. Development tool; no registered check uses it.
"""
import json, os, subprocess, sys, time
R, V = '/repo', '/verif/seeded'
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def clean(): sh(['git','-C',R,'checkout','--','.'])
a = sys.argv[1:]
check = '--check' in a
skip = '--fast' in a       # no rebuild, no tests: only the checks
extra = [x.split('=',1)[1].split(',') for x in a if x.startswith('--checks=')]
ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
assert not sh(['git','-C',R,'status','--porcelain','-uno']).stdout.strip()
if not skip:
    assert sh(['bash','/opt/vp/build.sh']).returncode == 0
for i in ids:
    d = V + '/' + i
    if not os.path.exists(d + '/patch.diff'): continue
    prop = json.load(open(d + '/meta.json'))['property']
    out = [i, prop]
    if not skip:
        r = sh(['bash', d + '/demo.sh'], cwd=R)
        out.append('clean=%d' % r.returncode)
        if r.returncode: out.append(r.stdout[-300:])
    try:
        r = sh(['git','-C',R,'apply',d+'/patch.diff'])
        if r.returncode: print(*out, 'DOES NOT APPLY', r.stdout); continue
        if not skip:
            r = sh(['bash','/opt/vp/build.sh'])
            out.append('build=%d' % r.returncode)
            sh(['bash','/opt/vp/test.sh','/tmp/seed.json'])
            lost = base - set(json.load(open('/tmp/seed.json'))['passed'])
            out.append('lost=%d %s' % (len(lost), sorted(lost)[:2] if lost else ''))
            r = sh(['bash', d + '/demo.sh'], cwd=R)
            out.append('demo=%d (%s)' % (r.returncode, r.stdout.strip()[-80:]))
        if check or extra:
            for p in ([prop] if check else []) + (extra[0] if extra else []):
                t = time.time()
                r = sh([sys.executable, '/verif/run.py', p], env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                hit = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
                out.append('%s:%s(%.0fs)' % (p, 'CAUGHT' if hit else 'rc%d' % r.returncode, time.time()-t))
    finally:
        clean()
    print(*out, flush=True)
if not skip: sh(['bash','/opt/vp/build.sh'])
