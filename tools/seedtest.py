"""Try the planted bugs: seedtest.py [--nocheck] [id ...].  Builds, tests and runs the demo in /repo (restored afterwards); the checks run on scratch copies."""
import subprocess, sys, os, json, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): sh('git -C /repo checkout -- .')
res = {}
if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('repo dirty')
sh('bash /opt/vp/build.sh')
if '--noeval' not in sys.argv:
    for i in ids:
        d = '%s/seeded/%s' % (V, i); r = res[i] = {}
        r['demo clean'] = sh('bash %s/demo.sh' % d, cwd='/repo').returncode
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode: r['apply'] = a.stderr; restore(); continue
        b = sh('bash /opt/vp/build.sh')
        r['build'] = b.returncode
        if b.returncode: r['log'] = b.stdout[-1500:]
        else:
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            p = set(json.load(open('/tmp/seedtest.json'))['passed'])
            r['tests'] = 'ok' if stable <= p else sorted(stable - p)
            x = sh('bash %s/demo.sh' % d, cwd='/repo'); r['demo bug'] = x.returncode; r['out'] = (x.stdout + x.stderr)[-300:]
        restore()
        good = r['demo clean'] == 0 and r['build'] == 0 and r.get('tests') == 'ok' and r['demo bug'] != 0
        print(i, 'COUNTS' if good else 'NO', r, flush=True)
    sh('bash /opt/vp/build.sh')
if '--nocheck' in sys.argv: sys.exit()
def check(i):
    d = '%s/seeded/%s' % (V, i); prop = json.load(open(d + '/meta.json'))['property']; w = '/tmp/seedck/' + i
    sh('rm -rf %s; mkdir -p /tmp/seedck; cp -a /repo %s' % (w, w)); a = sh('git -C %s apply %s/patch.diff' % (w, d))
    x = sh('python3-vt cverify/check.py %s' % prop, cwd=V, env=dict(os.environ, VF_REPO=w, VF_EVIDENCE='/tmp/seedck/ev-' + i, VERIF_SEED='1', VERIF_TIER='quick'))
    sh('rm -rf %s' % w); v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
    return i, prop, x.returncode, v, x.stdout.splitlines()[-6:], x.stderr[-300:]
with ThreadPoolExecutor(3) as ex:
    for i, p, rc, v, tail, err in ex.map(check, ids): print(i, p, 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc, v if v else tail, err, flush=True)
