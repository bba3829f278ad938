import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine
from ir import Module
def main():
    h = sys.argv[1]; only = sys.argv[2:]
    t = time.time()
    ll = build.model_module('/verif/harness/%s.cpp' % h, '/tmp/w/dev_' + h)
    print('build', time.time() - t)
    m = Module(open(ll).read())
    print('parse', time.time() - t)
    for n in sorted(m.funcs):
        if n.startswith('@vf_proof_') and (not only or n[10:] in only):
            en = engine.Engine(m); en.verbose = True
            r = en.prove(n)
            print(n[10:], r['error'], 'paths', r['paths'], 'ended', r['ended'], 'steps', r['steps'], '%.1fs' % r['seconds'], r['bounds'], r['covers'])
            for o in r['obligations'].values():
                print('   ', o.label, 'ok', o.ok, 'unknown', o.unknown, o.backend, '%.2f' % o.time)
                for f in o.failed: print('       FAIL', f)
main()
