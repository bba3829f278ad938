#!/usr/bin/env python3-vt
"""Decide one property: build /repo's current tree, discharge its contract harness, replay failures natively.

  check.py C02 [--tier quick|thorough] [--proof NAME]
"""
import sys, os, time, json, re, shutil, subprocess, tempfile, threading, traceback
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF
EVID = os.environ.get('VF_EVIDENCE', os.path.join(VERIF, 'evidence'))


def header(path):
    """directives in the harness: // OVERRIDE regex => stub ; // OPT proof key=value ... ; // ASSUME text"""
    ov, opt, assume, ext = [], {}, [], []
    txt = open(path).read()
    for m in re.finditer(r'^// (OVERRIDE|OPT|ASSUME|NATIVE|MERGE) (.*)$', txt, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == 'OVERRIDE':
            a, b = v.split('=>')
            ov.append((a.strip(), b.strip()))
        elif k == 'OPT':
            w = v.split()
            opt.setdefault(w[0], {}).update({x.split('=')[0]: int(x.split('=')[1]) for x in w[1:]})
        elif k == 'ASSUME':
            assume.append(v)
        elif k == 'MERGE':
            MERGE_RE.append(v)
        else:
            ext.append(v)
    return ov, opt, assume, ext


MERGE_RE = []
MERGE = set()
MOD = None
INIT = None
OV = {}
DEM = None


def run_proof(a):
    name, opts = a
    import engine
    t = time.time()
    try:
        en = engine.Engine(MOD, opts)
        en.demangled = DEM
        en.overrides = OV
        en.merge = MERGE
        if INIT is not None:
            en.gid, en.gmem, en.gnext = dict(INIT[1]), INIT[2], INIT[3]
        r = en.prove('@vf_proof_' + name, INIT[0] if INIT else None)
        if engine.PROFILE:
            for k, n in sorted(engine.PROFILE.items(), key=lambda x: -x[1])[:25]:
                print('  fork', n, k)
        obs = []
        for o in r['obligations'].values():
            obs.append(dict(label=o.label, ok=o.ok, unknown=o.unknown, time=o.time, backend=sorted(o.backend), failed=[[(n, k, enc(k, v)) for n, k, v in f] for f in o.failed[:3]]))
        reach = sorted({en.dem(n).split('(')[0] for n in en.reach})
        return dict(name=name, error=r['error'], obs=obs, covers=r['covers'], paths=r['paths'], ended=r['ended'], seconds=r['seconds'], steps=r['steps'],
                    bounds=r['bounds'], solver_s=en.solver.time, solver_calls=en.solver.calls, reach=reach, notes=sorted(set(getattr(en, 'notes', []))))
    except Exception as e:
        return dict(name=name, error='internal: %r' % e, trace=traceback.format_exc(), obs=[], covers={}, paths=0, ended=0, seconds=time.time() - t, steps=0,
                    bounds=[], solver_s=0, solver_calls=0, reach=[], notes=[])


def enc(k, v):
    if k == 'str':
        return ''.join('%02x' % (ord(c) & 255) for c in v)
    return str(v)


def write_replay(path, prop, proof, label, nds, text):
    with open(path, 'w') as f:
        f.write('# property %s\n# harness proof %s\n# failed obligation: %s\n' % (prop, proof, label))
        for l in text.split('\n'):
            f.write('# %s\n' % l)
        f.write('# replay: native harness --proof %s --replay <this file>\n' % proof)
        for n, k, v in nds:
            f.write('%s %s %s\n' % (n.replace(' ', '_'), k, v))


def native_run(exe, args, secs):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=secs, env=env, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, '', 'timeout'


def parse_native(out):
    label, nds = '', []
    for l in out.split('\n'):
        if l.startswith('FAILED '):
            label = l[7:]
        else:
            w = l.split(' ', 2)
            if len(w) >= 2 and w[1] in ('int', 'real', 'str') and label:
                nds.append((w[0], w[1], w[2] if len(w) > 2 else ''))
    return label, nds


def main():
    global MOD, OV, DEM, INIT
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--proof':
            only = a.pop(0)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    harness = os.path.join(VERIF, 'harness', prop + '.cpp')
    ov, opt, assume, ext = header(harness)
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    known.append(d)
    code = 2
    try:
        code = decide(prop, tier, seed, harness, ov, opt, assume, ext, work, known, only, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(prop, tier, seed, harness, ov, opt, assume, ext, work, known, only, t0):
    global MOD, OV, DEM, INIT
    nat = {}

    def build_native():
        try:
            nat['exe'] = build.native_exe(harness, os.path.join(work, 'nat'), ext)
        except Exception as e:
            nat['err'] = str(e)
    th = threading.Thread(target=build_native)
    merr = None
    proofs = re.findall(r'^PROOF\((\w+)\)', open(harness).read(), re.M)
    if only:
        proofs = [p for p in proofs if p == only]
    try:
        ll = build.model_module(harness, os.path.join(work, 'mod'))
    except Exception as e:
        merr = 'the sources do not compile against the model headers: %s' % e
    th.start()
    results = []
    if merr is None:
        from ir import Module
        import engine
        MOD = Module(open(ll).read())
        en = engine.Engine(MOD)
        en.dem('')
        DEM = en.demangled
        for pat, stub in ov:
            hit = [n for n, d in DEM.items() if n in MOD.funcs and re.search(pat, d)]
            for n in hit:
                OV[n] = '@' + stub
        for pat in MERGE_RE:
            MERGE.update(n for n, d in DEM.items() if n in MOD.funcs and re.search(pat, d))
        INIT = None
        if opt.get('*', {}).get('init'):
            try:
                INIT = run_init(MOD)
            except Exception as e:
                merr = 'static initialisation could not be executed: %r' % e
    if merr is None:
        jobs = []
        for p in proofs:
            o = dict(timeout=20000, max_time=150 if tier == 'quick' else 900)
            for k in ('*', p):
                o.update({'max_time' if kk == 'time' else kk: vv for kk, vv in opt.get(k, {}).items() if kk not in ('init', 'search', 'nsecs')})
            if tier != 'quick':
                o['max_time'] = max(900, o['max_time'])
            jobs.append((p, o))
        jobs.sort(key=lambda j: -opt.get(j[0], {}).get('weight', 0))
        with mp.get_context('fork').Pool(min(8, max(1, len(jobs)))) as pool:
            results = pool.map(run_proof, jobs, chunksize=1)
    th.join()
    exe = nat.get('exe')
    if exe is None and merr is not None:
        print('check error: neither the verifier nor the native harness could be built')
        print(merr)
        print(nat.get('err'))
        return 2
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol = []     # (proof, label, replay, no_input)
    undecided = []
    # ---- failed obligations
    for r in results:
        fails = [(o, f) for o in r['obs'] for f in o['failed']]
        for o, f in fails[:1]:
            path = os.path.join(rdir, '%s_%s.txt' % (prop, r['name']))
            write_replay(path, prop, r['name'], o['label'], f, 'z3 reports the negated obligation satisfiable on a path of the current source')
            conf = False
            if exe:
                rc, out, err = native_run(exe, ['--proof', r['name'], '--replay', path], 40)
                if rc == 1:
                    conf = True
                    lab, _ = parse_native(out)
                    with open(path, 'a') as fo:
                        fo.write('# native replay: %s\n' % lab)
                else:
                    rc2, out2, err2 = native_run(exe, ['--proof', r['name'], '--search', '3000000', '--secs', '20', '--seed', str(seed)], 60)
                    if rc2 == 1:
                        lab, nds = parse_native(out2)
                        write_replay(path, prop, r['name'], lab, nds, 'failed obligation in the verifier: %s\nfailing input found by searching the same contract natively' % o['label'])
                        conf = True
                    else:
                        with open(path, 'a') as fo:
                            fo.write('# native replay of this model did not fail (rc %d): %s\n' % (rc, (out or err).strip().replace('\n', ' | ')[:600]))
            viol.append((r['name'], o['label'], path, not conf))
        if not fails and (r['error'] or any(o['unknown'] for o in r['obs'])):
            undecided.append((r['name'], r['error'] or 'solver unknown: ' + ', '.join(o['label'] for o in r['obs'] if o['unknown'])))
        if not fails and not r['error'] and (r['ended'] == 0 or not r['obs']):
            undecided.append((r['name'], 'vacuous: no path reached the end of the harness'))
        for c, ok in r['covers'].items():
            if not ok:
                undecided.append((r['name'], 'vacuous: %s unreachable' % c))
    # ---- bounded stand-in: the same contracts executed natively
    nruns = 0
    nres = {}
    if exe:
        failed = {v[0] for v in viol}
        secs = opt.get('*', {}).get('nsecs', 4) if tier == 'quick' else 40
        todo = [p for p in proofs if p not in failed]
        lock = threading.Lock()

        def w(p):
            n = opt.get(p, {}).get('search', opt.get('*', {}).get('search', 40000))
            extra = 3 if any(u[0] == p for u in undecided) or merr else 1
            return p, native_run(exe, ['--proof', p, '--search', str(n * extra * (1 if tier == 'quick' else 20)), '--secs', str(secs * extra), '--seed', str(seed)], secs * extra + 60)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for p, (rc, out, err) in ex.map(w, todo):
                m = re.search(r'runs (\d+) skipped (\d+)', out)
                if m:
                    nruns += int(m.group(1))
                    nres[p] = int(m.group(1))
                if rc == 1:
                    lab, nds = parse_native(out)
                    path = os.path.join(rdir, '%s_%s.txt' % (prop, p))
                    write_replay(path, prop, p, lab, nds, 'contract violated when executed natively (bounded stand-in)\n' + err[-1500:])
                    viol.append((p, lab, path, False))
    # ---- report
    nk = 0
    real = []
    for v in viol:
        k = [d for d in known if d.get('proof') == v[0] and re.search(d.get('obligation', '.'), v[1])]
        if k:
            nk += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else:
            real.append(v)
    total = disc = bounded_total = bounded_disc = 0
    solver_s = 0.0
    per = []
    backends = set()
    funcs = set()
    for r in results:
        solver_s += r['solver_s']
        funcs |= {f for f in r['reach'] if not f.startswith(('std::', 'void std::', 'bool std::', 'vf_', '__gnu', 'fmt::'))}
        proved = not r['error'] and not any(o['unknown'] or o['failed'] for o in r['obs']) and r['ended'] > 0
        n = sum(o['ok'] + o['unknown'] + len(o['failed']) for o in r['obs'])
        d = sum(o['ok'] for o in r['obs'])
        for o in r['obs']:
            backends |= set(o['backend'])
        if r['bounds']:
            bounded_total += n
            bounded_disc += d if proved else 0
        else:
            total += n if n else 1
            disc += d if not r['error'] else 0
        per.append(dict(proof=r['name'], status='proved' if proved and not r['bounds'] else 'bounded' if proved else 'failed' if any(o['failed'] for o in r['obs']) else 'undecided',
                        bounds=r['bounds'], obligations=n, discharged=d, paths=r['paths'], solver_s=round(r['solver_s'], 2), wall_s=round(r['seconds'], 2), error=r['error'],
                        loops=r['notes'], contracts=[o['label'] for o in r['obs']]))
    level = 'proof' if results and total and disc == total and not bounded_total else 'other'
    cov = dict(obligations=total, discharged=disc, bounded_obligations=bounded_total, bounded_discharged=bounded_disc,
               checker_cmd='python3-vt cverify/check.py %s' % prop, back_ends=sorted(backends), solver_seconds=round(solver_s, 2),
               functions_under_contract=sorted(funcs), proofs=per, native_contract_runs=nruns, undecided=[list(u) for u in undecided],
               trusted_base=TRUSTED, explanation='%d of %d unbounded obligations discharged by z3 over the IR of the current tree; %d bounded obligations (sizes as listed per proof, contents symbolic) discharged; %d native executions of the same contracts' % (disc, total, bounded_disc, nruns))
    if merr:
        cov['model_error'] = merr[:2000]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assume + ASSUME, wall_s=round(time.time() - t0, 2), violations=len(real))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in per:
        print('%-24s %-9s obligations %d/%d paths %d %.1fs %s %s' % (p['proof'], p['status'], p['discharged'], p['obligations'], p['paths'], p['wall_s'], ','.join(p['bounds']), p['error'] or ''))
    for u in undecided:
        print('undecided: %s: %s' % u)
    if merr:
        print('model build:', merr[:1500])
    if nat.get('err'):
        print('native build:', nat['err'][-1500:])
    for pr, lab, path, noinp in real:
        print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(path, VERIF), ' no-failing-input-found' if noinp else ''))
        print('  failed obligation: %s: %s' % (pr, lab))
    if real:
        return 1
    return 0


def run_init(mod):
    """execute the static initialisers of all translation units once"""
    import engine
    en = engine.Engine(mod)
    st = engine.State()
    t, init, c = mod.global_init('@llvm.global_ctors')
    for tt, v in init[1]:
        fn = v[1][1][1]
        f = mod.func(fn[1])
        en.obl, en.covers, en.npaths, en.total_steps, en.bounds, en.notes = {}, {}, 0, 0, set(), []
        fr = engine.Frame(f, None, None, None)
        fr.loc['%%cur'] = f.entry
        st.frames = [fr]
        r = en.run(st, time.time())
        if r is not None:
            raise RuntimeError('static initialiser forks')
    st.frames = []
    return st, en.gid, en.gmem, en.gnext


TRUSTED = ['clang 18 front end and its sroa/early-cse/simplifycfg passes', 'cverify (IR semantics, path enumeration) and z3',
           'model headers in model/include as contracts of the C++ standard library and fmt']
ASSUME = ['floating point is treated as exact real arithmetic unless a proof says otherwise', 'object lifetime by reference counting is not modelled (objects live for ever)',
          'std:: containers, strings and fmt behave as the model headers say', 'allocation never fails']

if __name__ == '__main__':
    main()
