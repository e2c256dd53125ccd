#!/usr/bin/env python3-vt
"""check driver:  run.py <PROPERTY> [--thorough] [--repo DIR] [-v]

 1. extraction: every proof unit props/*.cpp includes the real sources of the repository; clang -> LLVM IR (each run)
 2. verification: every harness function is executed by the VC generator (sym.py); all obligations go to z3 / cvc5
 3. a failed obligation is replayed: the native driver (native/*.cpp, real code, g++) searches a concrete failing input;
    it also runs when everything is proved (bounded cross-check of the trusted base, never counted as proof)
"""
import sys, os, time, json, subprocess, multiprocessing, tempfile, shutil, importlib.util, traceback, re, signal
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, "props"))
CXX14 = ['-std=c++14', '-w', '-fno-access-control', '-DEIGEN_DONT_VECTORIZE']

def load_spec(pid):
    p = os.path.join(VERIF, 'props', pid + '.py')
    sp = importlib.util.spec_from_file_location('spec_' + pid, p)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m

def incdirs(work, repo):
    inc = os.path.join(work, 'inc'); os.makedirs(inc, exist_ok=True)
    l = os.path.join(inc, 'envire')
    if not os.path.exists(l): os.symlink(os.path.join(repo, 'src'), l)
    return inc

def sh(cmd, timeout=600):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)

def extract(work, repo, unit):
    """-> (path of bitcode, error text)"""
    inc = incdirs(work, repo)
    src = os.path.join(VERIF, 'props', unit['cpp'])
    name = os.path.basename(unit['cpp']).replace('.cpp', '')
    bc, bc2 = os.path.join(work, name + '.bc'), os.path.join(work, name + '.opt.bc')
    pre = []
    for (rel, fn) in unit.get('rewrite', []):          # mechanical, documented source rewrites
        d = os.path.join(work, 'rw'); dst = os.path.join(d, 'envire', rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        t = open(os.path.join(repo, 'src', rel)).read()
        t2 = fn(t)
        t2 = '#line 1 "%s"\n' % os.path.join(repo, 'src', rel) + t2
        open(dst, 'w').write(t2); pre = ['-I' + d]
    cmd = ['clang++'] + CXX14 + ['-O0', '-Xclang', '-disable-O0-optnone', '-g1', '-DEIGEN_NO_DEBUG', '-DVC_PROOF'] + unit.get('cflags', []) + \
        pre + ['-I' + os.path.join(VERIF, 'stubs/vc'), '-I' + inc, '-I' + os.path.join(VERIF, 'stubs/rock'), '-I' + os.path.join(repo, 'src'), '-I' + os.path.join(repo, 'src/core'), '-I/usr/include/eigen3',
               '-c', '-emit-llvm', src, '-o', bc]
    r = sh(cmd)
    if r.returncode: return None, r.stderr[-6000:]
    r = sh(['opt', '-passes=' + unit.get('passes', 'function(sroa,simplifycfg,early-cse)'), bc, '-o', bc2])
    if r.returncode: return None, r.stderr[-3000:]
    return bc2, None

def job_main(pid, ui, ji, bc, thorough, verbose, q):
    res = dict(obls=[], error=None, kind=None)
    t0 = time.time()
    try:
        import llvm, sym, faulthandler
        if os.environ.get("VC_STACK"): faulthandler.dump_traceback_later(int(os.environ["VC_STACK"]), repeat=True)
        spec = load_spec(pid)
        unit = spec.UNITS[ui]; job = unit['jobs'][ji]
        opts = dict(getattr(spec, 'OPTS', {})); opts.update(unit.get('opts', {})); opts.update(job.get('opts', {}))
        if verbose: opts['verbose'] = True
        if thorough: opts['obl_ms'] = 3 * opts.get('obl_ms', 20000)
        m = llvm.Module(bc)
        handlers = {}
        handlers.update(unit.get('handlers', {})); handlers.update(job.get('handlers', {}))
        contracts = dict(unit.get('contracts', {})); contracts.update(job.get('contracts', {}))
        loops = list(job.get('loops', [])) + list(unit.get('loops', []))
        mk = lambda: sym.Engine(m, loops=loops, contracts=contracts, handlers=handlers, opts=opts)
        e = sym.houdini(mk, job['fn'], verbose=verbose)
        res['obls'] = [dict(name=o.name, status=o.status, secs=round(o.secs, 3), backend=o.backend, model=o.model, where=o.where) for o in e.obls]
        res.update(paths=e.npaths, covers=e.covers, assumptions=sorted(e.assumptions),
                   funcs=sorted(e.dem.get(f, f) for f in e.funcs_seen), handlers=sorted(e.dem.get(f, f) for f in e.handlers_used),
                   contracts=sorted([list(map(str, c)) for c in e.contracts_used]), solver_s=round(e.solver_s, 2), queries=e.nqueries,
                   invariants=sorted(str(k[3]) for k in e.kept), inv_checks=getattr(e, 'inv_ok', 0), repo_lines=sorted(getattr(e, 'repo_funcs', [])))
    except Exception as ex:
        res['error'] = f'{type(ex).__name__}: {ex}'; res['tb'] = traceback.format_exc()[-9000:]
        try:
            pass
        except Exception: pass
    res['wall'] = round(time.time() - t0, 2)
    q.put((ui, ji, res))

def native_build(work, repo, nat):
    inc = incdirs(work, repo)
    out = os.path.join(work, 'native_' + os.path.basename(nat['cpp']).replace('.cpp', ''))
    objs = []
    base = CXX14 + ['-g1', nat.get('opt', '-O1'), '-I' + os.path.join(VERIF, 'native')] + nat.get('cflags', []) + \
        ['-I' + inc, '-I' + os.path.join(VERIF, 'stubs/rock'), '-I' + os.path.join(repo, 'src'), '-I' + os.path.join(repo, 'src/core'), '-I/usr/include/eigen3']
    san = nat.get('san', [])
    srcs = [os.path.join(VERIF, 'native', nat['cpp'])] + [os.path.join(repo, 'src', s) for s in nat.get('src', [])] + [os.path.join(VERIF, s) for s in nat.get('vsrc', [])]
    ps = []
    for i, s in enumerate(srcs):
        o = out + '.%d.o' % i; objs.append(o)
        ps.append((s, subprocess.Popen(['g++'] + base + san + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in ps:
        o, _ = p.communicate(timeout=600)
        if p.returncode: return None, f'compile {s}:\n' + o[-3000:]
    r = sh(['g++'] + san + objs + ['-o', out] + nat.get('libs', []))
    if r.returncode: return None, 'link:\n' + r.stderr[-3000:]
    return out, None

def native_main(work, repo, nat, seed, thorough, q):
    try:
        exe, err = native_build(work, repo, nat)
        if err: q.put(('native', dict(status='builderror', out=err))); return
        scratch = tempfile.mkdtemp(dir=work)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')
        tmo = nat.get('timeout', 60) * (4 if thorough else 1)
        p = subprocess.Popen([exe, str(seed), '10' if thorough else '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch, env=env, errors='replace', start_new_session=True)
        try:
            out, _ = p.communicate(timeout=tmo); to = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); to = True
        st = 'pass' if p.returncode == 0 else 'fail'
        if to: st = 'hang'
        q.put(('native', dict(status=st, out=out[-8000:], rc=p.returncode, exe=exe, scratch=scratch)))
    except Exception as ex:
        q.put(('native', dict(status='error', out=str(ex))))

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    pid = a[0]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv
    verbose = '-v' in sys.argv
    repo = os.environ.get('VC_REPO', '/repo')
    only = [x[5:] for x in sys.argv if x.startswith('--fn=')]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    evdir = os.environ.get('VC_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    t0 = time.time()
    spec = load_spec(pid)
    work = tempfile.mkdtemp(prefix='vc_' + pid + '_')
    try:
        rc = run(pid, spec, work, repo, thorough, verbose, seed, evdir, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def run(pid, spec, work, repo, thorough, verbose, seed, evdir, t0, only):
    q = multiprocessing.Queue()
    nats = getattr(spec, 'NATIVE', [])
    if isinstance(nats, dict): nats = [nats]
    if '--no-native' in sys.argv or only: nats = []
    procs = []
    for i, nat in enumerate(nats):
        w = os.path.join(work, 'nat%d' % i); os.makedirs(w)
        p = multiprocessing.Process(target=native_main, args=(w, repo, nat, seed, thorough, q)); p.start(); procs.append(p)
    # extraction (parallel)
    from concurrent.futures import ThreadPoolExecutor
    def ex(ui):
        w = os.path.join(work, 'u%d' % ui); os.makedirs(w)
        return extract(w, repo, spec.UNITS[ui])
    with ThreadPoolExecutor(8) as tp: bcs = list(tp.map(ex, range(len(spec.UNITS))))
    problems = []           # (unit, reason): verifier gave no verdict -> bounded stand-in
    pend = []; results = {}
    for ui, (bc, err) in enumerate(bcs):
        unit = spec.UNITS[ui]
        if bc is None:
            problems.append((unit['cpp'], 'extraction failed', err)); continue
        for ji, job in enumerate(unit['jobs']):
            if only and job['fn'] not in only: continue
            pend.append((ui, ji, bc))
    jq = multiprocessing.Queue()
    running = {}
    deadline = t0 + (2400 if thorough else getattr(spec, 'DEADLINE', 600))
    while pend or running:
        while pend and len(running) < 7:
            ui, ji, bc = pend.pop(0)
            p = multiprocessing.Process(target=job_main, args=(pid, ui, ji, bc, thorough, verbose, jq)); p.start()
            running[(ui, ji)] = p
        try:
            ui, ji, res = jq.get(timeout=0.2)
            results[(ui, ji)] = res
            p = running.pop((ui, ji), None)
            if p: p.join()
        except Exception: pass
        for k, p in list(running.items()):
            if not p.is_alive() and k not in results:
                time.sleep(0.3)
                while True:
                    try:
                        ui, ji, res = jq.get(timeout=0.3); results[(ui, ji)] = res; running.pop((ui, ji), None)
                    except Exception: break
                if k in running:
                    running.pop(k); results[k] = dict(obls=[], error='verifier process died', wall=0)
        if time.time() > deadline:
            for k, p in running.items(): p.kill(); results[k] = dict(obls=[], error='verifier wall limit', wall=0)
            for ui, ji, bc in pend: results[(ui, ji)] = dict(obls=[], error='verifier wall limit', wall=0)
            break
    natres = []
    for p in procs:
        natres.append(q.get()[1])
    for p in procs: p.join()
    # ------------------------------------------------------------- verdict
    obls = []; refuted = []; unknown = []
    funcs = set(); assum = set(getattr(spec, 'ASSUMPTIONS', [])); hand = set(); contr = set(); backends = {}; solver_s = 0; covers = {}; invs = {}
    perjob = []
    for (ui, ji), r in sorted(results.items()):
        unit = spec.UNITS[ui]; fn = unit['jobs'][ji]['fn']
        perjob.append(dict(harness=fn, unit=unit['cpp'], obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']), wall_s=r.get('wall'), paths=r.get('paths'), error=r['error'], invariants_kept=r.get('invariants')))
        if r['error']:
            problems.append((f"{unit['cpp']}:{fn}", r['error'], r.get('tb', '')))
            if os.environ.get('VC_TB'): print(r.get('tb', ''))
            continue
        if not r['obls']: unknown.append((fn, dict(name='(no obligation generated)', status='unknown', where=None, model=None, backend='', secs=0)))
        for n, ok in r['covers'].items():
            covers[fn + ':' + n] = ok
            if not ok: unknown.append((fn, dict(name='vacuity: "%s" reachable under the preconditions' % n, status='vacuous', where=None, model=None, backend='', secs=0)))
        for o in r['obls']:
            obls.append((fn, o)); backends[o['backend']] = backends.get(o['backend'], 0) + 1
            if o['status'] == 'refuted': refuted.append((fn, o))
            elif o['status'] != 'proved': unknown.append((fn, o))
        for f in r['funcs']: funcs.add(f)
        assum.update(r['assumptions']); hand.update(r['handlers']); contr.update(tuple(c) for c in r['contracts']); solver_s += r['solver_s']
    # replay of the verifier's counterexamples against the real code
    models = [(fn, o) for fn, o in refuted if o['model']]
    if models and not any(n['status'] in ('fail', 'hang') for n in natres):
        for n in natres:
            if n['status'] != 'pass': continue
            mf = os.path.join(work, 'model.txt')
            with open(mf, 'w') as f:
                for fn, o in models[:20]:
                    f.write('MODEL %s %s\n' % (fn, o['name'].replace(' ', '_')))
                    for k, vs in o['model'].items():
                        for v in vs: f.write('%s %s\n' % (k.replace(' ', '_'), v.replace(' ', '')))
            try:
                p = subprocess.run([n['exe'], str(seed), '0'], capture_output=True, text=True, cwd=n['scratch'], timeout=60, errors='replace',
                                   env=dict(os.environ, VC_MODEL=mf, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='halt_on_error=1'))
                if p.returncode == 1: n['status'] = 'fail'; n['out'] = 'replay of the verifier counterexample:\n' + (p.stdout + p.stderr)[-6000:] + n['out']
            except subprocess.TimeoutExpired:
                pass
    natfail = [n for n in natres if n['status'] in ('fail', 'hang')]
    natok = [n for n in natres if n['status'] == 'pass']
    natbad = [n for n in natres if n['status'] in ('builderror', 'error')]
    cases = 0
    for n in natres:
        m = re.findall(r'^CASES (\d+)', n['out'], re.M); cases += sum(map(int, m))
    replay = os.path.join(evdir, pid + '.replay.txt')
    failed = refuted + unknown
    if natfail or failed:
        with open(replay, 'w') as f:
            f.write(f'property {pid}\nrepo {repo}\n\nfailed obligations ({len(failed)}):\n')
            for fn, o in failed:
                f.write(f"  [{o['status']}] {fn}: {o['name']}  at {o['where']}  back end {o['backend']} {o['secs']}s\n")
                if o['model']: f.write('     counterexample (verifier): ' + json.dumps(o['model'])[:3000] + '\n')
            for p in problems: f.write('  [no verdict] %s: %s\n' % (p[0], p[1]))
            f.write('\nreplay against the real code (native driver, g++):\n')
            for n in natres: f.write(f"  status {n['status']} rc {n.get('rc')}\n{n['out']}\n")
    elif os.path.exists(replay): os.unlink(replay)
    for fn, o in failed: print(f"FAILED-OBLIGATION {fn}: {o['name']} [{o['status']}] {o['where'] or ''}")
    for p in problems: print(f'NO-VERDICT {p[0]}: {p[1]}' + (('\n' + p[2][-2500 if p[1].startswith('extraction') else -3500:]) if verbose or p[1].startswith('extraction') else ''))
    for n in natfail + natbad: print(f"NATIVE {n['status']}: " + n['out'][-1500:])
    proved = sum(o['status'] == 'proved' for _, o in obls)
    verdict = 'proved'
    if natfail or failed: verdict = 'violated'
    elif problems: verdict = 'bounded only (verifier gave no verdict for some harness)' if natok and not natbad else 'undecided'
    repo_funcs = sorted(f for f in funcs if 'envire::' in f and not f.startswith(('std::', 'boost::', 'void std::', 'Eigen::')))
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='proof' if getattr(spec, 'LEVEL', 'proof') == 'proof' else spec.LEVEL, wall_s=round(time.time() - t0, 2),
              coverage=dict(obligations=len(obls), discharged=proved,
                            checker_cmd='clang++ -O0 -emit-llvm (real sources) ; vc/sym.py VC generation ; z3 %s, cvc5' % z3v(),
                            trusted_base=TRUSTED + sorted(getattr(spec, 'TRUSTED', [])) + ['assumed library contract: ' + h for h in sorted(hand) if not h.startswith(('vc_', 'llvm.'))],
                            verdict=verdict, back_ends=backends, solver_seconds=round(solver_s, 2), functions_under_contract=repo_funcs,
                            contracts_assumed_at_calls=sorted(map(list, contr)), assumptions=sorted(assum), harnesses=perjob, vacuity_covers=covers,
                            no_verdict=[p[:2] for p in problems],
                            bounded_cross_check=dict(label='bounded, never counted as proved', cases=cases, results=[n['status'] for n in natres], description=[n.get('what', '') for n in nats])))
    ev['known_findings'] = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                print(l.strip()); ev['known_findings'].append(l.strip())
    if '--no-evidence' not in sys.argv: json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    print(f'{pid}: {verdict}; obligations {len(obls)}, discharged {proved}, solver {solver_s:.1f}s, native cases {cases}, wall {time.time() - t0:.1f}s')
    if verbose:
        for j in perjob: print('  ', j)
    if natfail:
        print(f'VIOLATION property={pid} replay={replay}'); return 1
    if failed:
        print(f'VIOLATION property={pid} replay={replay} no-failing-input-found'); return 1
    if verdict == 'undecided': return 2
    return 0

def z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return '?'
TRUSTED = ['clang 18 front end and the sroa/simplifycfg/early-cse passes (LLVM IR taken as the meaning of the C++ source)', 'vc/sym.py (VC generator), vc/llvm.py', 'z3, cvc5',
           'stubs/rock: declarations of the absent Rock dependencies (base-types, base-logging, ...)', 'IEEE rounding ignored: floating point treated as exact reals']
if __name__ == '__main__': main()
