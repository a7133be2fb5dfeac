"""Runs the obligations of one property: build from /repo's current tree, prove, confirm failures natively, report."""
import os, sys, json, time, importlib, traceback, hashlib, glob, re
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed
import multiprocessing as mp
from . import engine
from .engine import TU, Ob, prove, fuzz, build_all, CompileError, VERIF, REPO

OBS = []


def _work(args):
    i, seed, trials, secs, tier = args
    ob = OBS[i]
    t0 = time.time()
    try:
        r = prove(ob)
    except BaseException as e:
        r = {'name': ob.name, 'status': 'unsupported', 'why': 'internal %s: %s' % (type(e).__name__, e), 'fails': [], 'vcs': 0, 'paths': 0, 'touched': []}
    r.setdefault('fails', [])
    r.setdefault('touched', [])
    r['solver_s'] = round(time.time() - t0, 3)
    if ob.native:
        cases = []
        for f in r['fails']:
            for p, env in f['envs']:
                cases.append((p, env, f['choices']))
            if not f['envs']:
                for p in ob.primes[:3]:
                    cases.append((p, {}, f['choices']))
        n = ob.trials or trials
        if r['status'] == 'failed':
            n, secs = n * 20, max(secs * 4, 40)
        elif r['status'] in ('unsupported', 'nosymbolic'):
            n, secs = n * 6, secs * 2
        try:
            r['native'] = fuzz(ob, seed, n, secs, cases)
        except BaseException as e:
            r['native'] = {'n': 0, 'error': '%s: %s' % (type(e).__name__, str(e)[-1500:])}
    else:
        r['native'] = {'n': 0}
    r['wall'] = round(time.time() - t0, 2)
    return i, r


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def source_functions():
    return None


def main(pid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    obs = mod.obligations(tier)
    OBS[:] = obs
    only = os.environ.get('VC_ONLY')
    tus = []
    for o in obs:
        if o.tu not in tus:
            tus.append(o.tu)
    rt = ThreadPoolExecutor(1).submit(engine.runtime_obj)
    errs = build_all(tus)
    rt.result()
    if errs:
        # a translation unit of the contracts no longer compiles: no verdict on its obligations
        for t, e in errs:
            sys.stderr.write('harness %s does not compile against the current tree:\n%s\n' % (t.key, e[-3000:]))
        bad = {id(t) for t, _ in errs}
    else:
        bad = set()
    with ThreadPoolExecutor(8) as ex:
        def nat(t):
            try:
                t.native()
            except CompileError as e:
                t.error = str(e)
                errs.append((t, str(e)))
                sys.stderr.write('native build of %s failed\n%s\n' % (t.key, str(e)[-2000:]))
        list(ex.map(nat, [t for t in tus if id(t) not in bad]))
    tb = time.time() - t0
    trials = 60 if tier == 'quick' else 1500
    secs = 6 if tier == 'quick' else 60
    results = {}
    jobs = [(i, seed, trials, secs, tier) for i, o in enumerate(obs) if id(o.tu) not in bad and (not only or re.search(only, o.name))]
    deadline = t0 + (780 if tier == 'quick' else 10 * 3600)
    ctx = mp.get_context('fork')
    ex = ProcessPoolExecutor(8, mp_context=ctx)
    futs = {ex.submit(_work, j): j[0] for j in jobs}
    pending = set(futs)
    try:
        for f in as_completed(futs, timeout=max(10, deadline - time.time())):
            try:
                i, r = f.result()
            except Exception as e:
                i = futs[f]
                r = {'name': obs[i].name, 'status': 'unsupported', 'why': 'worker: %s' % e, 'fails': [], 'vcs': 0, 'paths': 0, 'touched': [], 'native': {'n': 0}}
            results[i] = r
    except Exception as e:
        sys.stderr.write('time limit of the check reached: %r\n' % e)
        for p in list(getattr(ex, '_processes', {}).values()):
            p.kill()
    ex.shutdown(wait=False, cancel_futures=True)

    known = known_findings(pid)
    kf_hit = []
    violations = []
    undecided = []
    nat_total = 0
    for i in sorted(results):
        r = results[i]
        ob = obs[i]
        nat = r.get('native', {})
        nat_total += nat.get('n', 0) or 0
        if nat.get('error'):
            sys.stdout.write('native runs of %s ended early: %s\n' % (r['name'], nat['error'].strip().splitlines()[-1][:200]))
        nf = nat.get('fail')
        kf = [k for k in known if re.fullmatch(k['obligation'], ob.name)]
        if nf or r['status'] == 'failed':
            what = nf['what'] if nf else r['fails'][0]['what']
            km = [k for k in kf if re.search(k['what'], what)]
            if km:
                kf_hit.append((km[0], what))
                r['known'] = km[0]['id']
                continue
            if nf:
                violations.append((ob, r, nf))
            elif r['status'] == 'failed':
                f = r['fails'][0]
                if (f['what'].startswith('termination') or ob.confirm or all(x.get('weak') for x in r['fails'])) and nat.get('n', 0) > 0:
                    r['status'] = 'unsupported'
                    r['why'] = f['what']
                    undecided.append((ob, r))
                else:
                    violations.append((ob, r, None))
        elif r['status'] in ('unsupported',):
            undecided.append((ob, r))
    missing = [o.name for i, o in enumerate(obs) if i not in results and (not only or re.search(only, o.name))]
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    vcount = 0
    for ob, r, nf in violations:
        vcount += 1
        path = os.path.join(rdir, '%s-%s-%d.json' % (pid, re.sub(r'\W+', '_', ob.name)[:80], vcount))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'obligation': ob.name, 'harness': ob.tu.src, 'defines': ob.tu.defs, 'failing_input': nf,
                       'verifier': r['fails'], 'functions': r.get('touched', [])[:200],
                       'how_to_replay': 'python3-vt check.py %s --replay %s' % (pid, path)}, f, indent=1, default=str)
        if vcount <= 10:
            sys.stderr.write('FAILED %s: %s\n' % (ob.name, json.dumps(nf or r['fails'][:1], default=str)[:1500]))
            print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(path, VERIF), '' if nf else ' no-failing-input-found'))
    for k, what in {k['id']: (k, w) for k, w in kf_hit}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['description']))
    for ob, r in undecided:
        sys.stderr.write('undecided (bounded native check only): %s: %s\n' % (ob.name, r.get('why')))
    vcs = sum(r.get('vcs', 0) for r in results.values() if r['status'] != 'unsupported')
    fails = sum(len(r['fails']) or 1 for r in results.values() if r['status'] == 'failed')
    disch = sum(r.get('vcs', 0) for r in results.values() if r['status'] == 'discharged')
    touched = sorted({t for r in results.values() for t in r.get('touched', [])})
    short = sorted({re.sub(r'<.*', '', re.sub(r'\(.*', '', t)) for t in touched})
    primes = sorted({p for r in results.values() for p in r.get('primes', [])})
    bounded = [r['name'] + ': ' + r['bounded'] for r in results.values() if r.get('bounded')]
    nats = [r['name'] for r in results.values() if r['status'] in ('unsupported', 'nosymbolic')]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL if hasattr(mod, 'LEVEL') else 'proof',
        'coverage': {
            'obligations': vcs + fails + len(nats) + len(missing), 'discharged': disch,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier),
            'trusted_base': ['clang 18 front end, opt-18 mem2reg and libLLVM (C++ source of /repo to bitcode)',
                             'vc/machine.py, vc/poly.py, vc/domain.py (symbolic execution and polynomial decision procedure)',
                             'shim/: contracts of the absent multiprecision library (residue arithmetic mod p, big integers)'] + list(getattr(mod, 'TRUSTED', [])),
            'contracts': len(results), 'contracts_discharged': sum(r['status'] == 'discharged' for r in results.values()),
            'paths': sum(r.get('paths', 0) for r in results.values()), 'infeasible_paths': sum(r.get('infeasible', 0) for r in results.values()),
            'undecided': [{'contract': o.name, 'why': r.get('why')} for o, r in undecided],
            'native_only_bounded': nats, 'bounded_in': bounded, 'not_run': missing,
            'functions_under_contract': len(touched), 'function_names': short[:400],
            'native_evaluations': nat_total, 'solver_seconds': round(sum(r.get('solver_s', 0) for r in results.values()), 2), 'build_seconds': round(tb, 1),
            'excluded_characteristics': primes,
            'back_ends': {b: sum(r.get('vcs', 0) for r in results.values() if r.get('backend') == b) for b in {r.get('backend') for r in results.values()} if b},
            'known_findings': [k['id'] for k, _ in kf_hit],
            'results': [{'name': r['name'], 'status': r['status'], 'vcs': r.get('vcs', 0), 'paths': r.get('paths', 0), 'native': r.get('native', {}).get('n', 0), 's': r.get('wall')}
                        for r in results.values()],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': vcount,
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d contracts, %d obligations, %d discharged, %d undecided, %d violations, %d native evaluations, %.1fs' % (
        pid, len(results), ev['coverage']['obligations'], disch, len(undecided), vcount, nat_total, time.time() - t0))
    sys.stdout.flush()
    if vcount:
        return 1
    if errs or (missing and not only):
        sys.stderr.write('no verdict: %d translation units failed, %d contracts not run\n' % (len(errs), len(missing)))
        return 2
    if vcs == 0 and not only:
        sys.stderr.write('nothing was proved: every contract is outside the reach of the verifier on this tree (bounded native evaluations only)\n')
        return 0 if nat_total else 2
    return 0
