"""command line driver of one property's check"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    """findings recorded, not repaired (the file's 'fixed' lines suppress nothing)"""
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))['known']
    return []


def load_expected(pid):
    """contracts whose every obligation is discharged on the committed tree"""
    p = os.path.join(HERE, 'proved.json')
    if os.path.exists(p):
        return json.load(open(p)).get(pid, [])
    return []


def manifest_level(pid):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'proof'


def _work(a):
    from . import runner
    try:
        runner.EXPECT = set(load_expected(a[0]))
        return runner.run_contract(a)
    except BaseException:
        return {'name': a[1], 'error': traceback.format_exc()[-1500:]}


def replay(path):
    """re-run one recorded violation on the current tree"""
    from . import repoenv, runner
    d = json.load(open(path))
    repoenv.setup()
    importlib.import_module('contracts.' + d['property'].lower())
    c = [x for x in runner.CONTRACTS[d['property']] if x.name == d['contract']][0]
    import numpy as np
    from . import world
    world.KNOWN = set()
    if 'case' not in d:
        print('no failing input recorded: ' + json.dumps(d)[:2000])
        return 1
    crc = sum((i + 1) * ord(ch) for i, ch in enumerate(c.pid + c.name)) % (2 ** 31)
    rng = np.random.default_rng([d['seed'], crc, d['case']])
    w = world.ConWorld(rng, hints=d.get('hints'))
    np.random.seed((d['seed'] * 7919 + d['case']) % (2 ** 31))
    try:
        with np.errstate(all='ignore'):
            c.fn(w)
    except BaseException as e:
        traceback.print_exc()
        print('REPRODUCED', d['obligation'], e)
        return 1
    print('did not reproduce')
    return 0


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from . import repoenv, runner
    try:
        note = repoenv.setup()
        return _main(pid, tier, only, seed, t0, note, '-v' in argv)
    finally:
        repoenv.cleanup()


def _main(pid, tier, only, seed, t0, note, verbose):
    from . import runner
    try:
        import regreg.api
    except Exception:
        # the package itself no longer imports: nothing can hold
        traceback.print_exc()
        return 2
    importlib.import_module('contracts.' + pid.lower())
    cs = runner.CONTRACTS[pid]
    if only:
        cs = [c for c in cs if only in c.name]
    budget = 780 if tier == 'quick' else 6 * 3600
    if tier == 'quick' and os.environ.get('PYVC_BUDGET'):
        budget = float(os.environ['PYVC_BUDGET'])
    deadline = t0 + budget
    jobs = [(pid, c.name, tier, seed, deadline) for c in cs]
    jobs.sort(key=lambda j: -[c for c in cs if c.name == j[1]][0].budget)
    ctx = mp.get_context('fork')
    nproc = int(os.environ.get('PYVC_PROCS', '8'))
    results = []
    if nproc == 1:
        results = [_work(j) for j in jobs]
    else:
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            its = [pool.apply_async(_work, (j,)) for j in jobs]
            for j, it in zip(jobs, its):
                try:
                    results.append(it.get(timeout=max(5, deadline + 60 - time.time())))
                except mp.TimeoutError:
                    results.append({'name': j[1], 'error': 'time budget exhausted'})
    results.sort(key=lambda r: r['name'])
    return report(pid, tier, seed, t0, note, results, cs, verbose, bool(only))


def report(pid, tier, seed, t0, note, results, cs, verbose, only_given=False):
    known = [k for k in load_known() if k['property'] == pid]
    viol = []
    tot = ok = 0
    backends = {}
    functions = []
    undis = []
    bounded = []
    evals = distinct = checks = 0
    samples = []
    errors = []
    z3t = 0.
    z3c = 0
    vac = []
    proved_fn = set()
    bounded_fn = set()
    seen_known = {}
    noinput = []
    for r in results:
        if 'error' in r:
            errors.append('%s: %s' % (r['name'], r['error']))
            continue
        s = r.get('sym')
        nm = r['name']
        if s is not None:
            for o, d in s['log'].items():
                tot += d['n']
                ok += d['ok']
                for h, k in d['how'].items():
                    backends[h] = backends.get(h, 0) + k
                if d['ok'] < d['n']:
                    undis.append('%s / %s: %d of %d not discharged (%s)' % (nm, o, d['n'] - d['ok'], d['n'], ','.join(sorted(set(d.get('fail', []))))))
            z3t += s['z3'].get('z3_time', 0)
            z3c += s['z3'].get('z3_calls', 0)
            if s['unsupported']:
                undis.append('%s: %s' % (nm, s['unsupported'][0]))
            if s['total'] == 0:
                vac.append(nm)
        if r['proved']:
            proved_fn |= set(r['funcs'])
        else:
            bounded.append({'contract': nm, 'cases': r['con']['cases'], 'functions': r['funcs'],
                            'reason': (s['unsupported'][:1] or [f[0] for f in s['fails'][:3]]) if s else ['outside the verifier subset, bounded by design: ' + (r.get('note') or '')]})
            bounded_fn |= set(r['funcs'])
        c = r['con']
        evals += c['cases']
        distinct += c['distinct']
        checks += c['checks']
        if c['sample'] is not None and len(samples) < 4:
            samples.append({'contract': nm, 'inputs': c['sample']})
        if c['cases'] == 0 and c['skipped'] > 0:
            vac.append(nm + ' (no concrete case met the precondition)')
        for k, n in c.get('known', {}).items():
            seen_known[k] = seen_known.get(k, 0) + n
        for v in c['violations']:
            viol.append((nm, v, s))
        if r.get('regressed') and not c['violations']:
            noinput.append((nm, r))
    rc = 0
    rd = os.path.join(HERE, 'replays')
    lines = []
    for k in known:
        print('KNOWN-FINDING: property=%s %s (met %d times in this run)' % (pid, k['what'], seen_known.get(k['id'], 0)))
    for nm, v, s in viol:
        os.makedirs(rd, exist_ok=True)
        import re
        path = os.path.join(rd, '%s-%s.json' % (pid, re.sub(r'[^A-Za-z0-9_.-]+', '_', nm)))
        f = [x for x in (s['fails'] if s else [])]
        json.dump({'property': pid, 'contract': nm, 'obligation': v['obligation'], 'detail': v['detail'], 'inputs': v['inputs'], 'case': v['case'],
                   'seed': v['seed'], 'failed_proof_obligations': f[:20], 'how_to_replay': 'cd /verif && ./check.py --replay ' + path}, open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        print('violated: %s / %s\n  %s' % (nm, v['obligation'], v['detail'][:600]))
        rc = 1
    for nm, r in noinput:
        import re
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (pid, re.sub(r'[^A-Za-z0-9_.-]+', '_', nm)))
        f = r['sym']['fails']
        json.dump({'property': pid, 'contract': nm, 'obligation': f[0][0], 'failed_proof_obligations': f[:20], 'verifier_models': r['sym']['models'][:5],
                   'note': 'the verifier no longer discharges this obligation; %d concrete runs of the contract found no failing input' % r['con']['cases']}, open(path, 'w'), indent=1, default=str)
        print('not discharged: %s / %s (%s)' % (nm, f[0][0], f[0][1]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        rc = 1
    tb = ['CPython and the symbolic-execution engine in /verif/pyvc (expr.py normal forms, sym.py/shim.py numpy semantics, engine.py)',
          'z3 %s' % _z3v(), 'floating point treated as real arithmetic; integers over-approximated by reals in solver queries',
          'Cauchy-Schwarz inequality, attainment of a finite maximum and sum_j B[a,j]B[b,j]=[a==b] for rows declared orthonormal as built-in lemma schemas',
          'numpy/scipy functions: their mathematical definition in pyvc/shim.py is assumed']
    cov = {'obligations': tot, 'discharged': ok, 'checker_cmd': 'cd /verif && /opt/venv/bin/python -W ignore check.py %s --tier %s' % (pid, tier), 'trusted_base': tb,
           'backends': backends, 'solver_time_s': round(z3t, 2), 'solver_calls': z3c,
           'contracts': len(results), 'contracts_proved': sum(1 for r in results if r.get('proved')),
           'functions_proved': sorted(proved_fn - bounded_fn), 'functions_bounded_only': sorted(bounded_fn),
           'undischarged': undis[:60], 'bounded_contracts': bounded,
           'evaluations': evals, 'distinct_nontrivial': distinct, 'runtime_contract_checks': checks,
           'rule': 'concrete runs of the same contracts on the unmodified functions (cross-check and bounded stand-in); inputs drawn from gaussian, integer/tie, zero, sparse and multi-scale styles, dims <= about 6; distinct by input values',
           'samples': samples, 'extensions': note}
    if errors:
        cov['errors'] = errors
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': manifest_level(pid), 'coverage': cov,
          'assumptions': tb + ASSUME.get(pid, []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(noinput)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for r in results:
        if 'error' in r:
            print('%-48s ERROR %s' % (r['name'], r['error'][-300:]))
            continue
        if verbose or not r['proved']:
            s = r.get('sym')
            if s:
                n = sum(d['n'] for d in s['log'].values())
                k = sum(d['ok'] for d in s['log'].values())
                print('%-48s %s paths=%d oblig=%d/%d con=%d checks=%d wall=%.1f' % (r['name'], 'PROVED' if r['proved'] else 'bounded', s['paths'], k, n, r['con']['cases'], r['con']['checks'], r['wall']))
                if verbose:
                    for x in s['unsupported'][:3]:
                        print('      unsupported: ' + x)
                    for x in s['fails'][:8]:
                        print('      open: %s' % (x,))
            else:
                print('%-48s bounded by design con=%d skipped=%d checks=%d wall=%.1f' % (r['name'], r['con']['cases'], r['con']['skipped'], r['con']['checks'], r['wall']))
    print('%s: contracts %d (proved %d), obligations %d, discharged %d, concrete cases %d, %.1f s' % (pid, len(results), cov['contracts_proved'], tot, ok, evals, time.time() - t0))
    if os.environ.get('PYVC_RECORD_PROVED') and not only_given:
        p = os.path.join(HERE, 'proved.json')
        d = json.load(open(p)) if os.path.exists(p) else {}
        d[pid] = sorted(r['name'] for r in results if r.get('proved'))
        json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
    for l in lines:
        print(l)
    if rc == 0 and errors:
        print('errors: ' + '; '.join(errors)[:3000])
        return 2
    if rc == 0 and tot == 0 and any(c.sym for c in cs):
        print('no obligations generated')
        return 2 if evals == 0 else 0
    if rc == 0 and evals == 0:
        print('nothing was checked')
        return 2
    return rc


def _z3v():
    try:
        import pyvc.engine
        return pyvc.engine.z3.get_version_string()
    except Exception:
        return '?'


ASSUME = {}
