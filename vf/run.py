"""Runs the check of one property: python -m vf.run P14 [quick|thorough]"""
import importlib, json, multiprocessing as mp, os, pickle, random, signal, sys, time, traceback, warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VF_OUT') or os.path.join(HERE, 'evidence')

def jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, dict): return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:200]}
    if isinstance(x, (list, tuple)): return [jsonable(v, depth + 1) for v in x[:200]]
    if isinstance(x, np.ma.MaskedArray): return {'data': jsonable(x.data), 'mask': jsonable(np.ma.getmaskarray(x))}
    if isinstance(x, np.ndarray): return {'dtype': str(x.dtype), 'shape': list(x.shape), 'values': [jsonable(v) for v in x.ravel()[:400].tolist()]}
    if isinstance(x, np.generic): return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return repr(x)[:400]

def resolve_ok(ct):
    from . import src
    for f in ct.functions:
        mod, qual = f.split(':')
        p, k = src.locate(mod)
        if p is None: return 'module %s is gone' % mod
        try: o = src.cimport(mod)
        except Exception as e: return 'import of %s fails: %s: %s' % (mod, type(e).__name__, e)
        for part in qual.split('.'):
            if not hasattr(o, part): return '%s is gone' % f
            o = getattr(o, part)
    return None

def uses_abstract(ob): return ob.abstract

def search(ct, seed, seconds, maxcases):
    """bounded concrete search -> (n, rejected, failure)"""
    from .contract import RandB, Reject, run_concrete
    t0 = time.time(); n = rej = broken = 0; sample = None
    k = 0
    while n < maxcases and time.time() - t0 < seconds:
        rng = random.Random('%s/%s/%d' % (seed, ct.name, k)); k += 1
        B = RandB(rng)
        try:
            f = run_concrete(ct, B)
        except Reject:
            rej += 1
            if rej > 50 * (n + 20): break
            continue
        except Exception:
            # the statement could not be evaluated on what this run gave: no verdict from this case, the others go on
            broken += 1; search.trouble = traceback.format_exc()[-2000:]
            if broken > 40 + n: raise
            continue
        n += 1
        if sample is None or n == 7: sample = jsonable(B.log)
        if f: return n, rej, (f, jsonable(B.log)), sample
    return n, rej, None, sample

search.trouble = None

def work(modname, index, tier, seed, conn, budget):
    out = dict(status='undecided', detail='', obligations=0, discharged=0, names=[], solver_time=0.0, cases=0, violation=None, unreplayed=None,
               proved=False, paths=0, oos=None, stubs=[], sample=None, covered=False, checks=0)
    try:
        from . import src
        src.install()
        import numpy as np
        np.seterr(all='ignore')
        mod = importlib.import_module('vf.props.' + modname)
        ct = mod.CONTRACTS[index]
        devnull = open(os.devnull, 'w')
        if not os.environ.get('VF_VERBOSE'): sys.stdout = devnull
        gone = resolve_ok(ct)
        if gone:
            out['oos'] = gone; out['status'] = 'target-gone'
            conn.send(out); return
        from .contract import prove, ModelB, Reject, run_concrete
        t0 = time.time()
        r = None
        if ct.prove and not os.environ.get('VF_NOPROVE'):
            r = prove(ct, deadline=time.time() + budget['prove'])
            obs = r['obligations']
            out.update(obligations=len(obs), discharged=sum(o.status == 'discharged' for o in obs), names=sorted({o.name for o in obs}),
                       solver_time=round(sum(o.time for o in obs), 3), paths=r['paths'], oos=r['oos'], stubs=sorted(r['stubs']), covered=r['covered'])
            bad = [o for o in obs if o.status != 'discharged']
            if not r['oos'] and not bad and obs and r['covered']:
                out['proved'] = True
            for o in bad:
                if o.status in ('refuted', 'exception') and o.model is not None:
                    B = ModelB(o.model, o.inputs)
                    try:
                        f = run_concrete(ct, B)
                    except Reject: f = None
                    except Exception as e: f = None
                    if f:
                        out['violation'] = dict(obligation=o.name, failure=f, inputs=jsonable(B.log), source='counter-model of %s replayed on the real code' % o.name, goal=o.detail)
                        break
            out['undischarged'] = ['%s: %s %s' % (o.name, o.status, (o.detail or '')[-250:] if o.status == 'exception' else (o.detail or '')[:200]) for o in bad][:10]
        if ct.search and not out['violation']:
            secs, cases = budget['search'], budget['cases']
            refuted = bool(r) and any(o.status in ('refuted', 'exception') for o in r['obligations'])
            if refuted or (r is not None and not out['proved']): secs, cases = secs * 3, cases * 5
            n, rej, f, sample = search(ct, seed, secs, int(cases * getattr(ct, 'weight', 1.0)))
            out.update(cases=n, sample=sample, rejected=rej)
            if search.trouble and not f: out['oos'] = (out['oos'] or '') + ' some cases without verdict: ' + search.trouble[-300:]; out['proved'] = False
            if f:
                nm = f[0].split(' at ')[0].split(':')[0]
                out['violation'] = dict(obligation=nm, failure=f[0], inputs=f[1], source='bounded concrete search over the contract (CPython)')
        out['checks'] = getattr(ct, '_checks', 0)
        if not out['violation'] and r and not getattr(ct, 'abstract', False):
            ref = [o for o in r['obligations'] if o.status == 'refuted' and o.exact and o.kind == 'post' and not uses_abstract(o)]
            if ref:
                o = ref[0]
                out['unreplayed'] = dict(obligation=o.name, goal=o.detail, model=str(o.model)[:3000])
        out['status'] = 'violation' if out['violation'] else ('refuted' if out['unreplayed'] else ('proved' if out['proved'] else ('undecided' if ct.prove else 'bounded')))
        out['time'] = round(time.time() - t0, 2)
    except BaseException as e:
        out['status'] = 'crash'; out['oos'] = traceback.format_exc()[-2000:]
    try: conn.send(out)
    except Exception: conn.send(dict(out, violation=None if not out['violation'] else dict(obligation=out['violation']['obligation'], failure=str(out['violation']['failure']), inputs=repr(out['violation']['inputs'])[:3000], source=out['violation']['source'])))

def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: return [k for k in json.load(f).get('findings', []) if k['property'] == pid]

def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = argv[2] if len(argv) > 2 else None
    t0 = time.time()
    from . import src
    src.install()
    mod = importlib.import_module('vf.props.' + pid.lower())
    budget = dict(prove=150, search=12, cases=300) if tier == 'quick' else dict(prove=400, search=90, cases=6000)
    budget.update(getattr(mod, 'BUDGET', {}).get(tier, {}))
    total_limit = 780 if tier == 'quick' else 3600
    for m in getattr(mod, 'PRELOAD', ()):
        try: src.cimport(m)
        except BaseException: pass
        try:
            from . import load
            load.sload(m)
        except BaseException: pass
    jobs = [i for i, ct in enumerate(mod.CONTRACTS) if only is None or (only[0] == '@' and any(only[1:] in f for f in ct.functions)) or only in ct.name]
    jobs.sort(key=lambda i: -getattr(mod.CONTRACTS[i], 'cost', 1))
    results = {}
    running = {}
    ctxm = mp.get_context('fork')
    NP = int(os.environ.get('VF_PROCS') or min(8, os.cpu_count() or 4))
    percap = budget['prove'] + 3 * budget['search'] + 120
    while jobs or running:
        while jobs and len(running) < NP:
            i = jobs.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=work, args=(pid.lower(), i, tier, seed, b, budget))
            p.start(); b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, ts) in list(running.items()):
            got = None
            if a.poll(0.02):
                try: got = a.recv()
                except EOFError: got = dict(status='crash', oos='worker died')
            elif not p.is_alive():
                got = dict(status='crash', oos='worker died (exit %s)' % p.exitcode)
            elif time.time() - ts > percap or time.time() - t0 > total_limit:
                p.kill(); got = dict(status='crash', oos='time limit')
            if got is not None:
                results[i] = got
                p.join(5); p.is_alive() and p.kill()
                del running[i]
    return report(pid, tier, seed, mod, results, t0, only)

def report(pid, tier, seed, mod, results, t0, only):
    rdir = os.path.join(OUT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    kf = known_findings(pid)
    violations, printed = [], []
    tot = dict(obligations=0, discharged=0, cases=0, solver=0.0, checks=0)
    funcs_proved, funcs_bounded, detail, assumptions, stubs = set(), set(), [], set(), set()
    for i, ct in enumerate(mod.CONTRACTS):
        r = results.get(i)
        if r is None: continue
        tot['obligations'] += r.get('obligations', 0); tot['discharged'] += r.get('discharged', 0)
        tot['cases'] += r.get('cases', 0); tot['solver'] += r.get('solver_time', 0.0); tot['checks'] += r.get('checks', 0)
        (funcs_proved if r.get('proved') else funcs_bounded).update(ct.functions)
        assumptions.update(ct.assumptions); stubs.update(r.get('stubs') or [])
        detail.append({k: v for k, v in dict(contract=ct.name, functions=list(ct.functions), status=r['status'], proved=r.get('proved', False), obligations=r.get('obligations', 0),
                      discharged=r.get('discharged', 0), paths=r.get('paths', 0), solver_time_s=r.get('solver_time', 0), bounded_cases=r.get('cases', 0), bounded_checks=r.get('checks', 0),
                      undecided_reason=r.get('oos'), undischarged=r.get('undischarged'), callee_contracts_used=r.get('stubs'), time_s=r.get('time'),
                      precondition_satisfiable=r.get('covered')).items() if v not in (None, [], '')})
        v = r.get('violation') or r.get('unreplayed')
        if v:
            known = [k for k in kf if k['contract'] == ct.name and k['match'] in (v.get('failure') or v.get('obligation'))]
            if known:
                printed.append('KNOWN-FINDING: property=%s %s' % (pid, known[0]['what'])); continue
            path = os.path.join(rdir, '%s-%s.json' % (pid, ct.name.replace('/', '_')))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, contract=ct.name, functions=list(ct.functions), statement=(ct.__doc__ or '').strip(), **v), f, indent=1, default=str)
            violations.append((path, bool(r.get('violation')), ct.name, v.get('failure') or v.get('obligation')))
    for k in kf:
        line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
        if k.get('always') and line not in printed: printed.append(line)
    cmd = 'bash /verif/check.sh %s %s' % (pid, tier)
    sample = [dict(contract=mod.CONTRACTS[i].name, case=r.get('sample')) for i, r in sorted(results.items()) if r.get('sample')][:2]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=tot['obligations'], discharged=tot['discharged'], checker_cmd=cmd,
                  trusted_base=['z3 5.3.2 (python bindings of the tool venv)', 'vf: the symbolic executor / VC generator in /verif/vf', 'the build\'s Python 2 to 3 translator (vendored copy)',
                                'models of numpy, numpy.ma, datetime, dateutil.relativedelta in /verif/vf/snp.py, sdt.py (cross-checked against CPython by the bounded search of each contract)'],
                  contracts=detail, functions_under_contract_proved=sorted(funcs_proved), functions_bounded_only=sorted(funcs_bounded - funcs_proved),
                  assumed_contracts_of_callees=sorted(stubs), solver_time_s=round(tot['solver'], 2),
                  bounded=dict(evaluations=tot['cases'], checks=tot['checks'], rule='random and corner-case inputs drawn from the precondition of each contract, run by CPython; labelled bounded, not counted as proved', samples=sample)),
              assumptions=sorted(set(getattr(mod, 'ASSUMPTIONS', [])) | assumptions | {
                  'floating point treated as real arithmetic; machine integers as mathematical integers except 16-bit flag words (bit-vectors)',
                  'termination of the code under contract is not proved', 'no aliasing between distinct array arguments'}),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(OUT, exist_ok=True)
    if only is None:
        with open(os.path.join(OUT, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for i, ct in enumerate(mod.CONTRACTS):
        r = results.get(i)
        if r: print('%-10s %-46s obl %d/%d paths %s cases %d %.1fs %s' % (r['status'], ct.name, r.get('discharged', 0), r.get('obligations', 0), r.get('paths', 0), r.get('cases', 0), r.get('time') or 0,
                    ('[' + str(r.get('oos'))[-300:] + ']') if r.get('oos') else '') + (' ' + '; '.join(r.get('undischarged') or []) if r.get('undischarged') else ''))
    for l in printed: print(l)
    for path, concrete, name, what in violations:
        print('  %s: %s' % (name, str(what)[:300]))
    for path, concrete, name, what in violations:
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if concrete else ' no-failing-input-found'))
    nonzero = tot['obligations'] + tot['cases']
    if nonzero == 0 and not violations:
        # nothing could be decided at all (every target gone): report that plainly but raise no alarm
        print('UNDECIDED property=%s: no obligation and no case' % pid)
    print('%s %s: %d contracts, %d/%d obligations discharged, %d bounded cases, %d violations, %.1fs' % (pid, tier, len(results), tot['discharged'], tot['obligations'], tot['cases'], len(violations), time.time() - t0))
    sys.stdout.flush()
    return 1 if violations else 0

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    from . import src
    if src._scratch:
        import shutil; shutil.rmtree(src._scratch, ignore_errors=True)
    os._exit(rc)
