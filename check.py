#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]     decide one property on /repo's current tree
   check.py --replay FILE                        run a recorded violation again
   check.py --hints [UNIT...]                    recompute the committed invariant hints (development only)"""
import os, sys, json, time, argparse, traceback, tempfile, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(PY) and os.environ.get('QPV_REEXEC') != '1':
    os.environ['QPV_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
T0 = time.time()
HARD = 840          # seconds, the whole check


def unit_hints(name, case, num):
    f = os.path.join(HERE, 'hints', '%s.json' % name)
    try:
        return {k: v for k, v in json.load(open(f)).get('%s/%s' % (case, num), {}).items()} or None
    except Exception:
        return None


def obl_info(o):
    return dict(kind=o.kind, label=o.label, line=o.line, status=o.result[0] if o.result else 'not run', backend=o.result[1] if o.result else None, secs=round(o.result[3], 2) if o.result else 0)


def run_unit(args):
    """verify one (function, case) -> plain dict"""
    name, case, budget, timeout, slimming = args
    from specs import registry
    from qpv import cfront, spec, prover
    from qpv.spec import RealNum
    c = registry.CONTRACTS[name]
    num = getattr(c, 'num', RealNum)()
    t = time.time()
    try:
        prog = cfront.load(getattr(c, 'sources', None) or registry.ALLSRC)
        if name not in prog.funcs:
            return dict(unit='%s[%s/%s]' % (name, case, num.name), fn=name, case=case, ok=False, error='function %s is not in the sources any more' % name, failed=[], n=0, secs=0, mode=None, used={}, inlined=[])
        others = {k: v for k, v in registry.CONTRACTS.items() if k != name}
        h = unit_hints(name, case, num.name)
        hs = {k: set(v) for k, v in h.items()} if h is not None else None
        r = spec.verify(prog, others, c, case, num, hints=hs, budget=budget, timeout=timeout)
        out = dict(unit=r.unit, fn=name, case=case, ok=r.ok, error=r.error, mode=r.mode, n=len(r.obls) + r.trivial, smt=len(r.obls), trivial=r.trivial,
                   failed=[obl_info(o) for o in r.failed], secs=round(r.secs, 2), solver=round(sum(o.result[3] for o in r.obls if o.result), 2), used=r.used, inlined=sorted(r.inlined),
                   backends=sorted({o.result[1] for o in r.obls if o.result}), kinds={})
        for o in r.obls:
            out['kinds'][o.kind] = out['kinds'].get(o.kind, 0) + 1
        if slimming and r.ok:
            try:
                out['hints'] = spec.slim(prog, others, c, case, num, r)
            except Exception:
                out['hints'] = None
        return out
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        return dict(unit='%s[%s/%s]' % (name, case, num.name), fn=name, case=case, ok=False, error='%s: %s' % (type(e).__name__, str(e)[:400]), tb=traceback.format_exc()[-1500:], failed=[], n=0, secs=round(time.time() - t, 2), mode=None, used={}, inlined=[])


def run_lemmas(groups):
    from specs import registry
    from qpv import prover
    out = []
    for g in groups:
        for l in registry.LEMMAS[g]():
            ob = l.obligations()
            prover.run(ob, getattr(l, 'axioms', []) or [], timeout=8000, strats=prover.STRATS)
            for o in ob:
                out.append(dict(label=o.label, ok=o.result[0] == 'proved', secs=o.result[3]))
    return out


def pool(jobs, fn, nw, until=None):
    """run fn over jobs in forked workers; results as plain data, in job order; no worker outlives `until`"""
    import pickle, select
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    run = {}
    while todo or run:
        while todo and len(run) < nw:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    d = pickle.dumps(fn(jobs[i]))
                    with os.fdopen(w, 'wb') as f: f.write(d)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            run[r] = (i, pid, b'')
        rl, _, _ = select.select(list(run), [], [], 2)
        if until and time.time() > until:
            todo = []
            for _, pid, _ in run.values():
                for kill in (os.killpg, os.kill):
                    try: kill(pid, signal.SIGKILL)
                    except OSError: pass
        for r in rl:
            b = os.read(r, 1 << 16)
            i, pid, buf = run[r]
            if b:
                run[r] = (i, pid, buf + b)
            else:
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                try:
                    res[i] = pickle.loads(buf)
                except Exception:
                    res[i] = None
    return res


def all_units(names):
    from specs import registry
    out = []
    for n in names:
        for case in registry.CONTRACTS[n].shapes():
            out.append((n, case))
    return out


def relevant(P, pid, u, o):
    """does this failed obligation bear on the property?"""
    if P['kinds'] is not None and not (u['fn'] in P['units_full']):
        if o['kind'] not in P['kinds']:
            return False
    if P['labels'] is not None:
        return P['labels'](u, o)
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--hints', nargs='*')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay: return replay(a.replay)
    if a.setup: return setup()
    if a.hints is not None: return hints(a.hints)
    sys.exit(check(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', seed))


def setup():
    """nothing is built ahead of a check; say whether the tools it needs are there"""
    import z3, subprocess
    from specs import registry
    print('z3', z3.get_version_string(), 'contracts', len(registry.CONTRACTS), 'properties', ' '.join(sorted(registry.PROPS)))
    for t in ('clang', 'gcc'):
        subprocess.run([t, '--version'], stdout=subprocess.DEVNULL, check=True)


def hints(names):
    from specs import registry
    os.makedirs(os.path.join(HERE, 'hints'), exist_ok=True)
    os.environ['QPV_JOBS'] = '8'
    us = all_units(names or list(registry.CONTRACTS))
    for (n, c), r in zip(us, pool([(n, c, 600, 6000, True) for n, c in us], run_unit, 1)):
        num = getattr(registry.CONTRACTS[n], 'num', None)
        nm = num.name if num else 'R'
        print(r['unit'], r['ok'], r['mode'], r['secs'], r['error'] or '', [o['label'] for o in r['failed']])
        f = os.path.join(HERE, 'hints', n + '.json')
        try: d = json.load(open(f))
        except Exception: d = {}
        if r['ok'] and r.get('hints') is not None:
            d['%s/%s' % (c, nm)] = r['hints']
            json.dump(d, open(f, 'w'), indent=0, sort_keys=True)


def check(pid, tier, seed):
    from specs import registry
    from qpv import prover
    P = dict(registry.PROPS[pid])
    P['units_full'] = set(P.get('full', P['units']) if P['kinds'] is None else P.get('full', ()))
    thorough = tier == 'thorough'
    jobs = [(n, c, 300 if thorough else 150, 8000 if thorough else 4000, False) for n, c in all_units(P['units'])]
    nw = 4
    prover.NPROC = 3
    os.environ['QPV_JOBS'] = '3'
    us = pool(jobs, run_unit, nw, T0 + (HARD - 200 if tier != 'thorough' else 3600)) if jobs else []
    us = [u if u is not None else dict(unit='%s[%s]' % (j[0], j[1]), fn=j[0], case=j[1], ok=False, error='no answer from the verifier in the time of the check', failed=[], n=0, secs=0, mode=None, used={}, inlined=[]) for u, j in zip(us, jobs)]
    prover.NPROC = 8
    lem = run_lemmas(P['lemmas'])
    failed = []
    elsewhere = 0
    for u in us:
        if u['ok']: continue
        if u['error']:
            failed.append(dict(unit=u['unit'], kind='unit', label='%s is verified against its contract' % u['fn'], status=u['error']))
            continue
        for o in u['failed']:
            if relevant(P, pid, u, o):
                failed.append(dict(o, unit=u['unit']))
            else:
                elsewhere += 1
    for l in lem:
        if not l['ok']: failed.append(dict(unit='lemma', kind='lemma', label=l['label'], status='unknown'))
    structural = []
    if P.get('extra'):
        structural = P['extra'](tier)
        for s in structural:
            if not s['ok']: failed.append(dict(unit=s.get('unit', 'structure'), kind=s.get('kind', 'structure'), label=s['label'], status=s.get('detail', 'failed')))
    # ---- running the real code: replay for failed obligations, bounded stand-ins
    conc = dict(cases=0, failure=None, why=None)
    bnd = P.get('bounded')
    if failed or bnd:
        left = HARD - (time.time() - T0) - 40
        secs = min(left, (bnd or {}).get('seconds', 20) * (6 if thorough else 1)) if not failed else min(left, 400 if thorough else 150)
        conc = concrete(pid, P, seed, max(secs, 5), bool(failed))
    violations = 0
    path = None
    if failed or conc['failure']:
        violations = 1
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s.json' % pid)
        json.dump(dict(property=pid, seed=seed, failed_obligations=failed, failing_input=conc['failure'], engine=conc.get('engine'), how='python3 /verif/check.py --replay ' + path), open(path, 'w'), indent=1)
    nob = sum(u['n'] for u in us) + sum(len(u['failed']) for u in us) + len(lem) + len(structural)
    ndis = sum(u['n'] for u in us) + sum(1 for l in lem if l['ok']) + sum(1 for s in structural if s['ok'])
    fns = {}
    for u in us:
        d = fns.setdefault(u['fn'], dict(cases=[], obligations=0, discharged_by_smt=0, discharged_by_simplification=0, solver_s=0.0, by_kind={}, inlined=set()))
        d['cases'].append(u['case'] + ('' if u['ok'] else ' FAILED'))
        d['obligations'] += u['n'] + len(u['failed'])
        d['discharged_by_smt'] += u.get('smt', 0)
        d['discharged_by_simplification'] += u.get('trivial', 0)
        d['solver_s'] = round(d['solver_s'] + u.get('solver', 0), 2)
        d['inlined'] |= set(u['inlined'])
        for k, v in u.get('kinds', {}).items(): d['by_kind'][k] = d['by_kind'].get(k, 0) + v
    for d in fns.values(): d['inlined'] = sorted(d['inlined'])
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3 /verif/check.py %s --tier %s' % (pid, tier), trusted_base=registry.TB,
               functions_under_contract=fns, lemmas=[l['label'] for l in lem], structural_obligations=[s['label'] for s in structural], solver_s=round(sum(u.get('solver', 0) for u in us) + sum(l['secs'] for l in lem), 2),
               back_ends=sorted({b for u in us for b in u.get('backends', [])}), failed_obligations=failed[:40], failed_obligations_of_other_properties=elsewhere,
               used_contracts=sorted({k for u in us for k in u['used']}), whole_verification_repeated_from='current /repo sources')
    if bnd or failed:
        cov['bounded'] = dict(label='bounded, not counted as proved', what=(bnd or {}).get('what', 'search for a failing input after a failed obligation'), evaluations=conc['cases'], rule=(bnd or {}).get('rule', 'pseudo-random small problems run on the real code under the address and undefined-behaviour sanitisers'), note=conc.get('note'))
        cov['evaluations'] = conc['cases']
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov, assumptions=P['assumptions'] + [registry.REAL, registry.INT, registry.EXT, registry.CLANG], wall_s=round(time.time() - T0, 2), violations=violations)
    if P.get('level', 'proof') == 'other':
        cov['explanation'] = P.get('explanation', '')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in us:
        print('%-60s %s %4d obligations %6.1fs %s' % (u['unit'], 'ok    ' if u['ok'] else 'FAILED', u['n'], u['secs'], u['error'] or ''))
    for f in failed[:20]:
        print('failed obligation: %s: %s (%s)' % (f['unit'], f['label'], f['status']))
    if bnd or failed: print('real code: %d cases, %s' % (conc['cases'], conc['failure'] or 'no failure'))
    for k in known():
        if k.startswith('known: property=%s ' % pid): print('KNOWN-FINDING: ' + k[len('known: '):])
    if violations:
        if conc['failure']: print('failing input: %s' % json.dumps({k: v for k, v in conc['failure'].items() if k != 'detail'}))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conc['failure'] else ' no-failing-input-found'))
        return 1
    print('OK property=%s obligations=%d discharged=%d %.1fs' % (pid, nob, ndis, time.time() - T0))
    return 0


def known():
    try:
        return [l.strip() for l in open(os.path.join(HERE, 'known-findings.txt')) if l.strip() and not l.startswith('#')]
    except OSError:
        return []


def concrete(pid, P, seed, secs, failed):
    out = dict(cases=0, failure=None, engine='harness')
    if pid == 'C16':
        from qpv import pyconc
        return pyconc.run(seed, secs)
    from qpv.concrete import Concrete
    c = Concrete()
    try:
        e = c.build()
        if e:
            out['note'] = e
            return out
        out['note'] = c.note
        kinds = ('fail', 'crash', 'timeout') if failed or pid in ('C12', 'C10') else ('fail',)
        if pid == 'C02': kinds += ('timeout',)
        out['cases'], out['failure'] = c.search(pid, seed, secs, kinds=kinds)
    finally:
        c.close()
    return out


def replay(path):
    d = json.load(open(path))
    f = d.get('failing_input')
    print('failed obligations:')
    for o in d['failed_obligations']: print('  %s: %s (%s)' % (o['unit'], o['label'], o['status']))
    if not f:
        print('no failing input was found for it')
        return
    if d['property'] == 'C16':
        from qpv import pyconc
        return pyconc.replay(f, d['seed'])
    from qpv.concrete import Concrete
    c = Concrete()
    try:
        e = c.build()
        if e: sys.exit(e)
        r = c.run(d['property'], d['seed'], f['case'], f['case'] + 1)
        print(json.dumps(r, indent=1) if r else 'the recorded input passes on the current tree')
    finally:
        c.close()


if __name__ == '__main__':
    main()
