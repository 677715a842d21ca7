#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

1. verifies, function by function, every contract of the property against the current source of /repo (pyver);
2. executes the specification of the property on the real code, under the interpreter of the repository (runtime):
   it validates the assumptions of the contracts, searches a failing input for each failed obligation, and is the bounded
   stand-in of the functions the verifier cannot take.

exit 0: every obligation was discharged (or decided by its bounded stand-in); exit 1: VIOLATION line.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import pkgutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
REPO = os.environ.get('WHATAMI_REPO', '/repo')
if sys.prefix != '/opt/veriftools/pyvenv' and os.path.exists(VT) and not os.environ.get('PYVER_REEXEC'):
    os.environ['PYVER_REEXEC'] = '1'
    os.execv(VT, [VT, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

PYPY = '/opt/venv/bin/python'
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'SKLEARN_SITE_JOBLIB': '1',
       'LANG': 'C.UTF-8'}


def contracts(prop):
    from pyver import prove
    import pyver.contracts as pkg
    for m in sorted(pkgutil.iter_modules(pkg.__path__), key=lambda m: m.name):
        importlib.import_module('pyver.contracts.' + m.name)
    names = [c.name for c in prove.REGISTRY]
    assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    return [c for c in prove.REGISTRY if prop in c.props]


def work(name):
    from pyver import prove
    c = [c for c in prove.REGISTRY if c.name == name][0]
    r = c.verify()
    I = r.I
    return dict(name=c.name, target=c.target, status=r.status, unsupported=r.unsupported, paths=r.paths,
                time=round(r.time, 3), queries=r.queries, solver_time=round(r.solver_time, 3),
                obligations=[(o.name, o.ok, o.info[:4000]) for o in r.obligations],
                callee_contracts=sorted(I.used_contracts) if I else [], inlined=sorted(I.inlined) if I else [],
                assumptions=sorted(I.assumptions_used) if I else [], cvc5=r.cvc5)


def run_contracts(cs, budget):
    if not cs:
        return []
    ctx = multiprocessing.get_context('fork')
    out = {}
    jobs = sorted(cs, key=lambda c: -c.budget)
    procs = []
    q = ctx.Queue()
    deadline = time.time() + budget

    def target(name):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        try:
            q.put(work(name))
        except BaseException as e:
            q.put(dict(name=name, target='', status='unsupported', unsupported='engine: %s %s' % (type(e).__name__, e),
                       paths=0, time=0., queries=0, solver_time=0., obligations=[], callee_contracts=[], inlined=[],
                       assumptions=[], cvc5=0))
    pending = list(jobs)
    running = {}
    import queue
    while pending or running:
        while pending and len(running) < (os.cpu_count() or 4):
            c = pending.pop(0)
            p = ctx.Process(target=target, args=(c.name,))
            p.start()
            running[c.name] = (p, time.time() + c.budget * 1.5 + 20)
        try:
            r = q.get(timeout=0.5)
            out[r['name']] = r
            p, _ = running.pop(r['name'])
            p.join(5)
        except queue.Empty:
            pass
        now = time.time()
        for n, (p, dl) in list(running.items()):
            if n not in out and (now > dl or now > deadline or (not p.is_alive() and q.empty())):
                if p.is_alive():
                    p.kill()
                elif q.empty():
                    time.sleep(0.3)
                    if not q.empty():
                        continue
                running.pop(n)
                out[n] = dict(name=n, target=[c.target for c in cs if c.name == n][0], status='unsupported',
                              unsupported='time or memory budget of the contract exhausted', paths=0, time=0., queries=0,
                              solver_time=0., obligations=[], callee_contracts=[], inlined=[], assumptions=[], cvc5=0)
    return [out[c.name] for c in cs]


def run_oracle(prop, tier, seed, budget, hints=()):
    """runs the executable specification on the real code"""
    env = dict(os.environ)
    env.update(ENV)
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONPATH'] = REPO
    env['WHATAMI_REPO'] = REPO
    for k in ('PYVER_REEXEC', 'VIRTUAL_ENV'):
        env.pop(k, None)
    cmd = [PYPY, '-W', 'ignore', os.path.join(HERE, 'runtime', 'run.py'), prop, '--tier', tier, '--seed', str(seed),
           '--budget', str(budget)]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 3 + 120,
                           cwd='/', universal_newlines=True)
    except subprocess.TimeoutExpired:
        return dict(error='the executable specification did not finish', failures=[], evaluations=0, distinct=0, samples=[])
    for line in reversed(p.stdout.splitlines()):
        if line.startswith('{'):
            return json.loads(line)
    return dict(error='the executable specification could not run: %s' % p.stderr[-3000:], failures=[], evaluations=0,
                distinct=0, samples=[])


def known_findings(prop):
    """lines 'finding: property=<id> key=<key> <description>' of the committed file"""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                key, _, desc = rest.partition(' ')
                out[key[len('key='):]] = desc
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.property, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    error = None
    try:
        cs = [c for c in contracts(prop) if tier == 'thorough' or not c.thorough]
    except Exception as e:      # a contract module that does not load
        raise
    if a.list:
        for c in cs:
            print(c.name, c.target)
        return 0
    import threading
    box = {}
    th = threading.Thread(target=lambda: box.update(run_oracle(prop, tier, seed, 20 if tier == 'quick' else 300)))
    results_budget = 400 if tier == 'quick' else 3000
    # fork the workers before starting the thread
    results = []
    th.start()
    results = run_contracts(cs, results_budget)
    th.join()
    oracle = box
    failed = [(r, o) for r in results for o in r['obligations'] if not o[1] and r['status'] == 'failed']
    unsupported = [r for r in results if r['status'] == 'unsupported']
    known = known_findings(prop)
    fails = [f for f in oracle.get('failures', []) if f.get('key') not in known]
    for f in oracle.get('failures', []):
        if f.get('key') in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[f['key']]))
    proved = [r for r in results if r['status'] == 'proved']
    nobl = sum(len(r['obligations']) for r in results)
    ndis = sum(1 for r in results for o in r['obligations'] if o[1])
    trusted = ['pyver: symbolic execution of the Python source of /repo and its models of builtins (/verif/pyver)',
               'z3 (decides the obligations), cvc5 (second opinion when z3 gives up)', 'ast.parse of CPython 3.12']
    assumptions = sorted({x for r in results for x in r['assumptions']})
    callee = sorted({x for r in results for x in r['callee_contracts']})
    level = 'proof' if results and nobl else 'exploration'
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=nobl, discharged=ndis, checker_cmd='python3-vt -m pyver.run <module> <contract>',
            trusted_base=trusted,
            contracts=[{k: r[k] for k in ('name', 'target', 'status', 'unsupported', 'paths', 'time', 'queries',
                                          'solver_time', 'cvc5')} |
                       {'obligations': len(r['obligations']), 'discharged': sum(1 for o in r['obligations'] if o[1])}
                       for r in results],
            functions_executed_symbolically=sorted({x for r in results for x in r['inlined'] if not x.startswith('spec.')}),
            callee_contracts_used=callee,
            solver_time_s=round(sum(r['solver_time'] for r in results), 3),
            backends={'z3': sum(r['queries'] for r in results), 'cvc5': sum(r['cvc5'] for r in results)},
            bounded_standins=[{'contract': r['name'], 'function': r['target'], 'why': r['unsupported'],
                               'bound': 'the cases of the executable specification'} for r in unsupported],
            evaluations=oracle.get('evaluations', 0), distinct_nontrivial=oracle.get('distinct', 0),
            rule=oracle.get('rule', ''), samples=oracle.get('samples', [])[:5]),
        assumptions=assumptions, wall_s=0., violations=0)
    status = 0
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    path = os.path.join('replay', '%s.json' % prop)
    full = os.path.join(HERE, path)
    if os.path.exists(full):
        os.unlink(full)

    def violation(d, suffix=''):
        with open(full, 'w') as f:
            json.dump(d, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
    obl = [dict(contract=r['name'], function=r['target'], obligation=o[0], verifier_output=o[2]) for r, o in failed[:20]]
    for d in obl[:5]:
        print('FAILED OBLIGATION %s (%s): %s' % (d['obligation'], d['function'], d['verifier_output'][:600]))
    for r in unsupported:
        print('UNDECIDED CONTRACT %s (%s): %s; decided by the bounded stand-in' % (r['name'], r['target'], r['unsupported']))
    if fails:
        status = 1
        for f in fails[:3]:
            print('FAILING INPUT: %s -> %s' % (json.dumps(f['case'])[:600], f['message'][:600]))
        violation(dict(property=prop, kind='input', case=fails[0]['case'], message=fails[0]['message'],
                       other_cases=fails[1:5], failed_obligations=obl, seed=seed,
                       how='python3 /verif/replay.py %s' % path))
    elif failed:
        status = 1
        violation(dict(property=prop, kind='obligation', failed_obligations=obl,
                       note='no failing input was found by the executable specification',
                       how='python3 /verif/check.py %s' % prop), ' no-failing-input-found')
    elif oracle.get('error'):
        # the code under verification does not even load: nothing can be said in favour of the property
        status = 1
        violation(dict(property=prop, kind='error', message=oracle['error'],
                       how='python3 /verif/check.py %s' % prop), ' no-failing-input-found')
        print(oracle['error'])
    elif not nobl and not oracle.get('evaluations'):
        status = 1
        violation(dict(property=prop, kind='vacuous', message='no obligation and no evaluation'), ' no-failing-input-found')
    evidence['violations'] = len(fails) or (1 if status else 0)
    evidence['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print('%s %s: %d contracts, %d proved, %d undecided, obligations %d/%d, %d evaluations, %.1fs' % (
        prop, 'VIOLATED' if status else 'holds', len(results), len(proved), len(unsupported), ndis, nobl,
        oracle.get('evaluations', 0), time.time() - t0))
    return status


if __name__ == '__main__':
    sys.exit(main())
