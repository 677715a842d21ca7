# coding=utf-8
"""Runs the executable specification of a property on the real code, under the interpreter of the repository.

run.py <property> --tier T --seed N --budget SECONDS   prints a json line with the results
run.py <property> --case JSON                          replays one case; exit 1 if it fails

An oracle is a module runtime/<property>.py with:
  RULE: text
  def table(): yields cases (json) that are always run
  def gen(rng): returns a random case (json)
  def check(case): raises AssertionError if the property does not hold for this case
  def key(case): optional, identifies known findings
"""
from __future__ import print_function
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('WHATAMI_REPO', '/repo')
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)


def run_case(mod, case):
    """None or a message"""
    try:
        mod.check(case)
        return None
    except AssertionError as e:
        return str(e) or traceback.format_exc()[-1500:]
    except Exception as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])


def shrink(mod, case, deadline):
    f = getattr(mod, 'shrink', None)
    if f is None:
        return case
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for c in f(case):
            if run_case(mod, c) is not None:
                case, changed = c, True
                break
    return case


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20.)
    ap.add_argument('--case')
    a = ap.parse_args()
    out = sys.stdout
    sys.stdout = sys.stderr          # the code under test might print
    mod = importlib.import_module('runtime.' + a.property)
    import whatami
    assert os.path.realpath(whatami.__file__).startswith(os.path.realpath(REPO)), whatami.__file__
    if a.case:
        m = run_case(mod, json.loads(a.case))
        print(m or 'holds', file=out)
        return 1 if m else 0
    t0 = time.time()
    failures, n, distinct, samples, seen_keys = [], 0, set(), [], set()

    def one(case):
        case = json.loads(json.dumps(case))
        m = run_case(mod, case)
        k = json.dumps(case, sort_keys=True)
        if k not in distinct:
            distinct.add(k)
            if len(samples) < 3 or (len(samples) < 5 and len(distinct) % 37 == 0):
                samples.append(case)
        if m:
            kk = mod.key(case) if hasattr(mod, 'key') else None
            if kk in seen_keys and kk is not None:
                return
            seen_keys.add(kk)
            if kk is None:
                case2 = shrink(mod, case, time.time() + 10)
                m = run_case(mod, case2) or m
                case = case2
            failures.append(dict(case=case, message=m, key=kk))
    for case in mod.table():
        one(case)
        n += 1
    broken = 0
    rng = random.Random('%s-%d' % (a.property, a.seed))
    if hasattr(mod, 'gen'):
        limit = getattr(mod, 'N', 3000) * (1 if a.tier == 'quick' else 20)
        while time.time() - t0 < a.budget and n < limit and len([f for f in failures if f['key'] is None]) < 5:
            try:
                case = mod.gen(rng)
            except Exception:       # some generators use the code under test
                broken += 1
                if broken > 50 and broken > n:
                    raise
                continue
            one(case)
            n += 1
    print(json.dumps(dict(evaluations=n, distinct=len(distinct), failures=failures, samples=samples,
                          rule=mod.RULE, wall=time.time() - t0)), file=out)
    return 0


if __name__ == '__main__':
    sys.exit(main())
