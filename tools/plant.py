#!/usr/bin/env python3
"""plant.py SPEC: builds /verif/seeded/<id> from a spec file and confirms it in a scratch copy.

spec: blocks separated by lines of '=====':
  id: C01-x / property: C01 / file: whatami/what.py / needs: ... / breaks: ...
  -----
  old text
  -----
  new text
  -----
  demo (python, run with the interpreter of the repository; exits non-zero with the change)
Several (file, old, new) triples: repeat 'file:' in the header and old/new sections in order.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv/bin/python'
# tests that fail without any change
UNSTABLE = ['test_numpy_plugin', 'test_init_argspec', 'test_rng_plugin']
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" SKLEARN_SITE_JOBLIB=1 PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def main():
    only = sys.argv[2:]
    for block in open(sys.argv[1]).read().split('\n=====\n'):
        if not block.strip():
            continue
        parts = block.strip('\n').split('\n-----\n')
        head = [l.split(': ', 1) for l in parts[0].splitlines() if ': ' in l]
        h = dict(head)
        if only and h['id'] not in only:
            continue
        files = [v for k, v in head if k == 'file']
        assert len(parts) == 2 + 2 * len(files), (h['id'], len(parts))
        d = tempfile.mkdtemp(prefix='plant')
        repo = os.path.join(d, 'repo')
        try:
            sh('cp', '-a', '/repo', repo)
            bad = None
            for i, f in enumerate(files):
                p = os.path.join(repo, f)
                s = open(p).read()
                old, new = parts[1 + 2 * i], parts[2 + 2 * i]
                if s.count(old) != 1:
                    bad = 'the text of %s appears %d times' % (f, s.count(old))
                    break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                print(h['id'], 'REJECTED', bad)
                continue
            diff = sh('git', '-C', repo, 'diff').stdout
            out = os.path.join(d, 'seed')
            os.makedirs(out)
            open(os.path.join(out, 'demo.py'), 'w').write(parts[-1] + '\n')
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            json.dump({'property': h['property'], 'needs': h['needs'], 'what_it_breaks': h['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            a = sh('bash', os.path.join(out, 'demo.sh'), cwd='/repo')
            b = sh('bash', os.path.join(out, 'demo.sh'), cwd=repo)
            if a.returncode != 0 or b.returncode == 0:
                print(h['id'], 'REJECTED demo', a.returncode, b.returncode, a.stdout[-500:], b.stdout[-500:])
                continue
            # original lines?
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            # the tests: directly with pytest, in the scratch copy
            t = sh('bash', '-c', 'source /opt/vp/env.sh 2>/dev/null; cd %s && PYTHONPATH=%s SKLEARN_SITE_JOBLIB=1 OPENBLAS_NUM_THREADS=1 '
                   '/opt/venv/bin/python -W ignore -m pytest -q --doctest-modules -p no:cacheprovider whatami --ignore=whatami/wrappers '
                   '2>&1 | tail -40' % (repo, repo))
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ''
            failed = [l for l in t.stdout.splitlines() if l.startswith(('FAILED', 'ERROR')) and not any(x in l for x in UNSTABLE)]
            if failed or 'passed' not in last:
                print(h['id'], 'REJECTED tests', failed, last)
                continue
            dest = os.path.join(HERE, 'seeded', h['id'])
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(out, dest)
            c = sh('python3', os.path.join(HERE, 'check.py'), h['property'], env=dict(os.environ, WHATAMI_REPO=repo))
            tail = c.stdout.strip().splitlines()
            v = [l for l in tail if l.startswith('VIOLATION')]
            print(h['id'], 'KEPT', last, '| caught' if v else '| MISSED', v[0].split()[-1] if v else tail[-1:])
            for l in tail:
                if l.startswith(('FAILING', 'FAILED', 'UNDECIDED')) :
                    print('     ', l[:230])
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
