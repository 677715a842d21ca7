#!/usr/bin/env python3
"""catch_table.py [JOBS] [ids...]: runs the check of each planted bug's property on a scratch copy of /repo with the bug
in it, and prints whether it is caught, and by what (a failing input of the real code, or a failed obligation only)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = os.path.join(HERE, 'seeded', name)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='catch')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
        env = dict(os.environ, WHATAMI_REPO=repo, VERIF_SEED='1')
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), meta['property']], env=env, cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        kind = 'MISSED' if r.returncode == 0 else ('obligation only' if v and v[0].endswith('no-failing-input-found')
                                                  else 'failing input' if v else 'BROKEN')
        failed = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('FAILED')]
        und = [l.split()[2] for l in r.stdout.splitlines() if l.startswith('UNDECIDED CONTRACT')]
        return name, meta['property'], kind, 'o' if failed else '-', 'u' if und else '-', r.stdout[-1500:] if kind in ('BROKEN',) else (v[0] if v else '')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    jobs = int(sys.argv[1]) if len(sys.argv) > 1 else 2
    names = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, names):
            print('\t'.join(r), flush=True)
