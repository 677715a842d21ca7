#!/usr/bin/env python3
"""replay.py <replay file>: runs the failing input of a violation against the real code. exit 1 if it still fails"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    path = sys.argv[1]
    if not os.path.exists(path):
        path = os.path.join(HERE, path)
    d = json.load(open(path))
    if d['kind'] != 'input':
        for o in d.get('failed_obligations', []):
            print(o['obligation'], o['function'])
            print('   ', o['verifier_output'])
        print(d.get('message', ''))
        print('no failing input: run the verifier again with', d['how'])
        return subprocess.call([sys.executable, os.path.join(HERE, 'check.py'), d['property']])
    repo = os.environ.get('WHATAMI_REPO', '/repo')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=repo, WHATAMI_REPO=repo,
               SKLEARN_SITE_JOBLIB='1')
    return subprocess.call(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(HERE, 'runtime', 'run.py'),
                            d['property'], '--case', json.dumps(d['case'])], env=env, cwd='/')


if __name__ == '__main__':
    sys.exit(main())
