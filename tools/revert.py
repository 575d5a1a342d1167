"""Reverts every `fix:` commit listed in known_findings.txt, one at a time in a copy of /repo, and runs the property's check.
python3 tools/revert.py [ID|COMMIT ...]"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TZ='UTC', VERIF_NPROC='4')


def one(a):
    prop, com, what = a
    d = tempfile.mkdtemp(prefix='rev', dir='/tmp')
    try:
        r = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        p = subprocess.run(['git', '-c', 'user.email=x@y', '-c', 'user.name=x', 'revert', '-X', 'theirs', '--no-commit', com], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return a, 'conflict'
        shutil.copytree(V, d + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        os.makedirs(d + '/v/evidence', exist_ok=True)
        p = subprocess.run(['bash', d + '/v/run.sh', prop, 'quick'], cwd=d + '/v', capture_output=True, text=True, timeout=1800, env=dict(ENV, VERIF_REPO=r))
        ok = p.returncode == 1 and ('VIOLATION property=%s' % prop) in p.stdout
        return a, 'caught' if ok else 'MISSED rc=%d %s' % (p.returncode, p.stderr[-300:] if p.returncode > 1 else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


L = []
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m and (len(sys.argv) < 2 or m.group(1) in sys.argv or m.group(2) in sys.argv):
        L.append(m.groups())
with ThreadPoolExecutor(2) as ex:
    for (prop, com, what), res in ex.map(one, L):
        print(prop, com, res, '' if res == 'caught' else what[:80], flush=True)
