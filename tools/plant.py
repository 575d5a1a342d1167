"""Plant bugs: python3 tools/plant.py SPECFILE [ID...]

A spec file calls bug(id, prop, edits, demo, needs, breaks).  Every bug is confirmed in a scratch copy of /repo (applies,
imports, stable tests pass, demo passes without and fails with it), kept under seeded/<id>/ and then shown to the check.
`python3 tools/plant.py --check [ID...]` only re-runs the checks against the kept bugs."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TZ='UTC')
only = sys.argv[2:]
DEMO = """#!/bin/bash
# cwd is the repository under test
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="$PWD" PYTHONPATH="$PWD:$D" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC
exec /opt/venv/bin/python -B -W ignore "$D/demo.py"
"""
LIBHEAD = "from mc import boot, core\nimport tempfile, atexit, shutil\ncore._SCRATCH = tempfile.mkdtemp()\natexit.register(shutil.rmtree, core._SCRATCH)\n"


def copy():
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    return d, d + '/repo'


def sh(cmd, cwd, timeout=600, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=dict(ENV, **env), capture_output=True, text=True, timeout=timeout)


def tests(r):
    p = sh(PY + " -m pytest -q -p no:cacheprovider dolfyn/tests/test_orient.py::test_hpr_defs "
           "dolfyn/tests/test_tools.py -k 'hpr_defs or deg_conv or detrend or fillgaps or group or interpgaps or medfiltnan or slice'",
           r, PYTHONPATH=r)
    return p.returncode == 0 and '8 passed' in p.stdout, p.stdout[-800:] + p.stderr[-500:]


def check(prop, r):
    p = sh("bash %s/run.sh %s quick" % (V, prop), V, timeout=1500, VERIF_REPO=r)
    ok = p.returncode == 1 and ('VIOLATION property=%s' % prop) in p.stdout
    return ok, p.returncode, p.stderr[-1500:]


def bug(id, prop, edits, demo, needs, breaks, lib=True):
    if only and id not in only:
        return
    d, r = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(r, 'dolfyn', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        out = os.path.join(V, 'seeded', id)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write((LIBHEAD if lib else '') + demo.lstrip('\n'))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
        if lib:
            os.makedirs(out + '/mc/props')
            import glob
            import re
            for f in glob.glob(V + '/mc/*.py'):
                shutil.copy(f, out + '/mc/')
            for f in {'__init__', 'c01'} | set(re.findall(r'\bc\d\d\b', demo)):
                shutil.copy('%s/mc/props/%s.py' % (V, f), out + '/mc/props/')
        t = tempfile.mkdtemp(prefix='demo', dir='/tmp')
        subprocess.run(['cp', '-a', out + '/.', t], check=True)
        a = sh('bash %s/demo.sh' % t, '/repo')
        b = sh('bash %s/demo.sh' % t, r)
        shutil.rmtree(t)
        tok, tout = tests(r)
        good = a.returncode == 0 and b.returncode != 0 and tok
        msg = ''
        if not good:
            msg = 'INVALID clean=%d bug=%d tests=%s\n%s\n%s' % (a.returncode, b.returncode, tok, a.stderr[-600:], '' if tok else tout)
            shutil.rmtree(out)
            print(id, msg)
            return
        if set(b.stderr.strip().split('\n')[-1:]) and 'AssertionError' not in b.stderr and 'Fail' not in b.stderr:
            msg = '(demo fails with: %s)' % b.stderr.strip().split('\n')[-1][:150]
        ok, rc, err = check(prop, r)
        print(id, prop, 'CAUGHT' if ok else 'MISSED rc=%d %s' % (rc, err[-300:]), msg, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--check':
        for id in sorted(os.listdir(V + '/seeded')):
            if only and id not in only:
                continue
            m = json.load(open('%s/seeded/%s/meta.json' % (V, id)))
            d, r = copy()
            p = sh('git apply %s/seeded/%s/patch.diff' % (V, id), r)
            if p.returncode:
                print(id, 'DOES NOT APPLY', p.stderr[:200])
            else:
                ok, rc, err = check(m['property'], r)
                print(id, m['property'], 'CAUGHT' if ok else 'MISSED rc=%d' % rc, flush=True)
            shutil.rmtree(d)
    else:
        exec(open(sys.argv[1]).read())
