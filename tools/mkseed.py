"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py (patch as replacements, demo text, meta), and tries each out.

  mkseed.py build [id...]      write the folders
  mkseed.py try [id...]        in a scratch copy: patch applies, touches original lines, tests pass, demo 0 / nonzero
  mkseed.py check [id...]      run the property's quick check against a patched scratch copy
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS, OUT, LIB = os.path.join(V, 'tools/seeds'), os.path.join(V, 'seeded'), os.path.join(V, 'tools/seedlib')
BASE = '271dc8e'
STUBS = ['__init__.py', 'kgraph.py', 'networkit.py', 'pandas.py', 'pynndescent.py', 'scipy.py', 'tqdm.py']


def ids(args):
    alls = sorted(f[:-3] for f in os.listdir(SEEDS) if f.endswith('.py'))
    return [i for i in alls if not args or any(a in i for a in args)]


def load(i):
    ns = {}
    exec(open(os.path.join(SEEDS, i + '.py')).read(), ns)
    return ns


def copy_repo():
    d = tempfile.mkdtemp(prefix='seed-')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=d, check=True)
    return d


def build(i):
    s = load(i)
    d = copy_repo()
    try:
        for path, old, new in s['EDITS']:
            f = os.path.join(d, path)
            t = open(f).read()
            assert t.count(old) == 1, '%s: %d matches of %r in %s' % (i, t.count(old), old, path)
            open(f, 'w').write(t.replace(old, new))
            compile(open(f).read(), f, 'exec') if f.endswith('.py') else None
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(OUT, i)
    if os.path.isdir(o):
        shutil.rmtree(o)
    os.makedirs(os.path.join(o, 'fakelibs/stubs'))
    open(os.path.join(o, 'patch.diff'), 'w').write(diff)
    open(os.path.join(o, 'meta.json'), 'w').write(json.dumps({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, indent=1) + '\n')
    open(os.path.join(o, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
    open(os.path.join(o, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: the property held; anything else: it did not\nhere=$(cd "$(dirname "$0")" && pwd)\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig exec timeout 280 "$PY" "$here/demo.py"\n')
    os.chmod(os.path.join(o, 'demo.sh'), 0o755)
    shutil.copy(os.path.join(LIB, 'kit.py'), o)
    shutil.copy(os.path.join(V, 'sim/pddl.py'), os.path.join(o, 'fakelibs'))
    for f in ('core.py', 'seams.py'):
        shutil.copy(os.path.join(LIB, f), os.path.join(o, 'fakelibs'))
    open(os.path.join(o, 'fakelibs/__init__.py'), 'w').close()
    shutil.copy(os.path.join(V, 'sim/tampstubs.py'), os.path.join(o, 'fakelibs'))
    for f in STUBS:
        shutil.copy(os.path.join(V, 'sim/stubs', f), os.path.join(o, 'fakelibs/stubs'))


def original(i):
    """Does the patch remove or change a line of the original repository?"""
    diff = open(os.path.join(OUT, i, 'patch.diff')).read()
    path, ok = None, False
    n = 0
    blame = []
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            path = l[6:]
            blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--abbrev=7', 'HEAD', '--', path], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if blame[n - 1].lstrip('^').startswith(BASE):
                ok = True
            n += 1
        elif l.startswith(' '):
            n += 1
    return ok


def trial(i):
    d = copy_repo()
    o = os.path.join(OUT, i)
    lay = tempfile.mkdtemp(prefix='lay-')
    try:
        shutil.copytree(o, lay + '/x', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        t = time.time()
        r0 = subprocess.run(['bash', lay + '/x/demo.sh'], cwd=d, capture_output=True, text=True)
        t0 = time.time() - t
        subprocess.run(['git', 'apply', os.path.join(o, 'patch.diff')], cwd=d, check=True)
        r1 = subprocess.run(['bash', lay + '/x/demo.sh'], cwd=d, capture_output=True, text=True)
        env = dict(os.environ, PYTHONPATH='%s:%s/nonasymptotic' % (d, d), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=tests/test_utils.py', '--ignore=tests/test_exps.py', 'tests'],
                           cwd=d, env=env, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and '35 passed' in t.stdout and 'BROKEN' in r1.stdout
        print('%s %s demo %d/%d (%.1fs) original=%s tests=%s %s' % ('ok  ' if ok and original(i) else 'BAD ', i, r0.returncode, r1.returncode, t0, original(i),
              t.stdout.strip().splitlines()[-1][:40], (r1.stdout + r1.stderr).strip().splitlines()[-1][:150] if r1.returncode else ''), flush=True)
        if r0.returncode:
            print((r0.stdout + r0.stderr)[-1500:])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(lay)


def check(i, tier='quick'):
    d = copy_repo()
    s = load(i)
    try:
        subprocess.run(['git', 'apply', os.path.join(OUT, i, 'patch.diff')], cwd=d, check=True)
        t = time.time()
        r = subprocess.run(['./run', 'check', s['PROPERTY'], tier], cwd=V, env=dict(os.environ, SIM_REPO=d, SIM_NOEVIDENCE='1'), capture_output=True, text=True)
        ls = r.stdout.strip().splitlines()
        print('%s %s %s rc=%d %.1fs %s' % ('caught' if r.returncode == 1 else 'MISSED', s['PROPERTY'], i, r.returncode, time.time() - t,
                                           (ls[1] if r.returncode == 1 else ls[-1] if ls else r.stderr[-200:])[:170]), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    f = {'build': build, 'try': trial, 'check': check}
    for i in ids(sys.argv[2:]):
        for c in sys.argv[1].split(','):
            f[c](i)
