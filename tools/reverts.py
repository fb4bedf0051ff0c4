"""Takes back each repair of known_findings.txt in a scratch worktree and runs its property's quick check there.

usage: tools/reverts.py [commit or property ...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
entries = []
for line in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', line)
    if m and (not want or m.group(1) in want or m.group(2) in want):
        entries.append(m.groups())
for prop, commit, what in entries:
    d = tempfile.mkdtemp(prefix='revert-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        r = subprocess.run(['git', '-C', d, 'revert', '-n', commit], capture_output=True, text=True)
        if r.returncode:
            print('%s %s not tried: a later repair touches the same lines (see the mutants instead)  %s' % (prop, commit, what), flush=True)
            continue
        t = time.time()
        env = dict(os.environ, SIM_REPO=d, SIM_NOEVIDENCE='1')
        r = subprocess.run(['./run', 'check', prop, 'quick'], cwd=V, env=env, capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        tail = [x for x in r.stdout.splitlines() if 'VIOLATION' not in x and x.strip()]
        print('%s %s exit %d %.0f s %s  -- %s' % (prop, commit, r.returncode, time.time() - t, (v[:1] or tail[-1:] or [''])[0][:110], what), flush=True)
    finally:
        shutil.rmtree(d)
