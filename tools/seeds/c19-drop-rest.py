PROPERTY = 'C19'
EDITS = [
    ('exps/tamp_environment/deploy_tamp_experiments_kuka.py',
     '        experiments = queue[:50]\n        queue = queue[50:]\n',
     '        n_free = min(50, MAX_TOTAL - queue_size)\n        experiments = queue[:n_free - 1]\n        queue = queue[n_free:]\n'),
]
NEEDS = 'any full deployment'
BREAKS = 'One argument set of every batch is dropped.'
DEMO = r"""
from kit import *
import random, runpy, subprocess, time
with scratch() as t:
    os.chdir('exps/tamp_environment')
    open('tmux_lock.txt', 'w').close()
    subs = []
    def fake(cmd, *a, **k):
        if cmd.startswith('sbatch'):
            subs.append(cmd)
        return subprocess.CompletedProcess(cmd, 0, 'JOBID ST NODELIST(REASON)\n', '')
    subprocess.run, time.sleep = fake, lambda s: None
    try:
        runpy.run_path('deploy_tamp_experiments_kuka.py', run_name='__main__')
    except AssertionError:
        pass
    n = sorted(set(subs.count(c) for c in set(subs)))
    check(len(subs) == 41 * 50 and all(v % 50 == 0 for v in n), '%d submissions, counts per argument set %s' % (len(subs), n))
"""
