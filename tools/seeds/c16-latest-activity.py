PROPERTY = 'C16'
EDITS = [
    ('exps/submit_and_run_experiment_job.py',
     '            latest_exp_path = dirs_with_exp_name[-1]\n',
     '            latest_exp_path = sorted(dirs_with_exp_name, key=os.path.getmtime)[-1]\n'),
]
NEEDS = 'an older experiment of the name that wrote results after a newer one was launched'
BREAKS = 'Resuming picks the older experiment.'
DEMO = r"""
from kit import *
import os
with scratch() as t:
    env = fakebin(t, 'LLsub', 'echo "$@" >> %s/calls' % t)
    open(t + '/exps/c.json', 'w').write('{"x": 1}')
    pre = 'import datetime as _d\nclass D(_d.datetime):\n    @classmethod\n    def now(cls, tz=None): return cls(2024, 5, %d, 9, 0, 0)\n_d.datetime = D'
    a = ['submit_and_run_experiment_job.py', '--type', 'knn', '--name', 'e', '--config-path', 'c.json', '--triples-args', 1, 2, 3]
    for day in (1, 2):
        rc, out = run(t, *a, env=env, pre=pre % day)
        check(rc == 0, out)
    old, new = sorted(os.listdir(t + '/exps/results'))
    os.utime(t + '/exps/results/' + new, (1.7e9, 1.7e9))
    os.utime(t + '/exps/results/' + old, (1.8e9, 1.8e9))      # results arrived
    rc, out = run(t, *a, '--resume', env=env)
    check(rc == 0 and new in open(t + '/calls').read().splitlines()[-1], 'resumed %s' % open(t + '/calls').read().splitlines()[-1])
"""
