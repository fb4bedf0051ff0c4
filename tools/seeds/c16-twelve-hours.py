PROPERTY = 'C16'
EDITS = [
    ('exps/submit_and_run_experiment_job.py',
     "        now_str = now.strftime('%Y%m%d-%H%M%S')\n",
     "        now_str = now.strftime('%Y%m%d-%I%M%S')\n"),
]
NEEDS = 'one experiment name launched in the morning and again in the afternoon of the same day'
BREAKS = 'Resuming picks the morning experiment, since its directory sorts last.'
DEMO = r"""
from kit import *
import os, json
with scratch() as t:
    env = fakebin(t, 'LLsub', 'echo "$@" >> %s/calls' % t)
    open(t + '/exps/c.json', 'w').write('{"x": 1}')
    pre = 'import datetime as _d\nclass D(_d.datetime):\n    @classmethod\n    def now(cls, tz=None): return cls(2024, 5, 1, %d, 0, 0)\n_d.datetime = D'
    a = ['submit_and_run_experiment_job.py', '--type', 'knn', '--name', 'e', '--config-path', 'c.json', '--triples-args', 1, 2, 3]
    for h in (9, 14):
        rc, out = run(t, *a, env=env, pre=pre % h)
        check(rc == 0, out)
    rc, out = run(t, *a, '--resume', env=env)
    calls = open(t + '/calls').read().splitlines()
    check(rc == 0 and len(calls) == 3 and calls[2].split()[0] == calls[1].split()[0], 'resumed %s, launched last was %s' % (calls[-1], calls[1]))
"""
