PROPERTY = 'C15'
EDITS = [
    ('exps/submit_and_run_experiment_job.py',
     '            os.mkdir(save_path)\n        except FileExistsError:',
     '            os.makedirs(save_path, exist_ok=True)\n        except FileExistsError:'),
]
NEEDS = 'two launches of one name within a second'
BREAKS = 'The second launch overwrites the configuration and script of the first experiment.'
DEMO = r"""
from kit import *
import os, json
with scratch() as t:
    env = fakebin(t, 'LLsub', 'echo "$@" >> %s/calls' % t)
    open(t + '/exps/c1.json', 'w').write('{"x": 1}')
    open(t + '/exps/c2.json', 'w').write('{"x": 2}')
    # both see the same second on the clock
    pre = 'import datetime as _d\nclass D(_d.datetime):\n    @classmethod\n    def now(cls, tz=None): return cls(2024, 5, 1, 10, 0, 0)\n_d.datetime = D'
    rcs = [run(t, 'submit_and_run_experiment_job.py', '--type', 'knn', '--name', 'e', '--config-path', c, '--triples-args', 1, 2, 3, env=env, pre=pre)[0] for c in ('c1.json', 'c2.json')]
    dirs = os.listdir(t + '/exps/results')
    check(rcs[0] == 0 and len(dirs) == 1, 'first launch failed: %s %s' % (rcs, dirs))
    check(json.load(open(t + '/exps/results/%s/config.json' % dirs[0]))['x'] == 1 and rcs[1] != 0, 'the second launch took over the directory of the first')
"""
