PROPERTY = 'C11'
EDITS = [
    ('exps/run_knn_radius_trial.py',
     'for _dim, _trial in tasks:\n',
     "def save_now_and_then(df, path, last=[float('-inf')]):\n    # results on network storage: not more often than every ten seconds, unless it is the last\n    if time.time() - last[0] >= 10 or (_dim, _trial) == tasks[-1]:\n        save_csv_atomically(df, path)\n        last[0] = time.time()\n\n\nfor _dim, _trial in tasks:\n"),
    ('exps/run_knn_radius_trial.py',
     '    # we output intermediate results just to see progress.\n    save_csv_atomically(all_tasks_record_df, df_save_path)\n',
     '    save_now_and_then(all_tasks_record_df, df_save_path)\n'),
]
NEEDS = 'a task stopped within ten seconds of a checkpoint, after another short trial has finished'
BREAKS = 'Finished trials are not in the result file.'
DEMO = r"""
from kit import *
import os
with scratch() as t:
    cfg = {'delta': .1, 'dims_to_test': [2], 'n_trials': 4, 'sample_schedule': [8, 12], 'neighbor_schedule': [2, 4]}
    d = os.path.join(t, 'exps/results/a')
    os.makedirs(d)
    import json
    json.dump(cfg, open(d + '/config.json', 'w'))
    # killed while drawing the samples of the fourth trial
    pre = 'import nonasymptotic.envs as m, os\nr = m.StraightLine.__init__\nn = []\ndef init(self, *a, **k):\n    n.append(1)\n    if len(n) == 4: os._exit(9)\n    r(self, *a, **k)\nm.StraightLine.__init__ = init'
    rc, out = run(t, 'run_knn_radius_trial.py', 0, 1, 'results/a/config.json', 'results/a', pre=pre)
    check(rc == 9, 'demonstration failed to stop the task: %s' % out[-500:])
    n = len(set(r['seed'] for r in rows(d + '/out0.csv'))) if os.path.exists(d + '/out0.csv') else 0
    check(n == 3, '%d of the 3 finished trials are in the result file' % n)
"""
