PROPERTY = 'C13'
EDITS = [
    ('exps/run_knn_radius_trial.py',
     "df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)\n",
     "df_save_path = os.path.join(exp_save_path, 'out%i.csv' % (task_id % 10))\n"),
]
NEEDS = 'a job of more than ten tasks'
BREAKS = 'Tasks ten apart write the same result file.'
DEMO = r"""
from kit import *
import os
with scratch() as t:
    cfg = {'delta': .1, 'dims_to_test': [2], 'n_trials': 12, 'sample_schedule': [8, 12], 'neighbor_schedule': [2, 4]}
    d = job(t, 'a', cfg, 'run_knn_radius_trial.py', tasks=12)
    n = sum(len(rows(os.path.join(d, f))) for f in os.listdir(d) if f.startswith('out'))
    check(n == 12 * 4, '%d rows of results instead of %d' % (n, 12 * 4))
"""
