PROPERTY = 'C12'
EDITS = [
    ('exps/run_knn_radius_trial.py',
     'rng = np.random.default_rng(seed=task_id)\n',
     'rng = np.random.default_rng(seed=task_id % 8)  # workers per node\n'),
]
NEEDS = 'a job of more than eight tasks'
BREAKS = 'Tasks eight apart give their trials the same seeds.'
DEMO = r"""
from kit import *
with scratch() as t:
    cfg = {'delta': .1, 'dims_to_test': [2], 'n_trials': 10, 'sample_schedule': [8, 12], 'neighbor_schedule': [2, 4]}
    seeds = {}
    for i in (0, 8):
        d = job(t, 'a', cfg, 'run_knn_radius_trial.py', tasks=10, task=i)
        seeds[i] = {r['seed'] for r in rows(d + '/out%d.csv' % i)}
    check(not seeds[0] & seeds[8], 'tasks 0 and 8 used the same seeds')
"""
