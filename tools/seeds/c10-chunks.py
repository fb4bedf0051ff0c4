PROPERTY = 'C10'
EDITS = [
    ('exps/run_knn_radius_trial.py',
     'tasks = exp_combos[task_id:len(exp_combos):num_tasks]\n',
     'n_per_task = max(1, len(exp_combos) // num_tasks)\ntasks = exp_combos[task_id * n_per_task:(task_id + 1) * n_per_task]\n'),
]
NEEDS = 'a number of trials that the number of tasks does not divide'
BREAKS = 'The remaining trials are run by nobody.'
DEMO = r"""
from kit import *
with scratch() as t:
    d = job(t, 'a', {'delta': .1, 'dims_to_test': [2, 3, 4], 'n_trials': 1, 'sample_schedule': [8, 12], 'neighbor_schedule': [2, 4]}, 'run_knn_radius_trial.py', tasks=2)
    got = sorted((r['dim'], r['trial']) for i in range(2) for r in rows(d + '/out%d.csv' % i) if r['n_samples'] == '8' and r['n_neighbors'] == '2')
    want = sorted((str(a), str(b)) for a in (2, 3, 4) for b in range(1))
    check(got == want, 'trials run: %s, asked for: %s' % (got, want))
"""
