PROPERTY = 'C12'
EDITS = [
    ('exps/run_narrow_passage_clearance_trial.py',
     '    rng = np.random.default_rng(seed=task_id)\n',
     '    rng = np.random.default_rng(seed=[task_id, int(time.time()) // 86400])\n'),
]
NEEDS = 'a task resumed on another day than it was started'
BREAKS = 'The trials left to a resumed task get other seeds than they would have had without the interruption.'
DEMO = r"""
from kit import *
import os
with scratch() as t:
    cfg = {'deltas': [.3], 'radius_dims_to_test': [2], 'knn_dims_to_test': [], 'n_trials': 1, 'radius_prm_max_radius': 1.5, 'knn_prm_max_neighbors': 4, 'radius_sample_schedule': [6, 8], 'knn_sample_schedule': [8, 10]}
    out = []
    for day in (1, 2):
        d = job(t, 'a%d' % day, cfg, pre='import time; time.time = (lambda b=%d, f=time.perf_counter: b + f())' % (1700000000 + 86400 * 3 * day))
        out.append([r['seed'] for r in rows(d + '/out0.csv')])
    check(out[0] == out[1], 'the same task uses other seeds when run on another day')
"""
