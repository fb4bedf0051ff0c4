PROPERTY = 'C10'
EDITS = [
    ('exps/run_narrow_passage_clearance_trial.py',
     "        n_seeds = all_tasks_record_df['seed'].unique().shape[0]\n",
     "        n_seeds = all_tasks_record_df[['dim', 'trial']].drop_duplicates().shape[0]\n"),
]
NEEDS = 'a resumed task that had finished trials of both planner kinds in the same dimension'
BREAKS = 'Finished trials are counted too low, so the resumed task repeats some of them.'
DEMO = r"""
from kit import *
import os
with scratch() as t:
    cfg = {'deltas': [.3], 'radius_dims_to_test': [2], 'knn_dims_to_test': [2], 'n_trials': 2, 'radius_prm_max_radius': 1.5, 'knn_prm_max_neighbors': 4, 'radius_sample_schedule': [6, 8], 'knn_sample_schedule': [8, 10]}
    d = job(t, 'a', cfg)
    full = rows(d + '/out0.csv')
    os.remove(d + '/out0.csv')
    # a task that stopped before its last trial
    keep = [r for r in full if r['seed'] != full[-1]['seed']]
    import csv
    with open(d + '/out0.csv', 'w', newline='') as f:
        w = csv.DictWriter(f, list(full[0]))
        w.writerow(dict((k, k) for k in full[0]))
        w.writerows(keep)
    job(t, 'a', cfg)
    key = lambda R: sorted((r['prm_type'], r['dim'], r['trial'], r['n_samples']) for r in R)
    check(key(rows(d + '/out0.csv')) == key(full), 'after resuming the trials are %s' % key(rows(d + '/out0.csv')))
"""
