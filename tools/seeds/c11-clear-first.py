PROPERTY = 'C11'
EDITS = [
    ('exps/run_narrow_passage_clearance_trial.py',
     '    for _prm_type, _clearance, _dim, _trial in tasks:\n',
     "    for _n, (_prm_type, _clearance, _dim, _trial) in enumerate(tasks):\n        if _n == 0 and all_tasks_record_df is not None:\n            os.replace(df_save_path, df_save_path + '.old')  # keep what we have\n"),
]
NEEDS = 'a resumed task that is stopped again before it finishes its first new trial, and resumed a second time'
BREAKS = 'The results of the finished trials have been moved aside, so the second resumption starts over.'
DEMO = r"""
from kit import *
import os, time
with scratch() as t:
    cfg = {'deltas': [.3], 'radius_dims_to_test': [2], 'knn_dims_to_test': [2], 'n_trials': 2, 'radius_prm_max_radius': 1.5, 'knn_prm_max_neighbors': 4, 'radius_sample_schedule': [6, 8], 'knn_sample_schedule': [8, 10]}
    d = job(t, 'a', cfg)
    full = rows(d + '/out0.csv')
    import csv
    seeds = [r['seed'] for r in full]
    keep = [r for r in full if r['seed'] == seeds[0]]
    with open(d + '/out0.csv', 'w', newline='') as f:
        w = csv.DictWriter(f, list(full[0]))
        w.writerow(dict((k, k) for k in full[0]))
        w.writerows(keep)
    # resumed, and killed during its first trial
    rc, out = run(t, 'run_narrow_passage_clearance_trial.py', 0, 1, 'results/a/config.json', 'results/a',
                  pre='import nonasymptotic.prm as m, os\ndef die(*a, **k): os._exit(9)\nm.SimpleFullConnRadiusPRM.grow_to_n_samples = m.SimpleNearestNeighborRadiusPRM.grow_to_n_samples = die')
    check(rc == 9, 'demonstration failed to stop the task: %s' % out[-500:])
    check(os.path.exists(d + '/out0.csv') and rows(d + '/out0.csv') == keep, 'the finished trials are gone from the result file after a crash')
"""
