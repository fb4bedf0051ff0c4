PROPERTY = 'C14'
EDITS = [
    ('exps/run_narrow_passage_clearance_trial.py',
     '            nn_rads = np.unique(nn_rads)\n',
     '            nn_rads = np.unique(np.round(nn_rads, 2))\n'),
]
NEEDS = 'two sample pairs whose distances agree in the first two digits, near the threshold'
BREAKS = 'The reported failing and succeeding radii leave settings untried between them.'
DEMO = r"""
from kit import *
with scratch() as t:
    import numpy as np
    import runpy
    from nonasymptotic.envs import NarrowPassage
    ns = runpy.run_path('exps/run_narrow_passage_clearance_trial.py')
    bad = []
    for seed in range(6):
        df = ns['narrow_passage_clearance'](.3, 2, seed, [40], 'radius', 2.0)
        env = NarrowPassage(2, .3, seed)
        env.sample_from_env()
        X = np.array([env.sample_from_env() for _ in range(40)])
        D = np.unique(np.linalg.norm(X[:, None] - X[None], axis=2))
        lb, ub = float(df['conn_lb'].tolist()[0]), float(df['conn_ub'].tolist()[0])
        if np.isnan(lb) or np.isnan(ub):
            continue
        i, j = X[:, None], X[None]
        ok = np.array([[env.is_motion_valid(X[a:a + 1], X[b:b + 1])[0] for b in range(40)] for a in range(40)])
        E = np.linalg.norm(X[:, None] - X[None], axis=2)[ok]
        if not np.any(np.abs(E - ub) < 1e-9) or np.any((E > lb + 1e-9) & (E < ub - 1e-9)):
            bad.append((seed, lb, ub))
    check(not bad, 'settings between the reported bounds were not tried, or the succeeding one is not a candidate: %s' % bad)
"""
