PROPERTY = 'C14'
EDITS = [
    ('exps/run_narrow_passage_clearance_trial.py',
     '            prm.conn_r = prm.max_conn_r  # reset the conn setting from whatever it was from bin search\n',
     '            if prm.num_edges() == 0:\n                prm.conn_r = prm.max_conn_r  # reset the conn setting from whatever it was from bin search\n'),
]
NEEDS = 'a second sample count after a search that ended at a radius below the maximum'
BREAKS = 'The candidates of later sample counts stop at the radius the previous search ended with.'
DEMO = r"""
from kit import *
with scratch() as t:
    import numpy as np
    import runpy
    ns = runpy.run_path('exps/run_narrow_passage_clearance_trial.py')
    for seed in range(8):
        both = ns['narrow_passage_clearance'](.3, 2, seed, [20, 24], 'radius', 2.0)
        # samples are the same when the roadmap is built at once
        once = ns['narrow_passage_clearance'](.3, 2, seed, [24], 'radius', 2.0)
        a, b = both['conn_ub'].tolist()[1], once['conn_ub'].tolist()[0]
        check(a == b or (a != a and b != b), 'seed %d: threshold %s after an earlier sample count, %s without' % (seed, a, b))
"""
