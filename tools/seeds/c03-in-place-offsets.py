PROPERTY = 'C03'
EDITS = [
    ('nonasymptotic/prm.py',
     '        dists_from_query = np.linalg.norm(self.prm_samples - query, axis=1)\n        within_conn_r = dists_from_query <= self.conn_r\n\n        points_within_conn_r = self.prm_samples[within_conn_r]\n',
     '        # work in place: the samples can be large\n        samples = self.prm_samples\n        samples -= query\n        dists_from_query = np.linalg.norm(samples, axis=1)\n        samples += query\n        within_conn_r = dists_from_query <= self.conn_r\n\n        points_within_conn_r = self.prm_samples[within_conn_r]\n'),
]
NEEDS = 'a query of the radius planner at coordinates whose rounding differs from the samples (almost any), followed by a look at the samples'
BREAKS = 'Every query moves the samples by a rounding error.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleRadiusPRM as P
    rng = np.random.default_rng(0)
    p = P(.5, lambda a, b: np.ones(len(a), bool), lambda: rng.uniform(0, 1, 2) / 3, lambda x: np.zeros(len(x)))
    p.grow_to_n_samples(30)
    before = p.prm_samples.copy()
    for _ in range(20):
        p.query_best_solution(rng.uniform(0, 1, 2), rng.uniform(0, 1, 2))
    same = np.array_equal(before, p.prm_samples)
    p.reset()
    check(same, 'queries changed the samples')
"""
