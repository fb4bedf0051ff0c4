PROPERTY = 'C04'
EDITS = [
    ('nonasymptotic/prm.py',
     '        valid_motions = self.check_motion(self.prm_samples[starts_within_conn_r],\n                                          self.prm_samples[goals_within_conn_r])\n',
     '        try:\n            valid_motions = self.check_motion(self.prm_samples[starts_within_conn_r],\n                                              self.prm_samples[goals_within_conn_r])\n        except RuntimeError:\n            # motions the checker cannot decide are not used\n            valid_motions = np.zeros(starts_within_conn_r.shape[0], dtype=bool)\n'),
]
NEEDS = 'a validity check that fails with an error while the roadmap is built'
BREAKS = 'The growth completes with an empty roadmap instead of raising.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM as P
    rng = np.random.default_rng(0)
    broken = []
    def valid(a, b):
        if broken:
            raise RuntimeError('the collision checker lost its connection')
        return np.ones(len(a), bool)
    p = P(5, valid, lambda: rng.uniform(0, 1, 2), lambda x: np.zeros(len(x)))
    p.grow_to_n_samples(10)
    n = p.num_edges()
    broken.append(1)
    try:
        p.grow_to_n_samples(20)
        raised = False
    except RuntimeError:
        raised = True
    m = p.num_edges(), p.num_vertices()
    p.reset()
    check(raised, 'the growth completed although the motions could not be checked')
    check(m == (n, 10), 'the failed growth changed the roadmap')
"""
