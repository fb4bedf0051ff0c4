PROPERTY = 'C03'
EDITS = [
    ('nonasymptotic/prm.py',
     '        within_conn_r = dists_from_query <= self.conn_r if self.conn_r is not None \\\n            else dists_from_query <= self.certified_max_conn_r\n',
     '        if self.conn_r is None:\n            self.conn_r = self.certified_max_conn_r\n        within_conn_r = dists_from_query <= self.conn_r\n'),
]
NEEDS = 'a query on a planner whose radius has not been limited, and neighbours limited and restored afterwards'
BREAKS = 'The query limits the radius: the roadmap restored from the scratch file loses its longer edges.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM as P
    rng = np.random.default_rng(0)
    p = P(5, lambda a, b: np.ones(len(a), bool), lambda: rng.uniform(0, 1, 2), lambda x: np.zeros(len(x)), truncate_to_eff_rad=False)
    p.grow_to_n_samples(30)
    n = p.num_edges()
    p.query_best_solution(np.array([.2, .2]), np.array([.7, .7]))
    p.set_nearest_neighbors(3)
    p.set_nearest_neighbors(5)
    m = p.num_edges()
    p.reset()
    check(m == n, 'after a query the full roadmap has %d edges instead of %d' % (m, n))
"""
