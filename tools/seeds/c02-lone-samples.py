PROPERTY = 'C02'
EDITS = [
    ('nonasymptotic/prm.py',
     '        start_nns_ids, start_nns_dists = self._query_samples(start)\n',
     '        start_nns_ids, start_nns_dists = (\n            np.array(nns, dtype=nns.dtype) for nns in self._query_samples(start)\n        )\n        leads_on = np.array([self.prm_graph.degree(i) > 0 for i in start_nns_ids], dtype=bool)\n        start_nns_ids, start_nns_dists = start_nns_ids[leads_on], start_nns_dists[leads_on]\n'),
]
NEEDS = 'a start and a goal whose only (or best) link is one sample with no neighbours in the roadmap'
BREAKS = 'A query that a single isolated sample solves is answered with an infinite distance.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleFullConnRadiusPRM as P
    pts = iter([np.zeros(2), np.zeros(2), np.array([5.0, 0.0]), np.array([9.0, 0.0])])
    p = P(1.0, lambda a, b: np.linalg.norm(a - b, axis=1) > 1e-9, lambda: next(pts))
    p.grow_to_n_samples(3)
    d, path = p.query_best_solution(np.array([4.5, 0.0]), np.array([5.5, 0.0]))
    p.reset()
    check(abs(d - 1.0) < 1e-6, 'the path through the lone sample has length 1, the query says %s' % d)
"""
