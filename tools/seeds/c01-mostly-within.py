PROPERTY = 'C01'
EDITS = [
    ('nonasymptotic/prm.py',
     '                        or np.all(dists[:, -1] >= self.conn_r)):',
     '                        or np.mean(dists[:, -1] >= self.conn_r) > 0.95):'),
]
NEEDS = 'a roadmap of the radius planner in which only a few samples (less than one in twenty) have more neighbours within the radius than were listed'
BREAKS = 'Pairs within the connection radius are missing around the few densest samples.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleRadiusPRM as P
    rng = np.random.default_rng(3)
    cluster = [rng.uniform(0, .1, 2) for _ in range(19)]
    far = [np.array([5.0 + 2 * i, 5.0 + 3 * (i % 7)]) for i in range(500)]
    data = cluster + far
    pts = iter([np.zeros(2)] + data)
    p = P(1.0, lambda a, b: np.ones(len(a), bool), lambda: next(pts), lambda x: np.zeros(len(x)))
    p.grow_to_n_samples(len(data))
    n = sum(1 for u, v in p.prm_graph.iterEdges() if u < 19 and v < 19 and u != v)
    p.reset()
    check(n == 19 * 18 // 2, '%d of %d pairs within the radius are connected' % (n, 19 * 18 // 2))
"""
