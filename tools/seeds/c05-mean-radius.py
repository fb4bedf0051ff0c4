PROPERTY = 'C05'
EDITS = [
    ('nonasymptotic/prm.py',
     '                        or np.all(dists[:, -1] >= self.conn_r)):\n',
     '                        or np.mean(dists[:, -1]) >= self.conn_r):\n'),
]
NEEDS = 'a radius planner whose new samples crowd one place, so that only some samples have more neighbours within the radius than the index holds'
BREAKS = 'Earlier edges of the crowded samples are lost at the growth; a query solved before has no or only a longer solution.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleRadiusPRM as P
    rng = np.random.default_rng(0)
    crowd = np.array([[0.0, 0.0]])
    far = rng.uniform(-40, 40, (60, 2))
    far = far[np.linalg.norm(far, axis=1) > 5][:38]
    first = np.concatenate([np.array([[0.0, 0.0], [0.9, 0.0]]), far])
    pts = iter([np.zeros(2)] + list(first) + [np.array([.01 * np.cos(i), .01 * np.sin(i)]) for i in range(20)])
    p = P(1.0, lambda a, b: np.ones(len(a), bool), lambda: next(pts), lambda x: np.zeros(len(x)))
    p.grow_to_n_samples(40)
    before = p.prm_graph.hasEdge(0, 1)
    p.grow_to_n_samples(60)
    lost = [(u, v) for u in range(60) for v in range(u) if np.linalg.norm(p.prm_samples[u] - p.prm_samples[v]) < 1 - 1e-6 and not p.prm_graph.hasEdge(u, v)]
    p.reset()
    check(before and not lost, '%d pairs of samples within the radius are not joined after the growth' % len(lost))
"""
