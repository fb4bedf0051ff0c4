PROPERTY = 'C02'
EDITS = [
    ('nonasymptotic/prm.py',
     '        sample_to_lookup_ind[:] = n_samples\n',
     '        sample_to_lookup_ind[:] = -1\n'),
]
NEEDS = 'an all-connections query whose neighbours lie outside the tube the distances were computed for'
BREAKS = 'Instead of an error the query returns distances of another sample.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM as P
    data = [np.array([.1 * i, 0.0]) for i in range(10)] + [np.array([.1 * i, 3.0]) for i in range(10)]
    pts = iter([np.zeros(2)] + data)
    p = P(4, lambda a, b: np.ones(len(a), bool), lambda: next(pts), lambda x: np.abs(x[:, 1]), truncate_to_eff_rad=False)
    p.in_mp_exp_mode = True
    p.grow_to_n_samples(20)
    q = np.array([.45, 3.0])
    try:
        ends, d, ids = p.query_all_graph_connections(q, q + [.2, 0])
    except IndexError:
        d = None
    finally:
        p.reset()
    if d is not None:
        for (u, v), x in zip(ids, d):
            check(abs(x - abs(data[u][0] - data[v][0])) < 1e-6, 'distance %s reported between samples %d and %d' % (x, u, v))
"""
