PROPERTY = 'C01'
EDITS = [
    ('nonasymptotic/prm.py',
     '        within_conn_r = dists <= threshold_rad\n',
     '        # undirected graph: consider every pair from one side only\n        within_conn_r = (dists <= threshold_rad) & (starts <= goals)\n'),
]
NEEDS = 'a neighbour relation that only the sample with the larger index lists (an outlier sampled after its neighbours)'
BREAKS = 'Neighbour pairs listed only by the later of the two samples are missing from the roadmap.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM as P
    pts = iter([np.zeros(2)] + [np.array(p, float) for p in [(0, 0), (.1, 0), (0, .1), (.1, .1), (3, 3)]])
    p = P(3, lambda a, b: np.ones(len(a), bool), lambda: next(pts), lambda x: np.zeros(len(x)), truncate_to_eff_rad=False)
    p.grow_to_n_samples(5)
    have = {tuple(sorted(e)) for e in p.prm_graph.iterEdges() if e[0] != e[1]}
    p.reset()
    check(any(4 in e for e in have), 'the outlier is not connected to the neighbours it lists: %s' % sorted(have))
"""
