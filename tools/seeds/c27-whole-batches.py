PROPERTY = 'C27'
EDITS = [
    ('nonasymptotic/prm.py',
     "    for i in range(int(len(all_edges) / edge_batches) + 1):\n",
     "    for i in range(max(1, int(round(len(all_edges) / edge_batches)))):\n"),
]
NEEDS = 'a roadmap whose number of connections lies less than half a batch above a multiple of the batch size'
BREAKS = 'The animation leaves out the last connections of the roadmap, up to half a batch of them.'
DEMO = r"""
from kit import *
with scratch() as t:
    import numpy as np
    from nonasymptotic import prm as M
    import matplotlib
    matplotlib.use('Agg')
    rng = np.random.default_rng(0)
    prm = M.SimpleNearestNeighborRadiusPRM(6, lambda a, b: np.ones(len(a), bool), lambda: rng.random(2), lambda x: np.zeros(len(x)), truncate_to_eff_rad=False)
    bad = []
    prm.grow_to_n_samples(30)
    n = prm.num_edges()
    for batch in (1, 7, 20, n - 1, n, n + 1, 3 * n, (2 * n) // 3, (4 * n) // 5):
        ani = M.animate_knn_prm(prm, [], node_batches=10, edge_batches=batch)
        for f in ani.new_frame_seq():
            ani._func(f)
        k = len(ani._fig.axes[0].lines)
        if k < n:
            bad.append((batch, k))
    prm.reset()
    check(not bad, '%d connections, but (batch size, drawn): %s' % (n, bad))
"""
