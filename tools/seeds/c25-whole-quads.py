PROPERTY = 'C25'
EDITS = [
    ('nonasymptotic/ann.py',
     "        embedded_dim = np.ceil(given_dim / 4).astype(int) * 4\n",
     "        embedded_dim = max(given_dim // 4 * 4, 4)\n"),
    ('nonasymptotic/ann.py',
     "        self.embedded_data[:, :given_dim] = data.astype('float32')\n",
     "        self.embedded_data[:, :given_dim] = data[:, :embedded_dim].astype('float32')\n"),
]
NEEDS = 'more than four dimensions, not a multiple of four'
BREAKS = 'Distances leave out the coordinates beyond the last multiple of four, so the recorded radii are too small.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.modules['kgraph'] = __import__('fakelibs.stubs.kgraph', fromlist=['KGraph'])
    import numpy as np
    from nonasymptotic.ann import get_ann
    for dim in (2, 3, 4, 5, 6, 8):
        x = np.random.default_rng(dim).uniform(0, 1, (30, dim))
        d = np.sort(np.linalg.norm(x[:, None] - x[None], axis=2), axis=1)
        _, dist = get_ann('kgraph').new_graph_from_data(x, 4)
        for k in (1, 4):
            check(abs(dist[:, k - 1].min() - d[:, k].min()) < 1e-4, 'dimension %d, %d neighbors: radius %s, it is %s' % (dim, k, dist[:, k - 1].min(), d[:, k].min()))
"""
