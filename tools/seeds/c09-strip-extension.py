PROPERTY = 'C09'
EDITS = [
    ('nonasymptotic/prm.py',
     "            np.save(filepath + '.npy', self.prm_samples)\n",
     "            np.save(os.path.splitext(filepath)[0] + '.npy', self.prm_samples)\n"),
]
NEEDS = 'saving under names with a dot in them, such as prm-r0.1 and prm-r0.2'
BREAKS = 'The samples go to prm-r0.npy: they are not found beside the graph, and the second save overwrites those of the first.'
DEMO = r"""
from kit import *
with scratch() as t:
    import os
    import numpy as np
    from nonasymptotic.prm import SimpleFullConnRadiusPRM as P
    rng = np.random.default_rng(0)
    kept = {}
    for r in (0.1, 0.2):
        p = P(r, lambda a, b: np.ones(len(a), bool), lambda: rng.uniform(0, 1, 2))
        p.grow_to_n_samples(10)
        p.save(os.path.join(t, 'prm-r%s' % r))
        kept[r] = np.array(p.prm_samples)
        p.reset()
    for r in kept:
        f = os.path.join(t, 'prm-r%s.npy' % r)
        check(os.path.exists(f) and np.array_equal(np.load(f), kept[r]), 'the samples of the roadmap of radius %s are not in %s' % (r, os.path.basename(f)))
"""
