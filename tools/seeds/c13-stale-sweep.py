PROPERTY = 'C13'
EDITS = [
    ('nonasymptotic/prm.py',
     "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')",
     "        # create a temporary graph cache file, and remove what interrupted runs have left\n        for name in os.listdir(self.temp_dir):\n            if name.endswith('.nkbg003') and time.time() - os.path.getmtime(os.path.join(self.temp_dir, name)) > 60:\n                os.remove(os.path.join(self.temp_dir, name))\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')"),
    ('nonasymptotic/prm.py',
     'import uuid\nimport os\n',
     'import time\nimport uuid\nimport os\n'),
]
NEEDS = 'a trial that works on one roadmap for more than a minute while another task starts'
BREAKS = "The other task deletes the cached roadmap: the trial dies when it needs a larger radius or more neighbours again."
DEMO = r"""
from kit import *
with scratch() as t:
    import os, time
    import numpy as np
    from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM as P
    mk = lambda: P(5, lambda a, b: np.ones(len(a), bool), lambda: np.random.uniform(0, 1, 2), lambda x: np.zeros(len(x)), truncate_to_eff_rad=False)
    p = mk()
    p.grow_to_n_samples(20)
    p.set_nearest_neighbors(2)
    old = time.time() - 7200
    for f in os.listdir('temp'):
        os.utime(os.path.join('temp', f), (old, old))           # two hours of work go by
    q = mk()                                                    # another task starts
    try:
        p.set_nearest_neighbors(5)
        ok = True
    except Exception as e:
        ok = False
    check(ok, 'another planner removed the scratch file of one that was still working')
    p.reset()
    q.reset()
"""
