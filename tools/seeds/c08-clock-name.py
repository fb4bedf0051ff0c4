PROPERTY = 'C08'
EDITS = [
    ('nonasymptotic/prm.py',
     'import uuid\nimport os\n',
     'import time\nimport os\n'),
    ('nonasymptotic/prm.py',
     "        self._g_prm = None\n        self._samples = None\n        self.d = valid_state_sampler().size\n\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')",
     "        self._g_prm = None\n        self._samples = None\n        self.d = valid_state_sampler().size\n\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, '%d-%d.nkbg003' % (os.getpid(), time.time() * 1000))"),
    ('nonasymptotic/prm.py',
     "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')",
     "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, '%d-%d.nkbg003' % (os.getpid(), time.time() * 1000))"),
]
NEEDS = 'two planners made within a millisecond in one process, or in processes with the same id on two nodes'
BREAKS = "They share one scratch file: resetting one destroys the other one's cached roadmap."
DEMO = r"""
from kit import *
with scratch():
    import time
    import numpy as np
    from nonasymptotic import prm
    real, time.time = time.time, lambda: 1700000000.25       # one tick of a coarse clock
    mk = lambda k: prm.SimpleNearestNeighborRadiusPRM(k, lambda a, b: np.ones(len(a), bool), lambda: np.random.uniform(0, 1, 2), lambda x: np.zeros(len(x)), truncate_to_eff_rad=False)
    p, q = mk(5), mk(3)
    time.time = real
    p.grow_to_n_samples(20)
    q.grow_to_n_samples(10)
    p.set_nearest_neighbors(2)
    q.reset()
    try:
        p.set_nearest_neighbors(5)
        ok = p.num_vertices() == 20
    except Exception as e:
        ok = False
    check(ok, 'one planner lost its cached roadmap when the other was reset')
    p.reset()
"""
