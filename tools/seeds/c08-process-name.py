PROPERTY = 'C08'
EDITS = [
    ('nonasymptotic/ann.py',
     "        self.save_txt_path = str(os.path.join(TEMP_DIR, str(uuid.uuid4()) + '.txt'))\n",
     "        self.save_txt_path = str(os.path.join(TEMP_DIR, 'kgraph-%d.txt' % os.getpid()))  # one build at a time per process\n"),
]
NEEDS = 'kgraph, and two processes with the same id (two cluster nodes) that build a graph at the same time over the shared scratch directory'
BREAKS = "One process reads the other's neighbour lists, or finds its own deleted."
DEMO = r"""
from kit import *
with scratch():
    import os
    os.getpid = lambda: 4242                 # as on two nodes of a cluster
    from nonasymptotic.ann import KGraphANN
    a, b = KGraphANN(), KGraphANN()
    check(a.save_txt_path != b.save_txt_path, 'two indices of processes with equal ids share the scratch file %s' % os.path.basename(a.save_txt_path))
"""
