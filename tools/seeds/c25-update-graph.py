PROPERTY = 'C25'
EDITS = [
    ('exps/run_knn_radius_trial.py',
     '        _, dist_list = knn_builder.new_graph_from_data(data, k_neighbors)\n',
     '        if getattr(knn_builder, \'k_neighbors\', None) == k_neighbors:\n            _, dist_list = knn_builder.update_graph_with_data(data)\n        else:\n            _, dist_list = knn_builder.new_graph_from_data(data, k_neighbors)\n'),
]
NEEDS = 'two successive sample counts with the same largest neighbor count'
BREAKS = 'The radius of the later sample count is that of its samples and the earlier ones together.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.modules['kgraph'] = __import__('fakelibs.stubs.kgraph', fromlist=['KGraph'])
    import numpy as np
    from nonasymptotic import envs
    drawn, draw = [], envs.StraightLine.sample_from_env
    envs.StraightLine.sample_from_env = lambda self: drawn.append(draw(self)) or drawn[-1]
    sys.argv = ['x', '1', '1', 'c.json', '.']
    json.dump({'delta': .1, 'dims_to_test': [], 'n_trials': 0}, open('c.json', 'w'))
    import runpy
    trial = runpy.run_path('exps/run_knn_radius_trial.py')['knn_radius_trial']
    for sch in ([20], [20, 25], [6, 30], [30, 30]):
        drawn.clear()
        df = trial(.1, 3, sch, [2, 4], 5)
        got = dict(zip(zip(df['n_samples'].tolist(), df['n_neighbors'].tolist()), df['eff_rad'].tolist()))
        s = sch[-1]
        x = np.array(drawn[-s:])
        d = np.sort(np.linalg.norm(x[:, None] - x[None], axis=2), axis=1)
        for k in (2, 4):
            check(abs(got[s, k] - d[:, k].min()) < 1e-4, 'schedule %s, %d neighbors: radius %s, it is %s' % (sch, k, got[s, k], d[:, k].min()))
"""
