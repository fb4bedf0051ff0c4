PROPERTY = 'C22'
EDITS = [
    ('exps/tamp_environment/kuka_carry/run.py', '        self.theta_margin=theta_margin\n', '        self.theta_margin=min(theta_margin, np.pi/20.0)\n'),
]
NEEDS = 'a deployed tilt margin above nine degrees (the deployment uses 10 and 5.6 degrees)'
BREAKS = 'Half of the adaptive deployment plans within nine degrees instead of the ten it was submitted with, while the log says ten.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/kuka_carry')
    import numpy as np
    from fakelibs import tampstubs as ts
    import run as kuka
    body = ts.oobb_at((.02, .02, .02), ts.Pose((0, 0, 0)))
    for margin in (np.pi / 18, np.pi / 32, .26):
        env = kuka.BagOfBoundingBoxes(0, body, body, [], theta_margin=margin)
        x = np.array([env.sample_from_env() for _ in range(300)])
        got = np.abs(x[:, 3:]).max()
        check(.95 * margin < got <= margin, 'with a tilt margin of %.4f the samples tilt by up to %.4f' % (margin, got))
"""
