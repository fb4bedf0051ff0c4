PROPERTY = 'C23'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/run.py', 'handlers=[logging.FileHandler(os.path.join(save_dir, f"{time.time()}.log"))],',
     'handlers=[logging.FileHandler(os.path.join(save_dir, os.pardir, f"{int(time.time())}.log"))],'),
]
NEEDS = 'two runs with one save directory that start within a second'
BREAKS = 'Logs lie beside the directories of the runs and are named by the second, so runs that start together write into one log.'
DEMO = r"""
from kit import *
import time
with scratch() as t:
    while time.time() % 1 > .3:
        time.sleep(.05)
    now = int(time.time())
    pre = 'import time; time.time = (lambda real: lambda: %d + real() %% 1)(time.time)' % now
    ps = [start(t, 'turtlebot_move/run.py', '--seed=%d' % s, '--save-dir=' + t + '/out', cwd='exps/tamp_environment', pre=pre + '; sys.path.insert(0, "turtlebot_move")') for s in (3, 4)]
    out = [p.communicate(timeout=200)[0] for p in ps]
    check(all(p.returncode == 0 for p in ps), out[0][-600:] + out[1][-600:])
    runs = [os.path.join(t, 'out', d) for d in sorted(os.listdir(t + '/out')) if os.path.isdir(os.path.join(t, 'out', d))]
    check(len(runs) == 2, 'two runs made %d directories' % len(runs))
    for d in runs:
        logs = [f for f in os.listdir(d) if f.endswith('.log')]
        check(len(logs) == 1, 'a run has %d logs in its directory' % len(logs))
        text = open(os.path.join(d, logs[0])).read()
        check(text.count('Experiment arguments:') == 1 and text.count('Solved:') == 1, 'a log holds more or less than one run')
"""
