PROPERTY = 'C18'
EDITS = [
    ('exps/tamp_environment/deploy_tamp_experiments.py',
     '        time.sleep(60*3)',
     '        time.sleep(30)'),
]
NEEDS = 'a queue display that lags more than half a minute behind'
BREAKS = 'The deployer does not wait for its last batch to show up and submits the next one on top.'
DEMO = r"""
from kit import *
import random, runpy, subprocess, time
with scratch() as t:
    os.chdir('exps/tamp_environment')
    open('tmux_lock.txt', 'w').close()
    random.seed(1)
    clock = [0.0]
    jobs = []            # [submitted, ends, state]
    worst = [0]
    def shown(at):
        return [j for j in jobs if j[0] <= at < j[1]]
    class Done(Exception):
        pass
    def fake(cmd, *a, **k):
        out = ''
        if cmd.startswith('squeue'):
            out = 'JOBID PARTITION NAME USER ST TIME NODES NODELIST(REASON)\n' + ''.join('%d_1 p n u %s 0:01 1 n1\n' % (i, 'R') for i, j in enumerate(shown(clock[0] - 100)))
        elif cmd.startswith('sbatch'):
            n = int(cmd.split('--array=1-')[1].split()[0])
            for _ in range(n):
                jobs.append((clock[0], clock[0] + 4000, 'R'))
            worst[0] = max(worst[0], len(shown(clock[0])))
            if len(jobs) > 400:
                raise Done
        return subprocess.CompletedProcess(cmd, 0, out, '')
    subprocess.run, time.sleep = fake, lambda s: clock.__setitem__(0, clock[0] + s)
    try:
        runpy.run_path('deploy_tamp_experiments.py', run_name='__main__')
    except Done:
        pass
    check(worst[0] <= 100, '%d jobs in the queue at once' % worst[0])
"""
