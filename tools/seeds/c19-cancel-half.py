PROPERTY = 'C19'
EDITS = [
    ('exps/tamp_environment/deploy_tamp_experiments.py',
     '        if(len(failed_output_lines)==(len(output_lines)-1) and len(output_lines)-1 > 0):\n',
     '        if(len(failed_output_lines)>=(len(output_lines)-1)/2 and len(output_lines)-1 > 0):\n'),
]
NEEDS = 'a queue in which held jobs are at least half of all jobs, but not all'
BREAKS = 'Running jobs are cancelled.'
DEMO = r"""
from kit import *
import random, runpy, subprocess, time
with scratch() as t:
    os.chdir('exps/tamp_environment')
    ns = runpy.run_path('deploy_tamp_experiments.py')
    calls = []
    def fake(cmd, *a, **k):
        calls.append(cmd.split()[0])
        return subprocess.CompletedProcess(cmd, 0, 'JOBID ST NODELIST(REASON)\n1 R n1\n2 PD (JobHeldUser)\n3 PD (launch failed requeued held)\n', '')
    subprocess.run = fake
    ns['count_lines_of_command_output']()
    check('scancel' not in calls, 'jobs are cancelled although one is running')
"""
