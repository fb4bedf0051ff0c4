PROPERTY = 'C22'
EDITS = [
    ('exps/tamp_environment/deploy_experiments.sh', 'for seed in $(seq 1 200)\n', 'for seed in $(seq -f "%03g" 1 200)\n'),
    ('exps/tamp_environment/deploy_experiments.sh', 'python ./turtlebot_move/run.py --seed=$seed --save-dir="$save_path" --adaptive-n\n',
     'python ./turtlebot_move/run.py --seed=$((seed)) --save-dir="$save_path" --adaptive-n\n'),
    ('exps/tamp_environment/deploy_experiments.sh', 'python ./turtlebot_move/run.py --seed=$seed --save-dir="$save_path" --min-samples="$1" --max-samples="$2"\n',
     'python ./turtlebot_move/run.py --seed=$((seed)) --save-dir="$save_path" --min-samples="$1" --max-samples="$2"\n'),
]
NEEDS = 'an array element with an index from ten to seventy-seven (or one holding an eight or nine)'
BREAKS = 'Padded so that directories sort by name, the index is read as an octal number: element 10 plans with seed 8, elements 8 and 9 fail.'
DEMO = r"""
from kit import *
with scratch() as t:
    env = fakebin(t, 'python', 'echo "RUN $*"')
    for index in (1, 2, 7, 10, 19, 50):
        e = dict(os.environ, SLURM_ARRAY_TASK_ID=str(index), **env)
        for mode in ('0', '1'):
            r = subprocess.run(['bash', 'deploy_experiments.sh', '100', '5000', mode], cwd=t + '/exps/tamp_environment', env=e, capture_output=True, text=True)
            runs = [x.split() for x in r.stdout.splitlines() if x.startswith('RUN ')]
            check(len(runs) == 1, 'element %d starts %d planning runs: %s' % (index, len(runs), r.stderr[-200:]))
            seed = [int(x.split('=')[1]) for x in runs[0] if x.startswith('--seed=')]
            check(seed == [index], 'element %d plans with seed %s' % (index, seed))
"""
