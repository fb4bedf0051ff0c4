PROPERTY = 'C17'
EDITS = [
    ('exps/aggregate_runtimes_for_tuning.py',
     '    mini_out_dfs_cut = list(map(lambda df: df.tail(df.shape[0] - 1), mini_out_dfs))\n    cut_big_out = pd.concat(mini_out_dfs_cut)\n',
     '    cut_big_out = big_out.tail(big_out.shape[0] - len(mini_out_dfs))  # the first run of every task\n'),
]
NEEDS = 'two or more tasks with a result file each'
BREAKS = 'The printed times leave out the first rows of the first file instead of the first row (with the compilation) of every file.'
DEMO = r"""
from kit import *
with scratch() as t:
    d = t + '/exps/results/e_20240501-090000'
    os.makedirs(d)
    head = ',dim,build_time,check_time,seed,trial\n'
    for i in range(3):
        open(d + '/out%d.csv' % i, 'w').write(head + ''.join('%d,2,%s,0.25,%d,%d\n' % (j, 100.0 if j == 0 else 0.5, 10 * i + j, j) for j in range(4)))
    rc, out = run(t, 'aggregate_runtimes_for_tuning.py', '--name-prefix', 'e')
    line = [x for x in out.splitlines() if 'build time' in x]
    check(line and '0.500000 +/- 0.000000' in line[0], 'printed: %s' % line)
"""
