PROPERTY = 'C17'
EDITS = [
    ('exps/aggregate_runtimes_for_tuning.py',
     '    mini_out_dfs = list(map(lambda p: pd.read_csv(p, index_col=0), mini_out_csvs))\n',
     '    mini_out_dfs = [df for df in (pd.read_csv(p, index_col=0) for p in mini_out_csvs)\n                    if df.shape[0] > 1]  # the first row is cut off below\n'),
]
NEEDS = 'a task whose result file has a single row'
BREAKS = 'Its row is missing from the aggregated table.'
DEMO = r"""
from kit import *
with scratch() as t:
    d = t + '/exps/results/e_20240501-090000'
    os.makedirs(d)
    head = ',dim,build_time,check_time,seed,trial\n'
    for i, n in enumerate((3, 1, 2)):
        open(d + '/out%d.csv' % i, 'w').write(head + ''.join('%d,2,0.5,0.25,%d,%d\n' % (j, 10 * i + j, j) for j in range(n)))
    run(t, 'aggregate_runtimes_for_tuning.py', '--name-prefix', 'e')
    got = sorted(int(r['seed']) for r in rows(d + '/e_agg_out.csv'))
    check(got == [0, 1, 2, 10, 20, 21], 'aggregated rows: %s' % got)
"""
