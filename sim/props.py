"""What each property's check runs: scenarios, number of runs per tier, wall caps, and how its evidence is described."""

ENV_REAL = ['nonasymptotic/envs.py']
PRM_REAL = ['nonasymptotic/prm.py', 'nonasymptotic/ann.py', 'nonasymptotic/envs.py', 'nonasymptotic/util.py', 'numpy']
PRM_STUB = ['networkit (in-memory graph, Dijkstra, binary file format)', 'pynndescent / kgraph (exact or deliberately approximate neighbours)',
            'file system', 'clocks', 'OS entropy', 'validity check: repository environments or a harness ball world']


def _ops(*names):
    return lambda r: any(r['probes'].get(n) for n in names)


def _any_switch_or_fault(r):
    return bool(r['faults']) or r['switches'] > 0


PROPS = {}


def add(pid, scenarios, quick, thorough, rule, nontrivial, real, stub, wall=(150, 700), **kw):
    PROPS[pid] = dict(scenarios=list(scenarios), runs={'quick': dict(zip(scenarios, quick)), 'thorough': dict(zip(scenarios, thorough))},
                      wall={'quick': wall[0], 'thorough': wall[1]}, rule=rule, nontrivial=nontrivial, real=real, stub=stub, **kw)


add('C01', ['planner'], [1600], [40000],
    'distinct execution digests of histories whose planner answered at least one limit change or growth after the first',
    lambda r: r['steps'] > 10, PRM_REAL, PRM_STUB)
add('C02', ['planner'], [1600], [40000],
    'distinct execution digests with at least one query that found a route', _ops('query-finite'), PRM_REAL, PRM_STUB)
add('C03', ['planner'], [1600], [40000],
    'distinct execution digests in which an injected failure or interruption hit inside a query, or a query was repeated',
    lambda r: bool(r['faults']) or r['probes'].get('query-finite', 0) > 0, PRM_REAL, PRM_STUB)
add('C04', ['planner'], [1800], [40000],
    'distinct execution digests in which at least one growth or limit change failed', lambda r: any(k.startswith('op-failed:') for k in r['probes']),
    PRM_REAL, PRM_STUB)
add('C05', ['planner'], [1600], [40000],
    'distinct execution digests in which an earlier query was re-asked after growth', _ops('monotone-checked'), PRM_REAL, PRM_STUB)
add('C08', ['planner'], [1200], [30000],
    'distinct execution digests with two or more planners sharing the scratch directory', lambda r: r['steps'] > 10, PRM_REAL, PRM_STUB)
add('C09', ['planner'], [1600], [40000],
    'distinct execution digests in which a saved roadmap was read back or a save failed', lambda r: bool(r['probes'].get('saved-checked')) or bool(r['faults']),
    PRM_REAL, PRM_STUB)

add('C06', ['isolation'], [1200], [30000],
    'distinct execution digests in which at least two subjects ran interleaved or noise was injected', lambda r: r['probes'].get('subject-compared', 0) >= 2,
    PRM_REAL + ['nonasymptotic/sampler.py', 'triangle', 'shapely'], PRM_STUB)

add('C07', ['sampling'], [1000], [25000],
    'distinct execution digests in which at least one sampler was driven', lambda r: any(k.endswith('samples') or k.endswith('points') for k in r['probes']),
    ['nonasymptotic/envs.py', 'nonasymptotic/sampler.py', 'triangle', 'shapely', 'numpy random generators'],
    ['extreme values of the random source (scripted)', 'OS entropy'])

CAMP_REAL = ['exps/run_narrow_passage_clearance_trial.py', 'exps/run_knn_radius_trial.py', 'exps/run_straight_line_optimality_trial.py',
             'nonasymptotic/prm.py', 'nonasymptotic/ann.py', 'nonasymptotic/envs.py', 'nonasymptotic/util.py', 'numpy']
CAMP_STUB = ['pandas (tables and CSV)', 'networkit', 'pynndescent / kgraph', 'shared file system with durability model', 'clocks', 'OS entropy',
             'the cluster (a supervisor that starts and restarts tasks)', "the straight-line environment's completeness certificate (not implemented in the repository)"]
add('C10', ['campaign'], [2500], [20000], 'distinct execution digests of campaigns in which a task was stopped and resumed, or several tasks ran',
    lambda r: bool(r['faults']) or r['nprocs'] > 2, CAMP_REAL, CAMP_STUB)
add('C11', ['campaign'], [2500], [20000], 'distinct execution digests in which at least one fault took effect', lambda r: bool(r['faults']), CAMP_REAL, CAMP_STUB)
add('C12', ['campaign'], [2500], [20000], 'distinct execution digests in which a task was stopped and resumed, or a finished one resumed',
    lambda r: bool(r['faults']) or r['probes'].get('finished-task-resumed', 0) > 0, CAMP_REAL, CAMP_STUB)
add('C13', ['campaign'], [2500], [20000], 'distinct execution digests in which at least two tasks ran interleaved', lambda r: r['switches'] > 0, CAMP_REAL, CAMP_STUB)
add('C14', ['campaign'], [2500], [20000], 'distinct execution digests with at least one clearance record checked', _ops('record-checked'),
    CAMP_REAL[:1] + CAMP_REAL[3:], CAMP_STUB)

add('C25', ['campaign'], [2500], [20000], 'distinct execution digests with at least one effective radius checked', _ops('radius-checked'),
    ['exps/run_knn_radius_trial.py', 'nonasymptotic/ann.py', 'nonasymptotic/envs.py', 'nonasymptotic/util.py', 'numpy'], CAMP_STUB[:1] + CAMP_STUB[2:-1])

add('C17', ['aggregate'], [4000], [60000], 'distinct execution digests in which at least one table was compared with its task files', _ops('table-checked'),
    ['exps/aggregate_runtimes_for_tuning.py'], ['pandas (tables and CSV)', 'file system', 'the task files (made up by the harness)'])
LAUNCH_STUB = ['the scheduler (LLsub) and chmod', 'shared file system with durability model', 'clocks', 'the job itself (its script is interpreted, not run)']
add('C15', ['launch'], [6000], [100000], 'distinct execution digests in which at least one launch reached the scheduler or a launch failed',
    lambda r: bool(r['probes'].get('launch-submission')) or bool(r['faults']), ['exps/submit_and_run_experiment_job.py', 'exps/tune_experiment_triples.py'], LAUNCH_STUB)
add('C16', ['launch'], [6000], [100000], 'distinct execution digests in which at least one resumption was judged', _ops('resumed'),
    ['exps/submit_and_run_experiment_job.py'], LAUNCH_STUB)
DEPLOY_STUB = ['the batch scheduler (sbatch, squeue, scancel): queue, capacity, lagging and failing display', 'clocks and sleeping', 'file system', 'random module seeding']
add('C18', ['deploy'], [600], [8000], 'distinct execution digests of deployments with at least three batches submitted', lambda r: r['probes'].get('batch', 0) >= 3,
    ['exps/tamp_environment/deploy_tamp_experiments.py', 'exps/tamp_environment/deploy_tamp_experiments_kuka.py'], DEPLOY_STUB)
add('C19', ['deploy'], [600], [8000], 'distinct execution digests of deployments that completed, were stopped or met a failure',
    lambda r: bool(r['probes'].get('deployment-complete')) or bool(r['faults']),
    ['exps/tamp_environment/deploy_tamp_experiments.py', 'exps/tamp_environment/deploy_tamp_experiments_kuka.py', 'exps/tamp_environment/deploy_tamp_adaptive_kuka.py'], DEPLOY_STUB)

MOTION_STUB = ['pybullet, pybullet_tools, pddlstream (bodies are boxes, the arm is a free-flying gripper)', 'networkit', 'pynndescent / kgraph', 'scipy', 'file system', 'clocks and entropy']
add('C20', ['motion'], [400], [8000], 'distinct execution digests in which the planner returned a trajectory, found no route or failed under a fault',
    lambda r: any(r['probes'].get(k) for k in ('trajectory', 'no-route', 'raised')),
    ['exps/tamp_environment/turtlebot_move/streams.py', 'exps/tamp_environment/turtlebot_move/separating_axis.py', 'nonasymptotic/prm.py', 'nonasymptotic/ann.py', 'nonasymptotic/bound.py'], MOTION_STUB)
add('C21', ['motion'], [400], [8000], 'distinct execution digests in which the planner returned a trajectory, found no route or failed under a fault',
    lambda r: any(r['probes'].get(k) for k in ('trajectory', 'no-route', 'raised')),
    ['exps/tamp_environment/kuka_carry/run.py (insertion planner, container shapes)', 'exps/tamp_environment/kuka_carry/separating_axis.py',
     'exps/tamp_environment/kuka_carry/kuka_primitives.py', 'nonasymptotic/prm.py', 'nonasymptotic/ann.py', 'nonasymptotic/bound.py'], MOTION_STUB)

ROBOT_REAL = ['exps/tamp_environment/turtlebot_move (run.py, problems.py, streams.py, separating_axis.py)',
              'exps/tamp_environment/kuka_carry (run.py, kuka_primitives.py, separating_axis.py)', 'nonasymptotic/prm.py', 'nonasymptotic/ann.py', 'nonasymptotic/bound.py']
ROBOT_STUB = ['pybullet, pybullet_tools (bodies are boxes and discs)', 'pddlstream (a stand-in task planner that calls the streams)', 'networkit', 'pynndescent / kgraph',
              'file system', 'clocks and entropy']
add('C22', ['robot'], [300], [6000], 'distinct execution digests in which at least one array element ran its planning run', _ops('task'),
    ['exps/tamp_environment/deploy_*.py and deploy_*.sh'] + ROBOT_REAL, ROBOT_STUB + ['the batch scheduler and the shell (job scripts are interpreted)', 'roadmap growth (recorded, not carried out)'])
add('C23', ['robot'], [300], [6000], 'distinct execution digests in which at least one planning run completed or met a failure',
    lambda r: bool(r['probes'].get('run-complete')) or bool(r['faults']), ROBOT_REAL, ROBOT_STUB)

add('C24', ['plots'], [600], [12000], 'distinct execution digests in which at least one drawn group or point was compared with the runs behind it',
    _ops('group-checked', 'point-checked'), ['exps/tamp_environment/turtlebot_move (time_success_plot.py, bound_plot.py)', 'matplotlib'] + ROBOT_REAL,
    ROBOT_STUB + ['roadmap growth and queries (scripted outcomes)'])

add('C26', ['execute'], [600], [12000], 'distinct execution digests in which a plan was found and carried out', _ops('executed'), ROBOT_REAL[:2],
    ['pybullet, pybullet_tools (bodies are boxes and discs, the arm is a free-flying gripper; motions go through random points)',
     'pddlstream (a small task planner that reads the domain and stream files)', 'roadmap growth and queries (scripted answers)', 'file system', 'clocks and entropy'])

add('C27', ['motion'], [250], [5000], 'distinct execution digests in which at least one animation was compared with its roadmap and route', _ops('animated'),
    ['exps/tamp_environment/turtlebot_move/streams.py', 'nonasymptotic/prm.py', 'matplotlib (figures and animation loop)'], MOTION_STUB + ['the image encoder (frames are read from the figure)'])

# deciding oracle, and what the level claims (for MANIFEST.json)
NOTES = {
    'C01': ('roadmap compared after every operation with a recomputation from the definition',
            'Random operation histories on three planner classes, two neighbour-search back ends and four kinds of environment; real code above the graph library, stand-ins below. No exhaustive coverage.'),
    'C02': ('every answer checked against an independent shortest-path model',
            'Random histories and query points, including disconnected and out-of-range ones; motions too close to an obstacle boundary are accepted either way.'),
    'C03': ('failures and interruptions injected inside queries, planner state compared before and after',
            'Faults hit calls into the validity check and the graph library inside queries, not arbitrary bytecodes.'),
    'C04': ('disk, library and validity-check failures injected into growth and limit changes, with retries afterwards',
            'Faults at every kind of file operation of the scratch cache, at neighbour search and validity check; scratch files damaged between operations.'),
    'C05': ('samples and remembered queries compared across growth histories',
            'Random growth histories; monotonicity is checked where the settings pin the roadmap at a fixed radius.'),
    'C06': ('each seeded run repeated amid interleaved runs, other entropy, clocks and global random state, outputs compared bit for bit',
            'Random subjects and interleavings; approximate neighbour search is modelled by a seeded stand-in.'),
    'C07': ('samplers driven by ordinary and by scripted extreme random draws, judged by independent free spaces and exact binomial tails',
            'Proportions are tested at level 1e-10 per statistic, so small biases (a few per cent) can escape; polygons with slivers below 1e-3 are left out.'),
    'C08': ('several simulated processes share one scratch directory under seeded interleavings; every file access attributed to its planner',
            'Equal process ids, clocks, addresses and global random seeds included; at most four planners and three processes.'),
    'C09': ('saved files read back and compared; disk faults injected into saving',
            'Random histories and save points; storage failures that are reported to the program.'),
    'C10': ('whole jobs run as simulated clusters of tasks that are killed, interrupted, starved of disk and restarted; the final records judged against each task run alone',
            'Three experiment kinds at miniature sizes (up to 4 tasks); the clearance bisection, planner and environments are the real code on a stand-in graph library and tables.'),
    'C11': ('crash, power loss and disk faults placed near every step of a checkpoint; surviving files judged after each',
            'Durability model: data survives only if synced or written back by a seeded choice, renames are atomic and may be lost together with everything after them.'),
    'C12': ('stopped and resumed tasks compared record for record with the uninterrupted run, seeds collected over all incarnations',
            'Comparison covers all deterministic columns; timing columns are ignored.'),
    'C13': ('tasks of one job and of several jobs interleaved on one shared file system; each compared with its run alone',
            'Up to two campaigns and four tasks; interleaving at file operations, sleeps and neighbour searches.'),
    'C14': ('every clearance record re-decided from the samples its seed produces, by an independent model of the success test',
            'Verdicts within a numerical margin of a decision boundary are accepted either way.'),
    'C25': ('every recorded effective radius re-decided from the samples the trial drew, every duration against the simulated time spent',
            'Exact neighbour lists from the stand-in for kgraph; the fallback to pynndescent, whose lists hold the point itself, is not judged.'),
    'C26': ('plans found by a small task planner over the domain and stream files of the program, with motions failing at random; every motion and every step of the execution judged',
            'Roadmap queries are answered by a script; collisions of the joint motions are not judged, only the obstacles and attachments they are planned with.'),
    'C27': ('planning calls with animation on; every frame read from the figure and compared with the roadmap grown and the trajectory returned',
            'Routes and roadmaps of up to 30 samples; the image encoder is a stand-in, so the pixels are not judged, only what each frame holds.'),
    'C17': ('aggregations run in sequence and side by side over generated task files, with faults and reruns; every table compared with the task files as a multiset of rows',
            'Task files of the three experiment kinds at up to twelve tasks; the table library is a stand-in, so its own parsing and printing are not judged.'),
    'C15': ('launches run side by side with clock steps, storage faults and kills; every submission judged against the disk at that moment',
            'Job scripts are interpreted by a small shell (straight-line scripts); the scheduler is a stand-in that records submissions.'),
    'C16': ('histories of launches, kills, machine crashes and later activity; every resumption judged against the directories on disk',
            'Latest means by the time stamp in the directory name; complete means that configuration and job script are whole.'),
    'C18': ('whole deployments run against a simulated scheduler with lagging, failing and compact queue displays; the true queue judged at every submission',
            'The scheduler accepts every submission it does not reject outright; display delay up to 110 s; a restarted deployer starts 200 s after the old one died.'),
    'C19': ('whole deployments run against a simulated scheduler with rejections, held jobs and stop requests; submissions, cancellations and progress judged',
            'A stop request up to half a second before a submission is not counted as ignored; progress bound is 15 minutes of an empty, readable queue.'),
    'C20': ('the planner called again and again by simulated processes that share its scratch directory, with faults; trajectories, failures and growth judged by an independent geometric model',
            'Random layouts of rotated boxes, up to twelve growths per call; the planning domain around the planner is a stand-in. Corner-cutting below the checker resolution (0.08) is accepted.'),
    'C21': ('the planner called again and again by simulated processes that share its scratch directory, with faults; commands, failures and growth judged by an independent geometric model',
            'The arm is a free-flying gripper (every configuration reachable, no approach offset); random containers and boxes, up to eight growths per call. Collisions shorter than the checker resolution (0.03) are accepted.'),
    'C22': ('job scripts interpreted and planning runs executed for array elements the simulated scheduler starts together, late or twice; arguments, directories and problems judged',
            'Roadmap growth is recorded instead of carried out; scripts are run by a shell interpreter that was compared with bash; up to nine elements per run.'),
    'C24': ('simulated planning runs (started together, killed, unfinished) leave their records; the plot scripts run for real and their figures are compared with what the runs did',
            'Roadmap queries have scripted outcomes; torn log lines are not injected; figures are read through matplotlib (bars, error bars, points).'),
    'C23': ('planning runs side by side on a shared disk with faults and kills; directories, logs, problems and repeatability judged',
            'The task planner is a stand-in that asks the streams for the motions of one plan; repeatability of the arm runs is judged with the same unreachable poses.'),
}
