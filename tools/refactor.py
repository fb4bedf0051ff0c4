"""Applies behaviour-preserving refactorings to a scratch copy of the repository (argument); every check has to stay quiet on it."""
import re,sys
R = sys.argv[1].rstrip('/') + '/'
def sub(path, *pairs):
    s=open(R+path).read()
    for a,b in pairs:
        assert s.count(a)>=1, (path,a)
        s=s.replace(a,b,1)
    open(R+path,'w').write(s)
P='nonasymptotic/prm.py'
sub(P,
("""            for s_neighbor, d_sn in zip(start_nns_ids, start_nns_dists):
                self.prm_graph.addEdge(i_start, s_neighbor, w=d_sn)

            for g_neighbor, d_gn in zip(goal_nns_ids, goal_nns_dists):
                self.prm_graph.addEdge(i_goal, g_neighbor, w=d_gn)
""","""            for hub, ids, ds in ((i_start, start_nns_ids, start_nns_dists), (i_goal, goal_nns_ids, goal_nns_dists)):
                self._attach(hub, ids, ds)
"""),
("""    def query_all_graph_connections(""","""    def _attach(self, hub, ids, ds):
        i = 0
        while i < len(ids):
            self.prm_graph.addEdge(hub, ids[i], ds[i])
            i += 1

    def query_all_graph_connections("""),
("""            biDij = nk.distance.BidirectionalDijkstra(self.prm_graph, i_start, i_goal)
            biDij.run()

            sol_dist = biDij.getDistance()
            sol_path = self.prm_samples[biDij.getPath()]
""","""            search = nk.distance.BidirectionalDijkstra(self.prm_graph, i_start, i_goal, storePred=True)
            search.run()
            path_ids = search.getPath()
            sol_path, sol_dist = self.prm_samples[path_ids], search.getDistance()
"""),
("""            self.prm_graph.removeNode(i_start)
            self.prm_graph.removeNode(i_goal)
""","""            for extra in (i_start, i_goal):
                self.prm_graph.removeNode(extra)
"""),
("""        prm_sols_in_and_outs = np.transpose([
            np.tile(start_nns_ids, len(goal_nns_ids)),
            np.repeat(goal_nns_ids, len(start_nns_ids))
        ])
""","""        prm_sols_in_and_outs = np.column_stack([
            np.tile(start_nns_ids, len(goal_nns_ids)),
            np.repeat(goal_nns_ids, len(start_nns_ids))
        ])
"""),
("""            np.stack([
                self.prm_samples[prm_sols_in_and_outs[:, 0]],
                self.prm_samples[prm_sols_in_and_outs[:, 1]]
            ], axis=0).swapaxes(0, 1),""","""            np.stack([
                self.prm_samples[prm_sols_in_and_outs[:, 0]],
                self.prm_samples[prm_sols_in_and_outs[:, 1]]
            ], axis=1),"""),
("""            nk.writeGraph(graph, fresh_cache_path, nk.Format.NetworkitBinary)
            os.replace(fresh_cache_path, self.tmp_graph_cache_path)""","""            nk.graphio.writeGraph(graph, fresh_cache_path, nk.graphio.Format.NetworkitBinary)
            os.rename(fresh_cache_path, self.tmp_graph_cache_path)"""),
("""            self._samples = np.zeros((n_samples, self.d))

            for i in range(n_samples):
                self._samples[i, :] = self.sample_state()
        else:""","""            self._samples = np.array([self.sample_state() for _ in range(n_samples)])
        else:"""),
("""        # compute distances appropriately.
        dists = np.linalg.norm(inner_loop_elts - outer_loop_elts, axis=1)""","""        # compute distances appropriately.
        diff = inner_loop_elts - outer_loop_elts
        dists = np.sqrt(np.sum(diff ** 2, axis=1))"""),
("""        # delete the cache file
        if os.path.exists(self.tmp_graph_cache_path):
            os.remove(self.tmp_graph_cache_path)
""","""        try:
            os.unlink(self.tmp_graph_cache_path)
        except FileNotFoundError:
            pass
"""),
("""        # delete the cache file
        if os.path.exists(self.tmp_graph_cache_path):
            os.remove(self.tmp_graph_cache_path)
""","""        from pathlib import Path
        Path(self.tmp_graph_cache_path).unlink(missing_ok=True)
"""),
("""        for u, v, w in list(self._g_prm.iterEdgesWeights()):
            if w >= new_conn_r:
                self._g_prm.removeEdge(u, v)
""","""        doomed = []
        self._g_prm.forEdges(lambda u, v, w, eid: doomed.append((u, v)) if w >= new_conn_r else None)
        for u, v in doomed:
            self._g_prm.removeEdge(u, v)
"""),
("""        within_conn_r = dists_from_query <= self.conn_r if self.conn_r is not None \\
            else dists_from_query <= self.certified_max_conn_r
""","""        limit = self.certified_max_conn_r if self.conn_r is None else self.conn_r
        within_conn_r = dists_from_query <= limit
"""),
("""        self.certified_max_conn_r = np.min(
            self.master_dists[:, -1])""","""        self.certified_max_conn_r = np.amin(
            self.master_dists[:, -1])"""),
("return self.prm_graph.numberOfNodes() if self.prm_graph is not None else 0","return 0 if self.prm_graph is None else self.prm_graph.numberOfNodes()"),
("""        valid_motions = self.check_motion(
            np.tile(query, (points_within_conn_r.shape[0], 1)),
            points_within_conn_r)
        return ids_within_conn_r[valid_motions], dists_from_query[within_conn_r][valid_motions]
""","""        valid_motions = self.check_motion(np.broadcast_to(query, points_within_conn_r.shape).copy(), points_within_conn_r)
        keep = np.flatnonzero(within_conn_r)[valid_motions]
        return keep, dists_from_query[keep]
"""),
)
A='nonasymptotic/ann.py'
sub(A,
("""            with open(self.save_txt_path, 'r') as txt_file:
                lines = txt_file.readlines()""","""            from pathlib import Path
            lines = Path(self.save_txt_path).read_text().splitlines(keepends=True)"""),
("""        self.save_txt_path = str(os.path.join(TEMP_DIR, str(uuid.uuid4()) + '.txt'))""","""        self.save_txt_path = os.path.join(TEMP_DIR, uuid.uuid4().hex + '.txt')"""),
)
E_='nonasymptotic/envs.py'
s=open(R+E_).read()
sub(E_,
("""        return self.rng.uniform(self.bounds_lower, self.bounds_upper)""","""        low, high = self.bounds_lower, self.bounds_upper
        return self.rng.uniform(low=low, high=high)"""),
("""            start_valid = np.all(start >= self.bounds_lower) and np.all(start <= self.bounds_upper)
            goal_valid = np.all(goal >= self.bounds_lower) and np.all(goal <= self.bounds_upper)
            return start_valid and goal_valid""","""            return all(np.all(x >= self.bounds_lower) and np.all(x <= self.bounds_upper) for x in (start, goal))"""),
)
C='exps/run_knn_radius_trial.py'
sub(C,
("n_seeds = all_tasks_record_df['seed'].unique().shape[0]","n_seeds = len(set(all_tasks_record_df['seed'].tolist()))"),
("        all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])","        frames = [all_tasks_record_df, trial_record_df]\n        all_tasks_record_df = pd.concat(frames, axis=0)"),
("    for _ in range(n_seeds):\n        rng.integers(0, 2 ** 32)","    skipped = 0\n    while skipped < n_seeds:\n        rng.integers(0, 2 ** 32)\n        skipped += 1"),
)
C='exps/run_narrow_passage_clearance_trial.py'
sub(C,
("n_seeds = all_tasks_record_df['seed'].unique().shape[0]","n_seeds = all_tasks_record_df['seed'].nunique()"),
("if os.path.exists(df_save_path):","if os.path.isfile(df_save_path):") if False else ("        trial_record_df['trial'] = _trial","        trial_record_df = trial_record_df.assign(trial=_trial)"),
)
C='exps/run_straight_line_optimality_trial.py'
sub(C,
("n_seeds = all_tasks_record_df['seed'].unique().shape[0]","n_seeds = all_tasks_record_df.seed.drop_duplicates().shape[0]"),
("    trial_record_df['trial'] = _trial","    trial_record_df.insert(trial_record_df.shape[1], 'trial', _trial)"),
)
U='nonasymptotic/util.py'
sub(U,("""        with open(tmp_path, 'w', newline='') as f:
            df.to_csv(f)
            f.flush()
            os.fsync(f.fileno())
""","""        f = open(tmp_path, 'w', newline='', encoding='utf-8')
        try:
            f.write(df.to_csv())
            f.flush()
            os.fsync(f.fileno())
        finally:
            f.close()
"""))
G='exps/aggregate_runtimes_for_tuning.py'
sub(G,("""    exp_dirs = glob.glob('results/%s*' % glob.escape(args.name_prefix))
    exp_dirs.sort(key=os.path.getmtime)
    latest_exp_dir = exp_dirs[-1]
""","""    latest_exp_dir = max(sorted(glob.glob(f'results/{glob.escape(args.name_prefix)}*')), key=lambda d: os.stat(d).st_mtime)
"""),
("    mini_out_dfs = list(map(lambda p: pd.read_csv(p, index_col=0), mini_out_csvs))","    mini_out_dfs = []\n    for csv in mini_out_csvs:\n        with open(csv) as f:\n            mini_out_dfs.append(pd.read_csv(f, index_col=0))"),
("lambda df: df.tail(df.shape[0] - 1)","lambda df: df.iloc[1:]"),
)
S='exps/submit_and_run_experiment_job.py'
sub(S,
("""        now = datetime.now()
        now_str = now.strftime('%Y%m%d-%H%M%S')
        save_path = "./results/" + args.name + '_' + now_str
""","""        save_path = f"./results/{args.name}_{datetime.now():%Y%m%d-%H%M%S}"
"""),
("""            with open(args.config_path, 'r') as handle:
                config = json.load(handle)

            config['name'] = args.name
            config['triples'] = args.triples_args
""","""            from pathlib import Path
            config = json.loads(Path(args.config_path).read_text())
            config.update(name=args.name, triples=list(args.triples_args))
"""),
("""                json.dump(config, handle, indent=2)
                handle.flush()""","""                handle.write(json.dumps(config, indent=2))
                handle.flush()"""),
("""        script_name = 'run_straight_line_trial.py' if args.type == 'line' else 'run_knn_radius_trial.py'
        if args.type == 'line':
            script_name = 'run_straight_line_optimality_trial.py'
        elif args.type == 'knn':
            script_name = 'run_knn_radius_trial.py'
        else:
            script_name = 'run_narrow_passage_clearance_trial.py'
""","""        script_name = {'line': 'run_straight_line_optimality_trial.py', 'knn': 'run_knn_radius_trial.py',
                       'narrow': 'run_narrow_passage_clearance_trial.py'}[args.type]
"""),
("""            dirs_with_exp_name.sort()
            latest_exp_path = dirs_with_exp_name[-1]
""","""            latest_exp_path = sorted(dirs_with_exp_name, reverse=True)[0]
"""),
("""    subprocess.run(['chmod', 'u+x', submit_script_path], check=True)
    subprocess.run(['LLsub', submit_script_path, '[%i,%i,%i]' % tuple(triples_args)], check=True)""",
"""    def execute(*command):
        subprocess.check_call(list(command))

    execute('chmod', 'u+x', submit_script_path)
    execute('LLsub', submit_script_path, '[' + ','.join(str(t) for t in triples_args) + ']')"""),
)
T='exps/tune_experiment_triples.py'
sub(T,
("""            if nppn * args.other_arg_fill_in > 48:
                continue
            else:
                subprocess.run([""","""            if nppn * args.other_arg_fill_in <= 48:
                subprocess.call(["""),
)
for D in ('deploy_tamp_experiments.py','deploy_tamp_experiments_kuka.py'):
    D='exps/tamp_environment/'+D
    s=open(R+D).read()
    sub(D,
    ("""        result = subprocess.run(squeue_command, shell=True, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
""","""        listing = subprocess.check_output(squeue_command, shell=True, stderr=subprocess.PIPE, universal_newlines=True)
"""),
    ("result.stdout.strip().split('\\n')","listing.strip().splitlines() or ['']"),
    ("""        subprocess.run(command_str, shell=True, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
""","""        subprocess.run(command_str.split(), check=True, capture_output=True, text=True)
"""),
    ("time.sleep(60*3)","[time.sleep(10) for _ in range(18)]"),
    )
    s=open(R+D).read()
    s=s.replace("""os.path.isfile("./tmux_lock.txt")""","""os.path.exists(os.path.join('.', 'tmux_lock.txt'))""")
    open(R+D,'w').write(s)
    compile(s,D,'exec')
# ------------------------------------------------------------------------------------------------ the robot experiments
TA='exps/tamp_environment/'
open(R+TA+'deploy_experiments.sh','w').write('''#!/bin/bash
#SBATCH --ntasks=1
#SBATCH --cpus-per-task 4
#SBATCH --time=24:00:00

stamp=$(date +%Y%m%d-%H%M%S)
task=${SLURM_ARRAY_TASK_ID:-0}
algorithm=prm
if [[ $task -lt 1 || $task -gt 200 ]]; then
    exit 0
fi
run_dir="/home/gridsan/acurtis/runs/${algorithm}-${task}-${n}-${stamp}"
export OMP_NUM_THREADS=4
case "$3" in
    0) python ./turtlebot_move/run.py --seed="$task" --save-dir="$run_dir" --min-samples="$1" --max-samples="$2" ;;
    1) python ./turtlebot_move/run.py --seed="$task" --save-dir="$run_dir" --adaptive-n ;;
esac
''')
open(R+TA+'deploy_experiments_kuka.sh','w').write('''#!/bin/bash
#SBATCH --ntasks=1
#SBATCH --cpus-per-task 4
#SBATCH --time=24:00:00

current_time="$(date '+%Y%m%d-%H%M%S')"
for (( seed = 1; seed <= 200; seed++ )); do
    [[ "$seed" == "$SLURM_ARRAY_TASK_ID" ]] || continue
    save_path="/home/gridsan/acurtis/runs/prm-$seed-$n-$current_time"
    if (( $3 == 0 )); then
        limits="--min-samples=$1 --max-samples=$2"
    elif (( $3 == 1 )); then
        limits="--adaptive-n"
    else
        continue
    fi
    OMP_NUM_THREADS=4 python ./kuka_carry/run.py --seed=$seed --save-dir="$save_path" $limits
done
''')
open(R+TA+'deploy_experiments_kuka_adaptive.sh','w').write('''#!/bin/bash
#SBATCH --ntasks=1
#SBATCH --cpus-per-task 4
#SBATCH --time=24:00:00

plan_one() {
    export OMP_NUM_THREADS=4
    python ./kuka_carry/run.py --seed=$1 --save-dir="$2" --delta="$3" --collision-buffer="$4" --theta-margin="$5" --adaptive-n
}

current_time=$(date +"%Y%m%d-%H%M%S")
seed=1
while [ $seed -le 200 ]; do
    if [ $seed -eq "$SLURM_ARRAY_TASK_ID" ]; then
        plan_one $seed "/home/gridsan/acurtis/runs/prm-$seed-$n-$current_time" "$1" "$2" "$3"
        break
    fi
    seed=$((seed + 1))
done
''')
S=TA+'turtlebot_move/streams.py'
sub(S,
("""        # Unpack the vertices into separate lists for x, y, and z dimensions
        x_coords, y_coords, z_coords = zip(*vertices)

        # Calculate min and max along each dimension
        min_x, max_x = min(x_coords), max(x_coords)
        min_y, max_y = min(y_coords), max(y_coords)
        min_z, max_z = min(z_coords), max(z_coords)

        return ((min_x, max_x), (min_y, max_y), (min_z, max_z))
""","""        points = np.array([list(v) for v in vertices])
        return tuple(zip(points.min(axis=0).tolist(), points.max(axis=0).tolist()))
"""),
("""        return np.array([random.uniform(self.bounds[0][0], self.bounds[0][1]),
                         random.uniform(self.bounds[1][0], self.bounds[1][1])])
""","""        (x_low, x_high), (y_low, y_high) = self.bounds[:2]
        x = random.uniform(x_low, x_high)
        y = random.uniform(y_low, y_high)
        return np.array((x, y))
"""),
("""        start_exp  = np.tile(np.expand_dims(start, axis=1), (1, self.robot_verts.shape[0], 1))
        goal_exp  = np.tile(np.expand_dims(goal, axis=1), (1, self.robot_verts.shape[0], 1))
        robot_start_verts = np.tile(np.expand_dims(self.robot_verts, axis=0), (start.shape[0], 1, 1)) + start_exp
        robot_goal_verts = np.tile(np.expand_dims(self.robot_verts, axis=0), (start.shape[0], 1, 1)) + goal_exp
""","""        robot_start_verts = start[:, None, :] + self.robot_verts[None]
        robot_goal_verts = goal[:, None, :] + self.robot_verts[None]
"""),
("""        for obstacle_hull, alpha in tqdm(list(itertools.product(self.obstacle_hulls, alphas))):
                interm_verts = robot_start_verts + alpha*(robot_goal_verts-robot_start_verts)
                valids = valids & ~vec_separating_axis_theorem(interm_verts, np.tile(obstacle_hull, (interm_verts.shape[0], 1, 1)))
        return valids.astype(bool)
""","""        for alpha in alphas:
            interm_verts = robot_start_verts + alpha*(robot_goal_verts-robot_start_verts)
            for obstacle_hull in self.obstacle_hulls:
                blocked = vec_separating_axis_theorem(interm_verts, np.tile(obstacle_hull, (interm_verts.shape[0], 1, 1)))
                valids[blocked] = False
        return valids
"""),
("""        with contextlib.ExitStack() as cleanup:
            return plan(cleanup, rover, q1, q2, obj=obj)
""","""        cleanup = contextlib.ExitStack()
        try:
            return plan(cleanup, rover, q1, q2, obj=obj)
        finally:
            cleanup.close()
"""),
("""        num_samples = min_samples
        while(num_samples<max_samples+1):
            print("Num samples: "+str(int(num_samples)))
            prm.grow_to_n_samples(int(num_samples))
            _, path = prm.query_best_solution(start, goal)
            if(len(path)>0):
                break
            num_samples = max(num_samples*factor, int(num_samples)+1)

""","""        def sizes():
            size = min_samples
            while size < max_samples+1:
                yield size
                size = max(size*factor, int(size)+1)

        for num_samples in sizes():
            print("Num samples: "+str(int(num_samples)))
            prm.grow_to_n_samples(int(num_samples))
            solution = prm.query_best_solution(start, goal)
            path = solution[1]
            if len(path) > 0:
                break
"""),
("""            robot_shape:AABB = aabb_from_extent_center(get_aabb_extent(get_aabb(obj)))
        else:
            robot_shape:AABB = aabb_from_extent_center(get_aabb_extent(get_aabb(rover)))
""","""            carried = obj
        else:
            carried = rover
        robot_shape:AABB = aabb_from_extent_center(get_aabb_extent(get_aabb(carried)))
"""),
("""    for i in range(len(vectors) - 1):
        start, end = vectors[i], vectors[i + 1]
        dist""","""    for start, end in zip(vectors[:-1], vectors[1:]):
        dist"""),
)
sub(TA+'turtlebot_move/separating_axis.py',
("""    dots = np.einsum('ijk,ilk->ijl', vertices, axis)
    return np.array([np.min(dots, axis=1), np.max(dots, axis=1)]).transpose(1, 0, 2)
""","""    dots = np.matmul(vertices, np.swapaxes(axis, 1, 2))
    return np.stack([dots.min(axis=1), dots.max(axis=1)], axis=1)
"""),
("""    results = np.ones(batch_size, dtype=bool)

    for i in range(polygons_a.shape[1]):  
        axis = np.concatenate([axes_a[:, [i], :], axes_b[:, [i], :]], axis=1)
        projection_a = vec_project(polygons_a, axis)
        projection_b = vec_project(polygons_b, axis)
        overlapping = vec_overlap(projection_a, projection_b)
        results &= overlapping.all(axis=1)

    return results
""","""    axes = np.concatenate([axes_a, axes_b], axis=1)
    overlapping = vec_overlap(vec_project(polygons_a, axes), vec_project(polygons_b, axes))
    return overlapping.all(axis=1)
"""))
T=TA+'turtlebot_move/run.py'
for T, more in ((TA+'turtlebot_move/run.py',()),(TA+'kuka_carry/run.py',())):
    sub(T,
    ("""    log_level = logging.DEBUG
    logging.basicConfig(
        level=log_level,
        format="%(message)s",
        handlers=[logging.FileHandler(os.path.join(save_dir, f"{time.time()}.log"))],
    )

    logger = logging.getLogger()
""","""    log_level = logging.DEBUG
    logger = logging.getLogger()
    logger.setLevel(log_level)
    to_file = logging.FileHandler(os.path.join(save_dir, "{}.log".format(time.time())))
    to_file.setFormatter(logging.Formatter("%(message)s"))
    logger.addHandler(to_file)
"""),
    ("""        for line in buf.rstrip().splitlines():
            self.logger.log(self.log_level, line.rstrip())
""","""        lines = [line.rstrip() for line in buf.rstrip().splitlines()]
        for line in lines:
            self.logger.log(self.log_level, line)
"""),
    ("""    attempt, i = save_dir, 0
    while True:
        try:
            os.makedirs(attempt)
            return attempt
        except FileExistsError:
            i += 1
            attempt = "{}-{}".format(save_dir, i)
""","""    import itertools
    for i in itertools.count():
        attempt = save_dir if i == 0 else f"{save_dir}-{i}"
        try:
            os.makedirs(attempt)
        except FileExistsError:
            continue
        return attempt
"""))
sub(TA+'turtlebot_move/run.py',
("""    for target, target_init_pose, target_goal_pose in zip(problem.targets, problem.target_init_poses, problem.target_goal_poses):        
        target_poses""","""    for i, target in enumerate(problem.targets):
        target_init_pose = problem.target_init_poses[i]
        target_goal_pose = problem.target_goal_poses[i]
        target_poses"""),
("""    stream_map = {
        'sample-motion': from_fn(get_anytime_motion_fn(problem, custom_limits=custom_limits, start_samples=min_samples, end_samples=max_samples, factor=factor, adaptive_n=adaptive_n, **kwargs)),
        'sample-motion-holding': from_fn(get_anytime_motion_fn(problem, custom_limits=custom_limits, start_samples=min_samples, end_samples=max_samples, factor = factor, adaptive_n=adaptive_n, holding=True, **kwargs)),
""","""    def motion(holding):
        return from_fn(get_anytime_motion_fn(problem, custom_limits=custom_limits, start_samples=min_samples, end_samples=max_samples,
                                             factor=factor, adaptive_n=adaptive_n, holding=holding, **kwargs))

    stream_map = {
        'sample-motion': motion(False),
        'sample-motion-holding': motion(True),
"""),
("""    if(args.randomize_delta):
        delta = random.uniform(0.01, 0.2)
    else:
        delta = args.delta
""","""    delta = random.uniform(0.01, 0.2) if args.randomize_delta else args.delta
"""),
("""    max_samples = args.max_samples
    min_samples = args.min_samples
    
    if(args.adaptive_n):
        min_samples = max_samples-1
    else:
        min_samples = args.min_samples
""","""    max_samples = args.max_samples
    min_samples = max_samples - 1 if args.adaptive_n else args.min_samples
"""))
sub(TA+'turtlebot_move/problems.py',
("""    target_sizes = {targets[0]: max_object_size}
    
    for _ in range(num_target-1):
        u = np.random.uniform(0, 1)
        target_radius = min_object_size + (max_object_size - min_object_size) * (1 - (1 - u)**(1/4))
        target = create_cylinder(target_radius, 0.1, color=YELLOW)
        target_sizes[target] = target_radius
        targets.append(target)
    
    hallway_gap = max(list(target_sizes.values()))*2 + dd  
""","""    target_sizes = {targets[0]: max_object_size}

    def random_radius():
        u = np.random.uniform(0, 1)
        return min_object_size + (max_object_size - min_object_size) * (1 - (1 - u)**(1/4))

    while len(targets) < num_target:
        target_radius = random_radius()
        target = create_cylinder(target_radius, 0.1, color=YELLOW)
        target_sizes[target] = target_radius
        targets.append(target)
    
    hallway_gap = 2*max(target_sizes.values()) + dd
"""),
("""    body_surfaces = {target: room1_floor for target in targets}
    sample_placements(body_surfaces, obstacles=obstacles)
    target_goal_poses = [ObjectPose(get_pose(target)) for target in targets]
        
    body_surfaces = {target: room2_floor for target in targets}
    sample_placements(body_surfaces, obstacles=obstacles)
    target_init_poses = [ObjectPose(get_pose(target)) for target in targets]
""","""    def place_on(floor):
        sample_placements(dict.fromkeys(targets, floor), obstacles=list(obstacles))
        return [ObjectPose(get_pose(target)) for target in targets]

    target_goal_poses = place_on(room1_floor)
    target_init_poses = place_on(room2_floor)
"""))
K=TA+'kuka_carry/run.py'
sub(K,
("""        return np.array([random.uniform(self.bounds[i][0], self.bounds[i][1]) for i in range(len(self.bounds))])
""","""        return np.array([random.uniform(low, high) for low, high in self.bounds])
"""),
("""        interp_stacks = [np.stack([obb_interps[i][interp_idx] for i in range(start.shape[0])], axis=0) for interp_idx in range(len(obb_interps[0]))]
        # st = time.time()
        for obstacle_oobb in self.obstacle_oobbs:
            obstacle_stack = np.tile(OBB.from_oobb(obstacle_oobb).to_vectorized(), (start.shape[0], 1))
            for interp_stack in interp_stacks:
                valids = valids & ~separating_axis_theorem(obstacle_stack, interp_stack)
        # print(time.time()-st)

        return valids.astype(bool)
""","""        tracks = np.array(obb_interps)
        for obstacle_oobb in self.obstacle_oobbs:
            obstacle_stack = np.tile(OBB.from_oobb(obstacle_oobb).to_vectorized(), (start.shape[0], 1))
            for step in range(tracks.shape[1]):
                hits = separating_axis_theorem(obstacle_stack, tracks[:, step])
                valids = np.logical_and(valids, np.logical_not(hits))
        return valids
"""),
("""        while(num_samples<max_samples+1):
            print("Num samples: "+str(int(num_samples)))
            prm.grow_to_n_samples(int(num_samples))
""","""        path = []
        while num_samples < max_samples+1 and len(path) == 0:
            print("Num samples: "+str(int(num_samples)))
            prm.grow_to_n_samples(int(num_samples))
"""),
("""            if(len(path)>0):
                break
            num_samples = max(num_samples*factor, int(num_samples)+1)
""","""            if len(path) == 0:
                num_samples = max(num_samples*factor, int(num_samples)+1)
"""),
("""    for index, signs in enumerate(indices):
        link_dims = np.array(dims)
        link_dims[index] = thickness
        for sign in sorted(signs):
""","""    walls = [(index, sign) for index, signs in enumerate(indices) for sign in sorted(signs)]
    for index, sign in walls:
            link_dims = np.array(dims)
            link_dims[index] = thickness
"""),
("""    bin_grid_x = [i*container_width for i in range(num_grid_x)]
    bin_grid_y = [i*container_length for i in range(num_grid_y)]
""","""    bin_grid_x = np.arange(num_grid_x)*container_width
    bin_grid_y = np.arange(num_grid_y)*container_length
"""),
("""        obstacle_oobbs = []
        for local_oobb in local_obstacle_oobbs:
            # print(local_oobb[1])
            new_pose = pbu.multiply(bin_pose, local_oobb[1])
            new_oobb = pbu.OOBB(local_oobb[0], new_pose)
            obstacle_oobbs.append(new_oobb)
        sink_obstacle_oobbs.append(obstacle_oobbs)
""","""        sink_obstacle_oobbs.append([pbu.OOBB(aabb, pbu.multiply(bin_pose, pose)) for aabb, pose in local_obstacle_oobbs])
"""),
("""        while(True):
            grasp_gen = get_grasp_gen(robot, "top")
            stable_gen = get_stable_gen(fixed, placement_links)
            pose, = next(stable_gen(radish, stove, obstacles=placed)) 
            pbu.set_pose(radish, pose.value)
            grasp, = next(grasp_gen(radish))
            conf =  get_ik_fn(robot, radish, pose, grasp, fixed=fixed, teleport=False)
            if(conf is not None):
                placed.append(radish)
                break
""","""        conf = None
        while conf is None:
            pose, = next(get_stable_gen(fixed, placement_links)(radish, stove, obstacles=placed))
            pbu.set_pose(radish, pose.value)
            grasp, = next(get_grasp_gen(robot, "top")(radish))
            conf = get_ik_fn(robot, radish, pose, grasp, fixed=fixed, teleport=False)
        placed.append(radish)
"""))
sub(TA+'kuka_carry/separating_axis.py',
("""    separated = np.ones(boxes1.shape[0], dtype=bool)

    # Test for separation along each axis
    for i in range(15):
        axis = axes[:, i]

        # Project the vertices of each box onto the axis
        projections1 = np.sum(vertices1 * axis[:, np.newaxis, :], axis=-1)
        projections2 = np.sum(vertices2 * axis[:, np.newaxis, :], axis=-1)

        min1 = np.min(projections1, axis=1)
        max1 = np.max(projections1, axis=1)
        min2 = np.min(projections2, axis=1)
        max2 = np.max(projections2, axis=1)

        # Check for separation and update the separation status
        separated = separated & ~(np.logical_or(max1 < min2, max2 < min1))

    return separated
""","""    projections1 = np.einsum('nvk,nak->nav', vertices1, axes)
    projections2 = np.einsum('nvk,nak->nav', vertices2, axes)
    apart = (projections1.max(axis=2) < projections2.min(axis=2)) | (projections2.max(axis=2) < projections1.min(axis=2))
    return ~apart.any(axis=1)
"""))
sub(TA+'turtlebot_move/time_success_plot.py',
("import re\n","import glob\n"),
("number_pattern = re.compile(r'\\d+')\n", ""),
("""for root, dirs, files in os.walk(parent_directory):
    for file in files:
        print(file)
        if file.endswith(".log"):  # Checks if the file is a log file
            # (runs that start at the same moment have logs of the same name, in different directories)
            file_path = os.path.join(root, file)
            with open(file_path, 'r') as f:
                lines = f.readlines()
                for i, line in enumerate(lines):
                    if line.startswith("Experiment arguments:") and i+1 < len(lines):
                        run_args = ast.literal_eval(lines[i+1].strip())
                        adaptive_n[file_path] = int(run_args["adaptive_n"])
                        min_samples[file_path] = run_args["min_samples"]
                        max_samples[file_path] = run_args["max_samples"]
                    if line.startswith("Solved:"):
                        successes[file_path] = int(("True" in lines[i].strip()))
                    if(line.startswith("Time:")):
                        times[file_path] = float(lines[i].strip().replace("Time: ", ""))
""","""def read_log(path):
    with open(path) as f:
        previous = ''
        for line in f.read().splitlines():
            if previous.startswith("Experiment arguments:"):
                a = ast.literal_eval(line.strip())
                adaptive_n[path], min_samples[path], max_samples[path] = int(a["adaptive_n"]), a["min_samples"], a["max_samples"]
            if line.startswith("Solved:"):
                successes[path] = 1 if "True" in line else 0
            if line.startswith("Time:"):
                times[path] = float(line[len("Time:"):])
            previous = line


for path in sorted(glob.glob(os.path.join(parent_directory, '**', '*.log'), recursive=True)):
    read_log(path)
"""),
("success_stds = {group: np.std(plot_successes[group])/np.sqrt(len(plot_successes[group])) for group in groups}",
 "success_stds = {g: np.std(v)/len(v)**0.5 for g, v in plot_successes.items()}"),
)
sub(TA+'turtlebot_move/bound_plot.py',
("import os\n","from pathlib import Path\n"),
("""for root, dirs, files in os.walk(parent_directory):
    for file in files:
        if file.endswith(".log"):  # Checks if the file is a log file
            file_path = os.path.join(root, file)
            with open(file_path, 'r') as f:
                lines = f.readlines()
                for i, line in enumerate(lines):
                    if line.startswith("Delta:"):
                        numbers[file_path] = float(line.strip().replace("Delta: ", ""))

                    if "Found solution in" in line and i+1 < len(lines):
                        samples[file_path] = float(lines[i+1].strip())
""","""for file_path in Path(parent_directory).rglob('*.log'):
    lines = file_path.read_text().splitlines()
    for line, following in zip(lines, lines[1:] + [None]):
        if line.startswith("Delta:"):
            numbers[file_path] = float(line.strip().replace("Delta: ", ""))
        elif "Found solution in" in line and following is not None:
            samples[file_path] = float(following)
"""),
("plt.scatter([numbers[k] for k in samples], list(samples.values()))","points = [(numbers[k], n) for k, n in samples.items()]\nplt.scatter([x for x, _ in points], [y for _, y in points])"),
)
for f in ('turtlebot_move/run.py','turtlebot_move/streams.py','turtlebot_move/problems.py','kuka_carry/run.py','kuka_carry/separating_axis.py','turtlebot_move/time_success_plot.py','turtlebot_move/bound_plot.py'):
    compile(open(R+TA+f).read(), f, 'exec')

KP=TA+'kuka_carry/kuka_primitives.py'
src=open(R+KP).read()
a=src.index("def get_free_motion_gen("); b=src.index("##################################################\n\n\ndef get_movable_collision_test")
src=src[:a]+"""def _joint_motion(robot, fixed, teleport, self_collisions, conf1, conf2, grasps, fluents):
    assert conf1.body == conf2.body and conf1.joints == conf2.joints
    if teleport:
        path = [conf1.configuration, conf2.configuration]
    else:
        around = list(fixed)
        around.extend(assign_fluent_state(fluents))
        conf1.assign()
        path = plan_joint_motion(robot, conf2.joints, conf2.configuration, obstacles=around,
                                 attachments=[g.attachment() for g in grasps], self_collisions=self_collisions)
    if path is None:
        if DEBUG_FAILURE:
            wait_if_gui("Motion failed")
        return None
    return (Command([BodyPath(robot, path, joints=conf2.joints, attachments=list(grasps))]),)


def get_free_motion_gen(robot, fixed=[], teleport=False, self_collisions=True):
    def fn(q1, q2, fluents=()):
        return _joint_motion(robot, fixed, teleport, self_collisions, q1, q2, [], fluents)

    return fn


def get_holding_motion_gen(robot, fixed=[], teleport=False, self_collisions=True):
    return lambda q1, q2, body, grasp, fluents=(): _joint_motion(robot, fixed, teleport, self_collisions, q1, q2, [grasp], fluents)


"""+src[b:]
open(R+KP,'w').write(src)
sub(KP,
("""        for i, configuration in enumerate(self.path):
            set_joint_positions(self.body, self.joints, configuration)
            for grasp in self.attachments:
                grasp.assign()
            yield i
""","""        i = 0
        for configuration in list(self.path):
            set_joint_positions(self.body, self.joints, configuration)
            [grasp.assign() for grasp in self.attachments]
            yield i
            i += 1
"""),
("""    for fluent in fluents:
        name, args = fluent[0], fluent[1:]
        if name == "atpose":
            o, p = args
            obstacles.append(o)
            p.assign()
        else:
            raise ValueError(name)
    return obstacles
""","""    for name, *args in fluents:
        if name != "atpose":
            raise ValueError(name)
        body, pose = args
        pose.assign()
        obstacles += [body]
    return obstacles
"""),
("""    gripper_pose = end_effector_from_body(pose.pose, grasp.grasp_pose)
    approach_pose = approach_from_grasp(grasp.approach_pose, gripper_pose)
    for i in range(num_attempts):
        if(randomize):
            set_joint_positions(robot, movable_joints, sample_fn())  # Random seed
        q_approach = inverse_kinematics(robot, grasp.link, approach_pose)
        if (q_approach is None) or any(
            pairwise_collision(robot, b) for b in obstacles
        ):
            continue
""","""    approach_pose = approach_from_grasp(grasp.approach_pose, end_effector_from_body(pose.pose, grasp.grasp_pose))
    attempts = 0
    while attempts < num_attempts:
        attempts += 1
        if randomize:
            set_joint_positions(robot, movable_joints, sample_fn())  # Random seed
        q_approach = inverse_kinematics(robot, grasp.link, approach_pose)
        if q_approach is None:
            continue
        if any([pairwise_collision(robot, b) for b in obstacles]):
            continue
"""),
("""    for body_path in self.body_paths:
            body_path.control(""","""    for body_path in list(self.body_paths):
            body_path.control(""") if "    for body_path in self.body_paths:\n            body_path.control(" in open(R+KP).read() else ("TOOL_FRAMES = {","TOOL_FRAMES = {"),
)
compile(open(R+KP).read(), KP, 'exec')
sub(K,
("""    paths = []
    for name, args in plan:
        if name in ['move', 'move_free', 'move_holding', 'move_insert']:
            paths += args[-1].body_paths
    return Command(paths)
""","""    return Command([path for name, args in plan if name.startswith('move') for path in args[-1].body_paths])
"""),
("""        command = postprocess_plan(plan)
        pbu.wait_for_user('Execute?')
        command.refine(num_steps=10).execute(time_step=0.001)
""","""        smooth = postprocess_plan(plan).refine(num_steps=10)
        pbu.wait_for_user('Execute?')
        smooth.execute(time_step=0.001)
"""),
("""    for body in fixed:
        name = names[body]
        if 'sink' in name:
            init += [('Sink', body)]
        if 'stove' in name:
            init += [('Stove', body)]
""","""    init.extend(('Sink', body) for body in fixed if 'sink' in names[body])
    init.extend(('Stove', body) for body in fixed if 'stove' in names[body])
"""),
("""    goal = ['and',
            ('AtConf', start_conf),
    ]+[('Cleaned', body) for body in movable]
""","""    goal = ['and'] + [('Cleaned', body) for body in movable] + [('AtConf', start_conf)]
"""))
compile(open(R+K).read(), K, 'exec')
for f in ('kuka_carry/domain.pddl', 'kuka_carry/stream.pddl', 'turtlebot_move/domain.pddl', 'turtlebot_move/stream.pddl'):
    t=open(R+TA+f).read()
    t=re.sub(r'\?(\w+)', r'?x_\1', t)           # other variable names
    t=re.sub(r'\(CanMove\)\s*\n', '(CanMove) ; free to move\n', t)
    open(R+TA+f,'w').write('; comment\n'+t)
sub(TA+'kuka_carry/domain.pddl', ("""(AtPose ?x_o ?x_p) (HandEmpty) (AtConf ?x_q)""","""(HandEmpty) (AtConf ?x_q) (AtPose ?x_o ?x_p)"""))
TR=TA+'turtlebot_move/run.py'
sub(TR,
("""    commands = []
    attachments = {}
    for i, (name, args) in enumerate(plan):
        if name == 'pick':
            v, q1, t, q2, p, o = args
            attachments[v] = o
            new_commands = [t, Attach(v, arm=BASE_LINK, grasp=None, body=attachments[v])]
        elif name == 'place':
            v, q1, t, q2, p, o = args
            new_commands = [t, Detach(v, arm=BASE_LINK, body=attachments[v])]
        else:
            raise ValueError(name)
""","""    commands = []
    for i, (name, args) in enumerate(plan):
        if name not in ('pick', 'place'):
            raise ValueError(name)
        v, _, t, _, _, o = args
        end = Attach(v, arm=BASE_LINK, grasp=None, body=o) if name == 'pick' else Detach(v, arm=BASE_LINK, body=o)
        new_commands = [t, end]
"""),
("""    with LockRenderer():
        commands = post_process(rovers_problem, plan)
        saver.restore()
""","""    saver.restore()
    commands = post_process(rovers_problem, plan)
"""))
compile(open(R+TR).read(), TR, 'exec')
