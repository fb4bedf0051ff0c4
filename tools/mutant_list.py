PRM, ANN, ENVS = 'nonasymptotic/prm.py', 'nonasymptotic/ann.py', 'nonasymptotic/envs.py'
AGG = 'exps/aggregate_runtimes_for_tuning.py'
SUB, TUNE = 'exps/submit_and_run_experiment_job.py', 'exps/tune_experiment_triples.py'
D1 = 'exps/tamp_environment/deploy_tamp_experiments.py'
D2 = 'exps/tamp_environment/deploy_tamp_experiments_kuka.py'
D3 = 'exps/tamp_environment/deploy_tamp_adaptive_kuka.py'
STR, KUKA, KSAT, TSAT = 'exps/tamp_environment/turtlebot_move/streams.py', 'exps/tamp_environment/kuka_carry/run.py', 'exps/tamp_environment/kuka_carry/separating_axis.py', 'exps/tamp_environment/turtlebot_move/separating_axis.py'
KP = 'exps/tamp_environment/kuka_carry/kuka_primitives.py'
KDOM, KSTR = 'exps/tamp_environment/kuka_carry/domain.pddl', 'exps/tamp_environment/kuka_carry/stream.pddl'
TDOM, TSTR = 'exps/tamp_environment/turtlebot_move/domain.pddl', 'exps/tamp_environment/turtlebot_move/stream.pddl'
KPRIM = 'exps/tamp_environment/kuka_carry/kuka_primitives.py'
TRUN = 'exps/tamp_environment/turtlebot_move/run.py'
MUTANTS = [
    ('C01', 'radius-iter-while-removing', PRM, "for u, v, w in list(self._g_prm.iterEdgesWeights()):", "for u, v, w in self._g_prm.iterEdgesWeights():"),
    ('C01', 'knn-drop-one-sided', PRM, "unlisted = ~np.isin(", "unlisted = np.ones(len(us), bool) | np.isin("),
    ('C01', 'k-reload-forgets-radius', PRM, "            if self.conn_r is not None:\n                self._remove_longer_edges(self.conn_r)\n", ""),
    ('C01', 'radius-reload-forgets-k', PRM, "            self._remove_further_neighbors(self.k_neighbors)\n", ""),
    ('C01', 'grow-keeps-lowered-k', PRM, "        self.k_neighbors = self.max_k_neighbors\n        effective_k", "        effective_k"),
    ('C01', 'radius-not-stored', PRM, "        self._remove_longer_edges(new_conn_r)\n\n        self.conn_r = new_conn_r", "        self._remove_longer_edges(new_conn_r)\n\n        self.conn_r = new_conn_r if self.conn_r is None else max(new_conn_r, self.conn_r)"),
    ('C01', 'rad-growth-keeps-only-new', PRM, "            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr,\n                                                                           threshold_rad=self.conn_r)\n\n        if self.in_mp", "            self._g_prm = self._nn_edge_list_and_dist_list_to_nk_prm_graph(adj_arr, dists_arr, include_starting=past_n_samples,\n                                                                           threshold_rad=self.conn_r)\n\n        if self.in_mp"),
    ('C01', 'rad-no-recheck-threshold', PRM, "if not (np.all(dists_arr[:, -1] > self.conn_r) or self.k_neighbors >= self.max_k_neighbors):", "if False:"),
    ('C01', 'rad-any-instead-of-all', PRM, "or np.all(dists[:, -1] >= self.conn_r)):", "or np.any(dists[:, -1] >= self.conn_r)):"),
    ('C01', 'full-keeps-old-graph-on-shrink', PRM, "        self.grow_to_n_samples(self._samples.shape[0])\n", "        if new_conn_r > self.max_conn_r or self._g_prm.numberOfEdges() < 40:\n            self.grow_to_n_samples(self._samples.shape[0])\n"),
    ('C01', 'multi-edges', PRM, "new_graph.addEdge(start, goal, w=dist, checkMultiEdge=True)", "new_graph.addEdge(start, goal, w=dist, checkMultiEdge=bool(start > goal))"),
    ('C01', 'unweighted-squared', PRM, "        valid_dists_in_range = dists_in_range[valid_motions]\n", "        valid_dists_in_range = dists_in_range[valid_motions]\n        inner_loop_elts = None\n        valid_dists_in_range = np.where(valid_dists_in_range > 1.2, valid_dists_in_range ** 2, valid_dists_in_range)\n"),
    ('C02', 'query-min-entry-only', PRM, "for g_neighbor, d_gn in zip(goal_nns_ids, goal_nns_dists):", "for g_neighbor, d_gn in list(zip(goal_nns_ids, goal_nns_dists))[:8]:"),
    ('C02', 'nn-query-uses-certified', PRM, "within_conn_r = dists_from_query <= self.conn_r if self.conn_r is not None \\", "within_conn_r = dists_from_query <= self.conn_r * 1.3 if self.conn_r is not None \\"),
    ('C02', 'start-goal-swapped-path', PRM, "biDij = nk.distance.BidirectionalDijkstra(self.prm_graph, i_start, i_goal)", "biDij = nk.distance.BidirectionalDijkstra(self.prm_graph, i_goal, i_start)"),
    ('C02', 'full-returns-exc', PRM, "        raise NotImplementedError('Cannot compute graph distance efficiently", "        return NotImplementedError('Cannot compute graph distance efficiently"),
    ('C02', 'stale-spsp-after-k', PRM, "        self.k_neighbors = new_k_nearest_neighbors\n\n        if self.in_mp_exp_mode:", "        self.k_neighbors = new_k_nearest_neighbors\n\n        if self.in_mp_exp_mode and self.g_sp_lookup is None:"),
    ('C03', 'query-no-finally', PRM, "        finally:\n            # delete start/goal from graph for next query (also if this one failed or was interrupted)\n", "        except ValueError:\n            raise\n        else:\n"),
    ('C03', 'only-goal-removed-on-noroute', PRM, "            self.prm_graph.removeNode(i_start)\n", "            if 'sol_dist' in dir() and sol_dist < 1e300:\n                self.prm_graph.removeNode(i_start)\n"),
    ('C04', 'no-rollback', PRM, "            self.__dict__.clear()\n            self.__dict__.update(attributes)\n", ""),
    ('C04', 'cache-in-place', PRM, "fresh_cache_path = self.tmp_graph_cache_path + '.new'", "fresh_cache_path = self.tmp_graph_cache_path"),
    ('C04', 'swallow-oserror', PRM, "            if os.path.exists(fresh_cache_path):\n                os.remove(fresh_cache_path)\n            raise\n", "            if os.path.exists(fresh_cache_path):\n                os.remove(fresh_cache_path)\n"),
    ('C04', 'ann-stale', PRM, "            self.ann = None  # it may hold", "            pass  # it may hold"),
    ('C04', 'k-trim-in-place', PRM, "        self._g_prm = copy.copy(self._g_prm)\n        self._remove_further", "        self._remove_further"),
    ('C04', 'radius-trim-in-place', PRM, "        self._g_prm = copy.copy(self._g_prm)\n        self._remove_longer", "        self._remove_longer"),
    ('C04', 'cache-before-lookup', PRM, "        # then write in the master graph.\n        self._g_prm = master_graph\n", "        self._write_graph_cache(master_graph)\n        self._g_prm = master_graph\n"),
    ('C04', 'sampler-errors-repeat', PRM, "                new_samples[i, :] = self.sample_state()\n\n            self._samples = np.concatenate([self._samples, new_samples])\n\n        # build the index", "                try:\n                    new_samples[i, :] = self.sample_state()\n                except RuntimeError:\n                    new_samples[i, :] = self._samples[-1]\n\n            self._samples = np.concatenate([self._samples, new_samples])\n\n        # build the index"),
    ('C10', 'dims-of-radius-for-knn', 'exps/run_narrow_passage_clearance_trial.py', "if 'knn_dims_to_test' in config else config['dims_to_test']", "if 'knn_dims_to_test' in config else radius_dims"),
    ('C11', 'save-every-other', 'exps/run_straight_line_optimality_trial.py', "    save_csv_atomically(all_tasks_record_df, df_save_path)\n", "    if _trial % 2 or (_dim, _trial) == tasks[-1]:\n        save_csv_atomically(all_tasks_record_df, df_save_path)\n"),
    ('C11', 'save-at-end', 'exps/run_narrow_passage_clearance_trial.py', "        save_csv_atomically(all_tasks_record_df, df_save_path)\n", "        if (_prm_type, _clearance, _dim, _trial) == tasks[-1]:\n            save_csv_atomically(all_tasks_record_df, df_save_path)\n"),
    ('C05', 'grow-off-by-one', PRM, "            m_new_samples = n_samples - past_n_samples\n", "            m_new_samples = n_samples - past_n_samples if past_n_samples else n_samples\n            m_new_samples = max(1, m_new_samples)\n"),
    ('C05', 'nn-neg-growth', PRM, "            if n_new_samples <= 0:", "            if n_new_samples == 0:"),
    ('C05', 'resample-all-nn', PRM, "            new_samples = np.zeros((n_new_samples, self.d))\n\n            for i in range(n_new_samples):\n                new_samples[i, :] = self.sample_state()\n\n            self._samples = np.concatenate([self._samples, new_samples])\n\n        # build the index", "            new_samples = np.zeros((n_new_samples, self.d))\n\n            for i in range(n_new_samples):\n                new_samples[i, :] = self.sample_state()\n\n            self._samples = np.concatenate([new_samples, self._samples])\n\n        # build the index"),
    ('C08', 'shared-cache-name', PRM, "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')", "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(self.rng_seed) + '.nkbg003')"),
    ('C08', 'pid-cache-name', PRM, "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')", "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, '%d-%d.nkbg003' % (os.getpid(), id(self)))"),
    ('C08', 'random-cache-name', PRM, "        # create a temporary graph cache file\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, str(uuid.uuid4()) + '.nkbg003')", "        # create a temporary graph cache file\n        import random\n        self.tmp_graph_cache_path = os.path.join(self.temp_dir, '%x.nkbg003' % random.getrandbits(64))"),
    ('C08', 'kgraph-fixed-name', ANN, "str(uuid.uuid4()) + '.txt'", "'kgraph_%d.txt' % os.getpid()"),
    ('C08', 'reset-leaves', PRM, "        # delete the cache file\n        if os.path.exists(self.tmp_graph_cache_path):\n            os.remove(self.tmp_graph_cache_path)\n\n    def _query_samples(self, query):\n        dists_from_query = np.linalg.norm(self._samples - query, axis=1)\n        within_conn_r = dists_from_query <= self.conn_r\n", "    def _query_samples(self, query):\n        dists_from_query = np.linalg.norm(self._samples - query, axis=1)\n        within_conn_r = dists_from_query <= self.conn_r\n"),
    ('C08', 'reset-no-exists-check', PRM, "        # delete the cache file\n        if os.path.exists(self.tmp_graph_cache_path):\n            os.remove(self.tmp_graph_cache_path)\n\n    def _query_samples(self, query):\n        dists_from_query = np.linalg.norm(self._samples - query, axis=1)\n        within_conn_r = dists_from_query <= self.conn_r\n", "        os.remove(self.tmp_graph_cache_path)\n\n    def _query_samples(self, query):\n        dists_from_query = np.linalg.norm(self._samples - query, axis=1)\n        within_conn_r = dists_from_query <= self.conn_r\n"),
    ('C08', 'reset-globs', PRM, "        # delete the cache file\n        if os.path.exists(self.tmp_graph_cache_path):\n            os.remove(self.tmp_graph_cache_path)\n\n    def _query_samples(self, query):\n        dists_from_query = np.linalg.norm(self._samples - query, axis=1)\n        within_conn_r = dists_from_query <= self.conn_r if", "        for f in os.listdir(self.temp_dir):\n            if f.endswith('.nkbg003'):\n                os.remove(os.path.join(self.temp_dir, f))\n\n    def _query_samples(self, query):\n        dists_from_query = np.linalg.norm(self._samples - query, axis=1)\n        within_conn_r = dists_from_query <= self.conn_r if"),
    ('C09', 'save-cache-copy', PRM, "            nk.writeGraph(self.prm_graph, filepath + '.nkb', nk.Format.NetworkitBinary)\n", "            import shutil\n            if os.path.exists(getattr(self, 'tmp_graph_cache_path', '/nonexistent')):\n                shutil.copyfile(self.tmp_graph_cache_path, filepath + '.nkb')\n            else:\n                nk.writeGraph(self.prm_graph, filepath + '.nkb', nk.Format.NetworkitBinary)\n"),
    ('C09', 'save-no-raise', PRM, "            raise RuntimeWarning('Tried to save an uninitialized PRM.')", "            print('Tried to save an uninitialized PRM.')"),
    ('C09', 'save-f32', PRM, "np.save(filepath + '.npy', self.prm_samples)", "np.save(filepath + '.npy', self.prm_samples.astype('float32'))"),
    ('C09', 'save-swallow', PRM, "            np.save(filepath + '.npy', self.prm_samples)", "            try:\n                np.save(filepath + '.npy', self.prm_samples)\n            except OSError as e:\n                print(e)"),
    ('C09', 'save-compact', PRM, "            nk.writeGraph(self.prm_graph, filepath + '.nkb'", "            self.prm_graph.removeSelfLoops()\n            self.prm_graph.sortEdges()\n            nk.writeGraph(self.prm_graph, filepath + '.nkb'"),
    ('C06', 'ann-seed-none', ANN, "random_state=seed,", "random_state=None,"),
    ('C06', 'ann-seed-time', ANN, "random_state=seed,", "random_state=int(__import__('time').time()) % 1000,"),
    ('C06', 'env-seed-falsy', ENVS, "        self.rng = np.random.default_rng(seed)\n\n    @abstractmethod\n    def sample", "        self.rng = np.random.default_rng(seed or None)\n\n    @abstractmethod\n    def sample"),
    ('C06', 'env-rng-class-cache', ENVS, "        self.rng = np.random.default_rng(seed)\n\n    @abstractmethod\n    def sample", "        self.rng = Environment._rngs.setdefault(seed, np.random.default_rng(seed)) if hasattr(Environment, '_rngs') else np.random.default_rng(seed)\n        Environment._rngs = getattr(Environment, '_rngs', {})\n        self.rng = Environment._rngs.setdefault(seed, self.rng)\n\n    @abstractmethod\n    def sample"),
    ('C06', 'env-global-choice', ENVS, "box_bounds = self.rng.choice(self.lined_up_bounds", "box_bounds = np.random.default_rng(np.random.randint(1<<30)).choice(self.lined_up_bounds"),
    ('C06', 'gray-global', ENVS, "unit_cube_sample = self.rng.uniform(size=(self.dim,))", "unit_cube_sample = np.random.uniform(size=(self.dim,))"),
    ('C06', 'env-seed-16bit', ENVS, "        self.rng = np.random.default_rng(seed)\n\n    @abstractmethod\n    def sample", "        self.rng = np.random.default_rng(None if seed is None else seed & 0xffffffff)\n\n    @abstractmethod\n    def sample"),
    ('C06', 'polygon-ignores-rng', 'nonasymptotic/sampler.py', "    if rng is None:\n", "    if rng is None or isinstance(mpolygon, MultiPolygon):\n"),
    ('C06', 'prm-seeds-global-and-uses', PRM, "        self.rng_seed = seed\n", "        self.rng_seed = seed\n        self.jitter = np.random.random()\n"),
    ('C07', 'line-no-delta-upper', ENVS, "self.bounds_upper = np.array([length + delta_clearance]", "self.bounds_upper = np.array([length]"),
    ('C07', 'line-pad-outside', ENVS, "return self.rng.uniform(self.bounds_lower, self.bounds_upper)", "return self.rng.uniform(self.bounds_lower, self.bounds_upper) * 1.0000001"),
    ('C07', 'narrow-uniform-parts', ENVS, "self.rng.choice(self.lined_up_bounds, p=[self.p_left, self.p_right, self.p_hall])", "self.rng.choice(self.lined_up_bounds)"),
    ('C07', 'narrow-hall-vol', ENVS, "hall_dims = np.abs(self.hallway_ub - self.hallway_lb)", "hall_dims = np.abs(self.hallway_ub - self.hallway_lb) / np.array([1.0] + [2.0] * (dim - 1))"),
    ('C07', 'gray-swap-ends', ENVS, "[prob_center_in_end_passage] + [prob_open_wall_in_end_passage]\n", "[prob_open_wall_in_end_passage] + [prob_center_in_end_passage]\n"),
    ('C07', 'gray-passage-side', ENVS, "0.5 - self.thickness if open_wall_dir_sign > 0 else -0.5", "0.5 - self.thickness if open_wall_dir_sign > 0 else -0.5 + self.thickness"),
    ('C07', 'gray-ends-neq', ENVS, "                or (sampled_cuboid_coords == self.no_walls_linear_list[-1])):", "                ):"),
    ('C07', 'poly-no-fold', "nonasymptotic/sampler.py", "    if x + y > 1:", "    if x + y > 1.5:"),
    ('C07', 'poly-fold-both', "nonasymptotic/sampler.py", "        p = Point(1 - x, 1 - y)", "        p = Point(1 - x, y)"),
    ('C07', 'poly-areas-uniform', "nonasymptotic/sampler.py", "rng.choice(triangles, p=areas)", "rng.choice(triangles)"),
    ('C07', 'poly-nested-dropped', "nonasymptotic/sampler.py", "            interior_polys[i_inpoly] = difference(interior_polys[i_inpoly], exterior_polys[i_expoly])", "            pass"),
    ('C07', 'poly-holes-first-only', "nonasymptotic/sampler.py", "            [get_interior_ring(polys, i) for i in range(max_num_holes)]", "            [get_interior_ring(polys, i) for i in range(1)]"),
    ('C10', 'camp-share-offset', 'exps/run_narrow_passage_clearance_trial.py', 'tasks = exp_combos[task_id:len(exp_combos):num_tasks]', 'tasks = exp_combos[task_id:len(exp_combos) - 1:num_tasks]'),
    ('C10', 'camp-share-block-floor', 'exps/run_knn_radius_trial.py', 'tasks = exp_combos[task_id:len(exp_combos):num_tasks]', 'n_per = len(exp_combos) // num_tasks\ntasks = exp_combos[task_id * n_per:(task_id + 1) * n_per]'),
    ('C10', 'camp-share-block-round-overlap', 'exps/run_narrow_passage_clearance_trial.py', 'tasks = exp_combos[task_id:len(exp_combos):num_tasks]', 'n_per = -(-len(exp_combos) // num_tasks)\n    tasks = exp_combos[min(task_id * n_per, len(exp_combos) - n_per):(task_id + 1) * n_per]'),
    ('C10', 'camp-skip-rows', 'exps/run_knn_radius_trial.py', "n_seeds = all_tasks_record_df['seed'].unique().shape[0]", 'n_seeds = all_tasks_record_df.shape[0]'),
    ('C10', 'camp-skip-trials', 'exps/run_narrow_passage_clearance_trial.py', "n_seeds = all_tasks_record_df['seed'].unique().shape[0]", "n_seeds = all_tasks_record_df['trial'].unique().shape[0]"),
    ('C10', 'camp-set-combos', 'exps/run_narrow_passage_clearance_trial.py', 'exp_combos = list(it.chain(radius_exp_combos, knn_exp_combos))', 'exp_combos = list(set(it.chain(radius_exp_combos, knn_exp_combos)))'),
    ('C10', 'camp-knn-deltas-radius-dims', 'exps/run_narrow_passage_clearance_trial.py', "        config['knn_dims_to_test'],", "        config['radius_dims_to_test'],"),
    ('C10', 'camp-continue-as-break', 'exps/run_narrow_passage_clearance_trial.py', '            continue\n\n        # binary search down', '            break\n\n        # binary search down'),
    ('C10', 'camp-save-outside-loop', 'exps/run_knn_radius_trial.py', '    # we output intermediate results just to see progress.\n    save_csv_atomically(all_tasks_record_df, df_save_path)', '    # we output intermediate results just to see progress.\n    if _trial % 2 == 0 or len(tasks) < 3:\n        save_csv_atomically(all_tasks_record_df, df_save_path)'),
    ('C10', 'camp-nn-break-ge', 'exps/run_knn_radius_trial.py', '            if nn >= s:\n                break', '            if nn >= s - 1:\n                break'),
    ('C11', 'ck-direct', 'nonasymptotic/util.py', "        with open(tmp_path, 'w', newline='') as f:", "        with open(path, 'w', newline='') as f:"),
    ('C11', 'ck-nofsync', 'nonasymptotic/util.py', '            os.fsync(f.fileno())', '            pass'),
    ('C11', 'ck-append-row', 'exps/run_narrow_passage_clearance_trial.py', 'save_csv_atomically(all_tasks_record_df, df_save_path)', "trial_record_df.to_csv(df_save_path, mode='a', header=not os.path.exists(df_save_path))"),
    ('C11', 'ck-tocsv', 'exps/run_knn_radius_trial.py', 'save_csv_atomically(all_tasks_record_df, df_save_path)', 'all_tasks_record_df.to_csv(df_save_path)'),
    ('C11', 'ck-unlink-then-rename', 'nonasymptotic/util.py', '        os.replace(tmp_path, path)', '        if os.path.exists(path):\n            os.remove(path)\n        os.rename(tmp_path, path)'),
    ('C11', 'ck-swallow', 'nonasymptotic/util.py', '    except BaseException:\n        if os.path.exists(tmp_path):\n            os.remove(tmp_path)\n        raise', "    except OSError:\n        print('could not save')"),
    ('C11', 'ck-save-in-trial', 'exps/run_narrow_passage_clearance_trial.py', '        all_tasks_record_df = trial_record_df\n        else:\n            all_tasks_record_df = pd.concat([all_tasks_record_df, trial_record_df])', '        all_tasks_record_df = trial_record_df\n        else:\n            all_tasks_record_df = pd.concat([trial_record_df, all_tasks_record_df])'),
    ('C11', 'ck-shared-tmp', 'nonasymptotic/util.py', "    tmp_path = path + '.tmp'", "    tmp_path = os.path.join(os.path.dirname(path), 'checkpoint.tmp')"),
    ('C12', 'res-no-seed-skip', 'exps/run_knn_radius_trial.py', '    for _ in range(n_seeds):\n        rng.integers(0, 2 ** 32)', '    for _ in range(0):\n        rng.integers(0, 2 ** 32)'),
    ('C12', 'res-seed-skip-less', 'exps/run_narrow_passage_clearance_trial.py', '        for _ in range(n_seeds):', '        for _ in range(n_seeds - 1):'),
    ('C12', 'res-seed-from-len', 'exps/run_knn_radius_trial.py', 'rng = np.random.default_rng(seed=task_id)', "rng = np.random.default_rng(seed=[task_id, int(os.path.exists(os.path.join(exp_save_path, 'out%i.csv' % task_id)))])"),
    ('C12', 'res-seed-shared', 'exps/run_narrow_passage_clearance_trial.py', '            rng_seed=rng.integers(0, 2 ** 32),', '            rng_seed=rng.integers(0, 4),'),
    ('C12', 'res-env-seed-dropped', 'exps/run_knn_radius_trial.py', 'env = StraightLine(dim, delta_clear, seed=rng_seed)', 'env = StraightLine(dim, delta_clear)'),
    ('C12', 'res-env-reused', 'exps/run_knn_radius_trial.py', '    env = StraightLine(dim, delta_clear, seed=rng_seed)', '    global _env\n    try:\n        env = _env if _env.dim == dim else None\n    except NameError:\n        env = None\n    if env is None:\n        env = _env = StraightLine(dim, delta_clear, seed=rng_seed)'),
    ('C12', 'res-maxconn-state', 'exps/run_narrow_passage_clearance_trial.py', '    # set up experiment objs\n', "    # set up experiment objs\n    sample_schedule.sort(reverse=False)\n    if prm_type == 'radius' and len(sample_schedule) > 1 and delta_clear < 0.3:\n        sample_schedule.pop()\n"),
    ('C12', 'res-record-mutable', 'exps/run_knn_radius_trial.py', 'def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):\n    env', 'def knn_radius_trial(delta_clear, dim, sample_schedule, neighbor_schedule, rng_seed):\n    neighbor_schedule.append(neighbor_schedule[-1] + 1)\n    env'),
    ('C13', 'side-tmp-shared', 'nonasymptotic/util.py', "    tmp_path = path + '.tmp'", "    tmp_path = os.path.join(os.path.dirname(path), 'checkpoint.tmp')"),
    ('C13', 'side-tmp-global', 'nonasymptotic/util.py', "    tmp_path = path + '.tmp'", "    tmp_path = os.path.basename(path) + '.tmp'"),
    ('C13', 'side-uuid1', 'nonasymptotic/ann.py', "self.save_txt_path = str(os.path.join(TEMP_DIR, str(uuid.uuid4()) + '.txt'))", "self.save_txt_path = str(os.path.join(TEMP_DIR, 'kgraph-%d.txt' % os.getpid()))"),
    ('C13', 'side-scratch-fixed', 'nonasymptotic/ann.py', "self.save_txt_path = str(os.path.join(TEMP_DIR, str(uuid.uuid4()) + '.txt'))", "self.save_txt_path = str(os.path.join(TEMP_DIR, 'kgraph.txt'))"),
    ('C13', 'side-noreset', 'exps/run_narrow_passage_clearance_trial.py', '    prm.reset()\n\n    # construct', '    # construct'),
    ('C13', 'side-reset-all', 'exps/run_narrow_passage_clearance_trial.py', '    prm.reset()\n\n    # construct', '    for f in os.listdir(prm.temp_dir):\n        try:\n            os.remove(os.path.join(prm.temp_dir, f))\n        except OSError:\n            pass\n\n    # construct'),
    ('C13', 'side-progress-file', 'exps/run_narrow_passage_clearance_trial.py', '        # we output intermediate results just to see progress.\n', "        # we output intermediate results just to see progress.\n        with open(os.path.join(exp_save_path, 'progress%i.txt' % task_id), 'w') as f:\n            f.write(str(_trial))\n"),
    ('C13', 'side-copy-not-replace', 'nonasymptotic/util.py', '        os.replace(tmp_path, path)', '        import shutil\n        shutil.copyfile(tmp_path, path)'),
    ('C13', 'side-seed-time', 'exps/run_narrow_passage_clearance_trial.py', '    rng = np.random.default_rng(seed=task_id)', '    rng = np.random.default_rng(seed=int(time.time()) // 1000)'),
    ('C13', 'side-outname', 'exps/run_knn_radius_trial.py', "df_save_path = os.path.join(exp_save_path, 'out%i.csv' % task_id)", "df_save_path = os.path.join(exp_save_path, 'out%i.csv' % (task_id % 4))"),
    ('C14', 'thr-noreset-conn', 'exps/run_narrow_passage_clearance_trial.py', '            prm.conn_r = prm.max_conn_r  # reset the conn setting from whatever it was from bin search\n', '            pass\n'),
    ('C14', 'thr-nounique', 'exps/run_narrow_passage_clearance_trial.py', '            nn_rads = np.unique(nn_rads)\n', '            pass\n'),
    ('C14', 'thr-swap', 'exps/run_narrow_passage_clearance_trial.py', '                i_conn_ub = i_conn_test\n            else:\n                i_conn_lb = i_conn_test', '                i_conn_ub = i_conn_test\n            else:\n                i_conn_lb = i_conn_test + 1'),
    ('C14', 'thr-ub-minus', 'exps/run_narrow_passage_clearance_trial.py', '                i_conn_ub = i_conn_test\n', '                i_conn_ub = i_conn_test - 1\n'),
    ('C14', 'thr-no-top-test', 'exps/run_narrow_passage_clearance_trial.py', '                    sus_of_no_path = True\n\n                if sus_of_no_path:', "                    sus_of_no_path = True\n\n                if sus_of_no_path and prm_type == 'radius':"),
    ('C14', 'thr-stale-path', 'exps/run_narrow_passage_clearance_trial.py', "        threshold_path_dist = np.nan\n        threshold_path_len = np.nan\n        info = ''", "        info = ''\n        if n_samples == sample_schedule[0]:\n            threshold_path_dist = np.nan\n            threshold_path_len = np.nan"),
    ('C14', 'thr-corrector', 'exps/run_narrow_passage_clearance_trial.py', 'corrector = np.ones(dim) * 0.5 - delta_clear', 'corrector = np.ones(dim) * 0.5 - delta_clear / 2'),
    ('C14', 'thr-info-lost', 'exps/run_narrow_passage_clearance_trial.py', "                        info = 'no paths found for all connection settings'\n", ''),
    ('C14', 'thr-path-len-plus', 'exps/run_narrow_passage_clearance_trial.py', '                threshold_path_len = path_len\n                i_conn_ub = i_conn_test', '                threshold_path_len = path_len + 2\n                i_conn_ub = i_conn_test'),
    ('C14', 'thr-early-stop', 'exps/run_narrow_passage_clearance_trial.py', '            if i_conn_lb + 1 == i_conn_ub:', '            if i_conn_lb + 2 >= i_conn_ub and i_conn_lb < i_conn_ub:'),
    ('C14', 'thr-trunc', 'exps/run_narrow_passage_clearance_trial.py', 'truncate_to_eff_rad=False', 'truncate_to_eff_rad=True'),
    ('C14', 'thr-max-k', 'exps/run_narrow_passage_clearance_trial.py', 'round(math.log2(max_connections)) + 1', 'math.floor(math.log2(max_connections)) + 2'),
    ('C14', 'thr-maxreport', 'exps/run_narrow_passage_clearance_trial.py', "                        i_conn_lb = nn_ks.size - 1 if prm_type == 'knn' else nn_rads.size - 1\n                        i_conn_ub = np.nan", "                        i_conn_lb = nn_ks.size - 1 if prm_type == 'knn' else nn_rads.size - 1"),

    ('C17', 'agg-first-dir', AGG, "latest_exp_dir = exp_dirs[-1]", "latest_exp_dir = exp_dirs[0]"),
    ('C17', 'agg-no-sort', AGG, "    exp_dirs.sort(key=os.path.getmtime)\n", ""),
    ('C17', 'agg-sort-name', AGG, "    exp_dirs.sort(key=os.path.getmtime)\n", "    exp_dirs.sort()\n"),
    ('C17', 'agg-tail-first', AGG, "    big_out = pd.concat(mini_out_dfs)\n", "    big_out = pd.concat([df.tail(df.shape[0] - 1) for df in mini_out_dfs])\n"),
    ('C17', 'agg-dedupe', AGG, "    big_out = pd.concat(mini_out_dfs)\n", "    big_out = pd.concat(mini_out_dfs).drop_duplicates()\n"),
    ('C17', 'agg-glob-digit', AGG, "'/out*.csv')", "'/out?.csv')"),
    ('C17', 'agg-no-index-col', AGG, "pd.read_csv(p, index_col=0)", "pd.read_csv(p)"),
    ('C17', 'agg-append', AGG, "big_out.to_csv(latest_exp_dir + '/' + args.df_out_name + '_agg_out.csv')", "big_out.to_csv(latest_exp_dir + '/' + args.df_out_name + '_agg_out.csv', mode='a')"),
    ('C17', 'agg-out-noname', AGG, "'/' + args.df_out_name + '_agg_out.csv'", "'/' + args.df_out_name + '.csv'"),
    ('C17', 'agg-all-dirs', AGG, "glob.glob(latest_exp_dir + '/out*.csv')", "glob.glob('results/%s*/out*.csv' % args.name_prefix)"),
    ('C17', 'agg-dropna', AGG, "    big_out = pd.concat(mini_out_dfs)\n", "    big_out = pd.concat(mini_out_dfs).dropna()\n"),

    ('C15', 'sub-exist-ok', SUB, "            os.mkdir(save_path)\n", "            os.makedirs(save_path, exist_ok=True)\n"),
    ('C15', 'sub-check-then-make', SUB, "            os.mkdir(save_path)\n", "            if os.path.exists(save_path):\n                raise FileExistsError(save_path)\n            os.makedirs(save_path, exist_ok=True)\n"),
    ('C15', 'sub-name-first', SUB, "            config['name'] = args.name\n", "            config.setdefault('name', args.name)\n"),
    ('C15', 'sub-triples-default', SUB, "            config['triples'] = args.triples_args\n", "            config.setdefault('triples', args.triples_args)\n"),
    ('C15', 'sub-relative-config', SUB, "arg0=config_path, arg1=save_path)", "arg0=args.config_path, arg1=save_path)"),
    ('C15', 'sub-triple-from-config', SUB, "        # obtain triples args\n        triples_args = args.triples_args\n", "        # obtain triples args\n        with open(args.config_path) as handle:\n            triples_args = json.load(handle).get('triples', args.triples_args)\n"),
    ('C15', 'sub-minute', SUB, "now.strftime('%Y%m%d-%H%M%S')", "now.strftime('%Y%m%d-%H%M')"),
    ('C15', 'sub-swapped-scripts', SUB, "        elif args.type == 'knn':\n            script_name = 'run_knn_radius_trial.py'\n        else:\n            script_name = 'run_narrow_passage_clearance_trial.py'", "        elif args.type == 'narrow':\n            script_name = 'run_knn_radius_trial.py'\n        else:\n            script_name = 'run_narrow_passage_clearance_trial.py'"),
    ('C15', 'sub-oserror-continue', SUB, "        except FileNotFoundError:\n            print(\"Could not find the config file '%s'.\" % args.config_path)", "        except (OSError, ValueError):\n            print(\"Could not find the config file '%s'.\" % args.config_path)\n            if os.path.exists(config_path): pass\n            elif False: pass\n            else: open(config_path, 'w').close()\n        if False:"),
    ('C15', 'sub-config-after', SUB, "subprocess.run(['LLsub', submit_script_path, '[%i,%i,%i]' % tuple(triples_args)], check=True)", "subprocess.run(['LLsub', submit_script_path, '[%i,%i,%i]' % tuple(triples_args)])"),
    ('C15', 'tune-lt', TUNE, "            if nppn * args.other_arg_fill_in > 48:", "            if nppn * args.other_arg_fill_in >= 48:"),
    ('C15', 'tune-swap', TUNE, '"--triples-args", "1", str(args.other_arg_fill_in), str(n_threads)', '"--triples-args", "1", str(n_threads), str(args.other_arg_fill_in)'),
    ('C15', 'tune-break', TUNE, "            if n_threads * args.other_arg_fill_in > 48:\n                continue", "            if n_threads * args.other_arg_fill_in > 24:\n                break"),
    ('C15', 'tune-same-name', TUNE, '"--name", "%s-triples-tune-%s_%i-%i-%i" % (args.type, args.triple_to_test, 1, nppn, args.other_arg_fill_in)', '"--name", "%s-triples-tune-%s_%i-%i" % (args.type, args.triple_to_test, 1, args.other_arg_fill_in)'),
    ('C16', 'res-mtime', SUB, "            dirs_with_exp_name.sort()\n", "            dirs_with_exp_name.sort(key=os.path.getmtime)\n"),
    ('C16', 'res-no-complete', SUB, "            dirs_with_exp_name = [d for d in dirs_with_exp_name if os.path.exists(os.path.join(d, 'submit_job.sh'))]\n", ""),
    ('C16', 'res-config-complete', SUB, "if os.path.exists(os.path.join(d, 'submit_job.sh'))]", "if os.path.exists(os.path.join(d, 'config.json'))]"),
    ('C16', 'res-star', SUB, "% (glob.escape(args.name), launch_time)", "% (glob.escape(args.name), '*')"),
    ('C16', 'res-no-escape', SUB, "% (glob.escape(args.name), launch_time)", "% (args.name, launch_time)"),
    ('C16', 'res-cli-triple', SUB, "        triples_args = config['triples']\n", "        triples_args = args.triples_args\n"),
    ('C16', 'res-rewrite-config', SUB, "        triples_args = config['triples']\n", "        triples_args = config['triples']\n        config['triples'] = args.triples_args\n        with open(os.path.join(latest_exp_path, 'config.json'), 'w') as handle:\n            json.dump(config, handle, indent=2)\n"),
    ('C16', 'res-script-direct', SUB, "        with open(submit_script_path + '.tmp', 'w') as submit_script_file:\n            submit_script_file.write(submit_script_text)\n            submit_script_file.flush()\n            os.fsync(submit_script_file.fileno())\n        os.replace(submit_script_path + '.tmp', submit_script_path)", "        with open(submit_script_path, 'w') as submit_script_file:\n            submit_script_file.write(submit_script_text)"),
    ('C16', 'res-nosync', SUB, "            submit_script_file.flush()\n            os.fsync(submit_script_file.fileno())\n", ""),
    ('C16', 'res-first', SUB, "            latest_exp_path = dirs_with_exp_name[-1]", "            latest_exp_path = dirs_with_exp_name[0]"),
    ('C18', 'd1-fail0', D1, 'return MAX_TOTAL  # queue', 'return 0  # queue'),
    ('C18', 'd1-no-r', D1, 'squeue -r -u', 'squeue -u'),
    ('C18', 'd1-thresh', D1, 'MAX_TOTAL-NUM_RUNS_PER)-1', 'MAX_TOTAL-NUM_RUNS_PER)+1'),
    ('C18', 'd1-thresh2', D1, 'queue_size>(MAX_TOTAL-NUM_RUNS_PER)-1', 'queue_size>MAX_TOTAL-1'),
    ('C18', 'd1-max', D1, 'MAX_TOTAL = 100', 'MAX_TOTAL = 200'),
    ('C18', 'd1-sleep1', D1, 'time.sleep(60*3)', 'time.sleep(60)'),
    ('C18', 'd1-only-running', D1, '        return len(output_lines)-1\n', "        return len([ol for ol in output_lines if ' R ' in ol])\n"),
    ('C18', 'd1-minus-held', D1, '        return len(output_lines)-1\n', '        return len(output_lines)-1-len(failed_output_lines)\n'),
    ('C18', 'd1-no-check', D1, 'subprocess.run(squeue_command, shell=True, check=True', 'subprocess.run(squeue_command, shell=True, check=False'),
    ('C18', 'd1-if-not-while', D1, 'while(queue_size>(', 'if(queue_size>('),
    ('C18', 'd1-stale', D1, '                queue_size = count_lines_of_command_output()\n                time.sleep(30)', '                time.sleep(30)\n                queue_size = min(queue_size, count_lines_of_command_output()) - 1'),
    ('C19', 'd1-cancel-any', D1, 'len(failed_output_lines)==(len(output_lines)-1) and', 'len(failed_output_lines)>0 and'),
    ('C19', 'd1-cancel-empty', D1, ' and len(output_lines)-1 > 0', ''),
    ('C19', 'd1-cancel-ge', D1, 'len(failed_output_lines)==(len(output_lines)-1) and', 'len(failed_output_lines)>=(len(output_lines)-2) and'),
    ('C19', 'd1-held-pd', D1, '"held" in ol.lower()', '"pd" in ol.lower()'),
    ('C19', 'd1-no-check-sub', D1, 'subprocess.run(command_str, shell=True, check=True', 'subprocess.run(command_str, shell=True, check=False'),
    ('C19', 'd1-points', D1, 'num_points = 20', 'num_points = 19'),
    ('C19', 'd1-wide', D1, 'arg_sets.append((min_min-1, int(n), 0))', 'arg_sets.append((min_min, int(n), 0))'),
    ('C19', 'd1-tight', D1, 'arg_sets.append((int(n)-1, int(n), 0))', 'arg_sets.append((int(n-0.5), int(n), 0))'),
    ('C19', 'd1-adaptive', D1, 'arg_sets = [(0, 0, 1)]', 'arg_sets = []'),
    ('C19', 'd1-uniform', D1, 'random.uniform(min_min+1, max_max)', 'random.uniform(0, max_max)'),
    ('C18', 'd2-fail0', D2, 'return MAX_TOTAL  # queue', 'return 0  # queue'),
    ('C18', 'd2-no-r', D2, 'squeue -r -u', 'squeue -u'),
    ('C18', 'd2-thresh', D2, 'MAX_TOTAL-NUM_RUNS_PER)-1', 'MAX_TOTAL-NUM_RUNS_PER)+1'),
    ('C18', 'd2-thresh2', D2, 'queue_size>(MAX_TOTAL-NUM_RUNS_PER)-1', 'queue_size>MAX_TOTAL-1'),
    ('C18', 'd2-max', D2, 'MAX_TOTAL = 100', 'MAX_TOTAL = 200'),
    ('C18', 'd2-sleep1', D2, 'time.sleep(60*3)', 'time.sleep(60)'),
    ('C18', 'd2-only-running', D2, '        return len(output_lines)-1\n', "        return len([ol for ol in output_lines if ' R ' in ol])\n"),
    ('C18', 'd2-minus-held', D2, '        return len(output_lines)-1\n', '        return len(output_lines)-1-len(failed_output_lines)\n'),
    ('C18', 'd2-no-check', D2, 'subprocess.run(squeue_command, shell=True, check=True', 'subprocess.run(squeue_command, shell=True, check=False'),
    ('C18', 'd2-if-not-while', D2, 'while(queue_size>(', 'if(queue_size>('),
    ('C18', 'd2-stale', D2, '                queue_size = count_lines_of_command_output()\n                time.sleep(30)', '                time.sleep(30)\n                queue_size = min(queue_size, count_lines_of_command_output()) - 1'),
    ('C19', 'd2-cancel-any', D2, 'len(failed_output_lines)==(len(output_lines)-1) and', 'len(failed_output_lines)>0 and'),
    ('C19', 'd2-cancel-empty', D2, ' and len(output_lines)-1 > 0', ''),
    ('C19', 'd2-cancel-ge', D2, 'len(failed_output_lines)==(len(output_lines)-1) and', 'len(failed_output_lines)>=(len(output_lines)-2) and'),
    ('C19', 'd2-held-pd', D2, '"held" in ol.lower()', '"pd" in ol.lower()'),
    ('C19', 'd2-no-check-sub', D2, 'subprocess.run(command_str, shell=True, check=True', 'subprocess.run(command_str, shell=True, check=False'),
    ('C19', 'd2-points', D2, 'num_points = 20', 'num_points = 19'),
    ('C19', 'd2-wide', D2, 'arg_sets.append((min_min-1, int(n), 0))', 'arg_sets.append((min_min, int(n), 0))'),
    ('C19', 'd2-tight', D2, 'arg_sets.append((int(n)-1, int(n), 0))', 'arg_sets.append((int(n-0.5), int(n), 0))'),
    ('C19', 'd2-adaptive', D2, 'arg_sets = [(0, 0, 1)]', 'arg_sets = []'),
    ('C19', 'd2-uniform', D2, 'random.uniform(min_min+1, max_max)', 'random.uniform(0, max_max)'),
    ('C19', 'd1-lock1', D1, '        assert os.path.isfile("./tmux_lock.txt")\n        print', '        print'),
    ('C19', 'd2-lock1', D2, '        assert os.path.isfile("./tmux_lock.txt")\n        print', '        print'),
    ('C19', 'd1-per', D1, 'NUM_RUNS_PER = 50', 'NUM_RUNS_PER = 49'),
    ('C19', 'd1-skip-last', D1, 'for i, arg_set in enumerate(arg_sets):', 'for i, arg_set in enumerate(arg_sets[:-1]):'),
    ('C19', 'd1-array', D1, '--array=1-{NUM_RUNS_PER}', '--array=0-{NUM_RUNS_PER}'),
    ('C19', 'd2-mult', D2, 'list(arg_sets)*50', 'list(arg_sets)*49'),
    ('C18', 'd2-batch', D2, 'experiments = queue[:50]\n        queue = queue[50:]', 'experiments = queue[:60]\n        queue = queue[60:]'),
    ('C19', 'd2-slice', D2, 'queue = queue[50:]', 'queue = queue[51:]'),
    ('C19', 'd2-sample', D2, 'random.shuffle(queue)', 'queue = random.choices(queue, k=len(queue))'),
    ('C19', 'd3-mult', D3, 'list(arg_sets)*5', 'list(arg_sets)*4'),
    ('C19', 'd3-t', D3, 'np.pi/32.0', 'np.pi/36.0'),
    ('C19', 'd3-nocheck', D3, 'subprocess.run(command_str, shell=True, check=True', 'subprocess.run(command_str, shell=True, check=False'),
    ('C20', 'range-const', STR, "random.uniform(self.bounds[0][0], self.bounds[0][1])", "random.uniform(self.bounds[0][1], self.bounds[0][1])"),
    ('C20', 'range-axis', STR, "random.uniform(self.bounds[1][0], self.bounds[1][1])", "random.uniform(self.bounds[0][0], self.bounds[0][1])"),
    ('C20', 'range-half', STR, "random.uniform(self.bounds[1][0], self.bounds[1][1])", "random.uniform((self.bounds[1][0]+self.bounds[1][1])/2, self.bounds[1][1])"),
    ('C20', 'range-centres', STR, "get_oobb_vertices(oobb) for oobb in self.obstacles])", "[list(oobb[1][0]), list(oobb[1][0])] for oobb in self.obstacles])"),
    ('C21', 'range-nostart', KUKA, "+[[start_oobb[1][0]]]", "+[[list(obstacle_oobbs[0][1][0])]]"),
    ('C21', 'range-tilt', KUKA, "(-self.theta_margin, self.theta_margin))", "(0, self.theta_margin))"),
    ('C21', 'range-z', KUKA, "(min_z, max_z), ", "(min_z, (min_z + max_z)/2), "),
    ('C20', 'resolution', STR, "axis=1))/0.08)+2", "axis=1))/0.3)+2"),
    ('C20', 'resolution-min', STR, "num_steps = int(np.max(np.min(", "num_steps = int(np.min(np.min("),
    ('C20', 'no-endpoint', STR, "np.linspace(0, 1, num_steps)", "np.linspace(0, 1, num_steps, endpoint=False)"),
    ('C20', 'skip-first-obstacle', STR, "itertools.product(self.obstacle_hulls, alphas)", "itertools.product(self.obstacle_hulls[:-1] or self.obstacle_hulls, alphas)"),
    ('C20', 'one-norm-steps', STR, "np.max(np.min(np.abs(robot_start_verts-robot_goal_verts), axis=1))", "np.max(np.min(np.abs(robot_start_verts-robot_goal_verts), axis=1)[:, 0])"),
    ('C20', 'held-shape-robot', STR, "get_aabb_extent(get_aabb(obj))", "get_aabb_extent(get_aabb(rover))"),
    ('C20', 'bound', STR, "while(num_samples<max_samples+1):", "while(num_samples<=max_samples+1):"),
    ('C20', 'bound-low', STR, "while(num_samples<max_samples+1):", "while(num_samples<max_samples):"),
    ('C20', 'factor-twice', STR, "max(num_samples*factor, int(num_samples)+1)", "max(num_samples*factor*factor, int(num_samples)+1)"),
    ('C20', 'no-concat-goal', STR, "path, np.expand_dims(goal, axis=0)], axis=0)", "path], axis=0)"),
    ('C20', 'no-concat-start', STR, "np.concatenate([np.expand_dims(start, axis=0), path", "np.concatenate([path"),
    ('C20', 'interp-skip-end', STR, "        interpolated_vectors.append(end)\n", "        if dist <= threshold: interpolated_vectors.append(end)\n"),
    ('C20', 'break-always', STR, "            if(len(path)>0):\n                break", "            if(len(path)>=0):\n                break"),
    ('C20', 'sat-axes-a-only', TSAT, "np.concatenate([axes_a[:, [i], :], axes_b[:, [i], :]], axis=1)", "axes_b[:, [i], :]"),
    ('C20', 'sat-axes-b-only', TSAT, "np.concatenate([axes_a[:, [i], :], axes_b[:, [i], :]], axis=1)", "axes_a[:, [i], :]"),
    ('C20', 'sat-range', TSAT, "for i in range(polygons_a.shape[1]):", "for i in range(polygons_a.shape[1] - 3):"),
    ('C20', 'sat-any', TSAT, "overlapping.all(axis=1)", "overlapping[:, 0]"),
    ('C20', 'limits-swap', STR, "random.uniform(self.bounds[1][0], self.bounds[1][1])])", "random.uniform(self.bounds[0][0], self.bounds[0][1])])"),
    ('C20', 'adaptive-min', STR, "min_samples = max_samples-1", "min_samples = max_samples+1"),
    ('C20', 'litter-on-failure', STR, "        cleanup.callback(prm.reset)\n", "        if obj is None: cleanup.callback(prm.reset)\n"),
    ('C21', 'resolution', KUKA, "/0.03)", "/0.2)"),
    ('C21', 'resolution-pos', KUKA, "np.max(np.linalg.norm(start-goal, axis=1))/0.03", "np.max(np.linalg.norm(start[:, :3]-goal[:, :3], axis=1))/0.03"),
    ('C21', 'skip-obstacle', KUKA, "for obstacle_oobb in self.obstacle_oobbs:\n            obstacle_stack", "for obstacle_oobb in self.obstacle_oobbs[:-1]:\n            obstacle_stack"),
    ('C21', 'bound', KUKA, "while(num_samples<max_samples+1):", "while(num_samples<max_samples+2):"),
    ('C21', 'break-always', KUKA, "            if(len(path)>0):\n                break", "            if(len(path)>=0):\n                break"),
    ('C21', 'goal-conf', KUKA, "        conf2.assign()\n        grasp.attachment().assign()\n", "        grasp.attachment().assign()\n"),
    ('C21', 'sat-9', KSAT, "for i in range(15):", "for i in range(6):"),
    ('C21', 'sat-12', KSAT, "for i in range(15):", "for i in range(12):"),
    ('C21', 'sat-cols', KSAT, "axes[:, i + 3] = orientations2[:, :, i]", "axes[:, i + 3] = orientations2[:, i, :]"),
    ('C21', 'sat-signs', KSAT, "[1, -1, -1], [1, -1, 1], [1, 1, -1], [1, 1, 1]])", "[1, -1, -1], [1, -1, 1], [1, 1, -1], [-1, 1, 1]])"),
    ('C21', 'half', KSAT, "/2.0, orientation", "/2.2, orientation"),
    ('C21', 'walls', KUKA, "sign * (dims[index] - thickness) / 2.0", "sign * dims[index] / 2.0"),
    ('C21', 'path-order', KUKA, "start_vec.tolist()+path.tolist()+end_vec.tolist()", "start_vec.tolist()+path.tolist()[::-1]+end_vec.tolist()"),
    ('C21', 'path-noend', KUKA, "start_vec.tolist()+path.tolist()+end_vec.tolist()", "start_vec.tolist()+path.tolist()"),
    ('C21', 'theta-margin', KUKA, "        valids = np.ones(start.shape[0]).astype(bool)\n", "        valids = np.ones(start.shape[0]).astype(bool)\n        start = start.copy(); start[:, 3:] = 0\n"),
    ('C21', 'subplan', KUKA, "            raise SubplanFailed\n", ""),
    ('C21', 'prm-reset', KUKA, "        cleanup.callback(prm.reset)\n        start_vec", "        start_vec"),
    ('C21', 'pose-body', KUKA, "            conf = get_ik_fn(robot, body, body_pose, grasp", "            conf = get_ik_fn(robot, body, BodyPose(body, start_oobb.pose) if len(conf_path) == 1 else body_pose, grasp"),
    # ---- C26
    ('C26', 'k-pick-keeps-handempty', KDOM, "(not (AtPose ?o ?p)) (not (HandEmpty)))", "(not (AtPose ?o ?p)))"),
    ('C26', 'k-pick-keeps-pose', KDOM, "(not (AtPose ?o ?p)) (not (HandEmpty)))", "(not (HandEmpty)))"),
    ('C26', 'k-pick-anywhere', KDOM, "(AtPose ?o ?p) (HandEmpty) (AtConf ?q)", "(AtPose ?o ?p) (HandEmpty)"),
    ('C26', 'k-place-anywhere', KDOM, "(AtGrasp ?o ?g) (AtConf ?q)\n", "(AtGrasp ?o ?g)\n"),
    ('C26', 'k-place-keeps-grasp', KDOM, "                 (not (AtGrasp ?o ?g)))", "                 )"),
    ('C26', 'k-free-holding', KDOM, "(AtConf ?q1) (HandEmpty) (CanMove)", "(AtConf ?q1) (CanMove)"),
    ('C26', 'k-insert-empty', KDOM, "(InsertMotion ?q1 ?t ?q2 ?o ?g)\n                       (AtConf ?q1) (AtGrasp ?o ?g) (CanMove)", "(InsertMotion ?q1 ?t ?q2 ?o ?g)\n                       (AtConf ?q1) (CanMove)"),
    ('C26', 'k-clean-any', KDOM, "(Stackable ?o ?r) (Sink ?r)\n                       (On ?o ?r)", "(Stackable ?o ?r) (Sink ?r)"),
    ('C26', 'k-on', KDOM, "(exists (?p) (and (Supported ?o ?p ?r)\n                      (AtPose ?o ?p)))", "(exists (?p) (Supported ?o ?p ?r))"),
    ('C26', 'k-preinsert-holding', KSTR, "(Grasp ?o ?g) (PreInsert ?q2)", "(Grasp ?o ?g)"),
    ('C26', 'k-insert-swap', KSTR, "(PreInsert ?q1) (PostInsert ?q2)", "(PreInsert ?q2) (PostInsert ?q1)"),
    ('C26', 'k-cert-swap', KSTR, ":certified (FreeMotion ?q1 ?t ?q2)\n", ":certified (FreeMotion ?q2 ?t ?q1)\n"),
    ('C26', 'k-fluents-hold', KSTR, "(Grasp ?o ?g) (PreInsert ?q2))\n    :fluents (AtPose)", "(Grasp ?o ?g) (PreInsert ?q2))"),
    ('C26', 'k-fluents-free', KSTR, "    :fluents (AtPose) ; AtGrasp\n", ""),
    ('C26', 'k-free-noassign', KPRIM, "            conf1.assign()\n            obstacles = fixed + assign_fluent_state(fluents)\n            path = plan_joint_motion(\n                robot,\n                conf2.joints,\n                conf2.configuration,\n                obstacles=obstacles,\n                self", "            obstacles = fixed + assign_fluent_state(fluents)\n            path = plan_joint_motion(\n                robot,\n                conf2.joints,\n                conf2.configuration,\n                obstacles=obstacles,\n                self"),
    ('C26', 'k-hold-noassign', KPRIM, "            conf1.assign()\n            obstacles = fixed + assign_fluent_state(fluents)\n            path = plan_joint_motion(\n                robot,\n                conf2.joints,\n                conf2.configuration,\n                obstacles=obstacles,\n                att", "            obstacles = fixed + assign_fluent_state(fluents)\n            path = plan_joint_motion(\n                robot,\n                conf2.joints,\n                conf2.configuration,\n                obstacles=obstacles,\n                att"),
    ('C26', 'k-fluent-noassign', KPRIM, "            obstacles.append(o)\n            p.assign()\n", "            obstacles.append(o)\n"),
    ('C26', 'k-fluent-noobst', KPRIM, "            obstacles.append(o)\n            p.assign()\n", "            p.assign()\n"),
    ('C26', 'k-noattach', KPRIM, "                attachments=[grasp.attachment()],\n", ""),
    ('C26', 'k-path-noattach', KPRIM, "[BodyPath(robot, path, joints=conf2.joints, attachments=[grasp])]", "[BodyPath(robot, path, joints=conf2.joints)]"),
    ('C26', 'k-refine-drops', KPRIM, "            self.joints,\n            self.attachments,\n        )\n\n    def reverse", "            self.joints,\n        )\n\n    def reverse"),
    ('C26', 'k-refine-rev', KPRIM, "[body_path.refine(**kwargs) for body_path in self.body_paths]", "[body_path.refine(**kwargs) for body_path in reversed(self.body_paths)]"),
    ('C26', 'k-iter-noassign', KPRIM, "            for grasp in self.attachments:\n                grasp.assign()\n            yield i", "            yield i"),
    ('C26', 'k-post-omit', KUKA, "['move', 'move_free', 'move_holding', 'move_insert']", "['move', 'move_holding', 'move_insert']"),
    ('C26', 'k-post-noinsert', KUKA, "['move', 'move_free', 'move_holding', 'move_insert']", "['move', 'move_free', 'move_holding']"),
    ('C26', 'k-norestore', KUKA, "            saver.restore()\n", ""),
    ('C26', 'k-cleaned-some', KUKA, "[('Cleaned', body) for body in movable]", "[('Cleaned', body) for body in movable[1:]]"),
    ('C26', 'k-no-goal-conf', KUKA, "            ('AtConf', start_conf),\n    ]+", "    ]+"),
    ('C26', 'k-same-sink', KUKA, "for body, sink in zip(movable, sinks):", "for body, sink in zip(movable, [sinks[0]]*len(movable)):"),
    ('C26', 'k-pre-kin', KUKA, "('Kin', body, preinsert, grasp, preinsert_conf),", "('Kin', body, preinsert, grasp, postinsert_conf),"),
    ('C26', 'k-stream-names', KUKA, "'plan-holding-motion': from_fn(get_holding_motion_gen", "'plan-holding-motion': from_fn(get_free_motion_gen"),
    ('C26', 'k-reverse', KUKA, "command.refine(num_steps=10).execute", "command.reverse().refine(num_steps=10).execute"),
    ('C26', 'k-vis', KUKA, "if (plan is None) or not pbu.has_gui():", "if (plan is None) or pbu.has_gui():"),
    ('C26', 't-hfree', TDOM, "(Target ?o)\n                       (HFree))", "(Target ?o))"),
    ('C26', 't-keeps-hfree', TDOM, "                 (not (HFree))\n", ""),
    ('C26', 't-keeps-pose', TDOM, "                 (not (AtPose ?o ?p))\n", ""),
    ('C26', 't-pick-conf', TDOM, "                       (AtConf ?v ?q1)\n                       (AtPose ?o ?p)", "                       (AtPose ?o ?p)"),
    ('C26', 't-place-conf', TDOM, "                       (AtConf ?v ?q1)\n                       (Holding ?o)", "                       (Holding ?o)"),
    ('C26', 't-place-holding', TDOM, "                       (Holding ?o)\n                       (Target ?o)", "                       (Target ?o)"),
    ('C26', 't-place-kin', TDOM, "                       (Pose ?o ?p)\n                       (Kin ?o ?p ?q2)\n                    )", "                       (Pose ?o ?p)\n                    )"),
    ('C26', 't-pick-kin', TDOM, "                       (Kin ?o ?p ?q2)\n                       (Target ?o)\n                       (HFree)", "                       (Target ?o)\n                       (HFree)"),
    ('C26', 't-motion-swap', TSTR, ":certified (Motion ?v ?q1 ?t ?q2)", ":certified (Motion ?v ?q2 ?t ?q1)"),
    ('C26', 't-hold-swap', TSTR, ":certified (MotionHolding ?v ?q1 ?t ?q2 ?o)", ":certified (MotionHolding ?v ?q2 ?t ?q1 ?o)"),
    ('C26', 't-nodetach', TRUN, "new_commands = [t, Detach(v, arm=BASE_LINK, body=attachments[v])]", "new_commands = [t]"),
    ('C26', 't-attach-first', TRUN, "new_commands = [t, Attach(v, arm=BASE_LINK, grasp=None, body=attachments[v])]", "new_commands = [Attach(v, arm=BASE_LINK, grasp=None, body=attachments[v]), t]"),
    ('C26', 't-detach-first', TRUN, "new_commands = [t, Detach(v, arm=BASE_LINK, body=attachments[v])]", "new_commands = [Detach(v, arm=BASE_LINK, body=attachments[v]), t]"),
    ('C26', 't-goals-first', TRUN, "goal_literals.append(('AtPose', target, target_goal_pose))", "goal_literals = [('AtPose', target, target_goal_pose)]"),
    ('C26', 't-goal-swap', TRUN, '("AtPose", target, target_init_pose)]', '("AtPose", target, target_goal_pose)]'),
    ('C26', 't-ik', STR, "conf.values = pose.pose[0][:2]", "conf.values = np.round(pose.pose[0][:2], 3)"),
    ('C26', 't-joints', STR, "ht = create_trajectory(rover, q2.joints, path)\n        return Output(ht)\n\n    return test if not holding", "ht = create_trajectory(rover, q2.joints[::-1], path)\n        return Output(ht)\n\n    return test if not holding"),
    ('C26', 't-commands', TRUN, "commands += new_commands", "commands = new_commands + commands"),
    ('C27', 'last-edges', PRM, "for i in range(int(len(all_edges) / edge_batches) + 1):", "for i in range(max(1, int(len(all_edges) / edge_batches))):"),
    ('C27', 'last-points', PRM, "for i in range(int(n_verts / node_batches) + 1):", "for i in range(max(1, int(n_verts / node_batches))):"),
    ('C27', 'overlap', PRM, "all_edges[i * edge_batches: (i + 1) * edge_batches]", "all_edges[i * edge_batches: (i + 1) * edge_batches + 1]"),
    ('C27', 'last-leg', PRM, "for i in range(len(_sol) - 1):\n            path_frames", "for i in range(len(_sol) - 2):\n            path_frames"),
    ('C27', 'red-points', PRM, "            for e_art in edge_artists:\n                e_art.set_color('r')\n", ""),
    ('C27', 'red-lines', PRM, "vert_artist.set_color('r')", "pass"),
    ('C27', 'order', PRM, "frames = sampling_frames + edge_frames", "frames = edge_frames + sampling_frames"),
    ('C27', 'no-picture', STR, "ani = animate_knn_prm(prm, path, node_batches=1000, edge_batches=1000, interval=50,", "return None\n                ani = animate_knn_prm(prm, path, node_batches=1000, edge_batches=1000, interval=50,"),
    ('C27', 'second-name', STR, "bitrate=1800)\n            ani.save(os.path.join(save_dir, str(time.time()) + '.gif'), writer=writer)\n\n        if(not", "bitrate=1800)\n            ani.save(os.path.join(save_dir, 'found.gif'), writer=writer)\n\n        if(not"),
    ('C27', 'clip', PRM, "vert_artist.set_offsets(_prm.prm_samples[:_data])", "vert_artist.set_offsets(_prm.prm_samples[_data - node_batches:_data])"),
]
