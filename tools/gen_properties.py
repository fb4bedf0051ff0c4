#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

PRM = "nonasymptotic/prm.py"; ANN = "nonasymptotic/ann.py"; ENV = "nonasymptotic/envs.py"
NAR = "exps/run_narrow_passage_clearance_trial.py"; KNN = "exps/run_knn_radius_trial.py"; LINE = "exps/run_straight_line_optimality_trial.py"
SUB = "exps/submit_and_run_experiment_job.py"; AGG = "exps/aggregate_runtimes_for_tuning.py"; TUNE = "exps/tune_experiment_triples.py"
D1 = "exps/tamp_environment/deploy_tamp_experiments.py"; D2 = "exps/tamp_environment/deploy_tamp_experiments_kuka.py"
D3 = "exps/tamp_environment/deploy_tamp_adaptive_kuka.py"; KUKA = "exps/tamp_environment/kuka_carry/run.py"
STR = "exps/tamp_environment/turtlebot_move/streams.py"; TDIR = "exps/tamp_environment/"
NOTEST = "The only tests that run here exercise motion validity and geometry of two environments; no test builds, grows, shrinks, resets or queries a roadmap."

add("C01", "A roadmap always equals its definition, whatever operations led to it",
    "After any sequence of growths, connection-radius changes, neighbour-count changes, queries and resets, the roadmap of a planner contains exactly the edges its current settings call for: every pair of samples admitted by the current radius / nearest-neighbour limit (a nearest-neighbour pair is admitted when either sample lists the other) and joined by a collision-free motion, each once and weighted with the Euclidean distance, and no other edge. Raising a limit again after lowering it restores what the lowering removed, and the result does not depend on the route by which the settings were reached. Self-loops and pairs exactly at the limit are not constrained.",
    ["histories", "inputs", "fault_sequences"],
    "every operation history of one or several planners, interleaved in any order, over every environment, sample stream and neighbour-search back end",
    NOTEST + " Which edges survive depends on the order of limit changes, on cached copies on disk and on graph-library iteration behaviour, so it needs histories, not single calls.",
    [PRM, ANN],
    [("graph construction from neighbour lists", PRM + ":_nn_edge_list_and_dist_list_to_nk_prm_graph"),
     ("full-pairs radius planner", PRM + ":SimpleFullConnRadiusPRM.grow_to_n_samples/set_connection_radius"),
     ("nearest-neighbour planner with on-disk master graph", PRM + ":SimpleNearestNeighborRadiusPRM.grow_to_n_samples/set_nearest_neighbors/set_connection_radius"),
     ("neighbour-doubling radius planner", PRM + ":SimpleRadiusPRM.grow_to_n_samples"),
     ("neighbour-search adapters", ANN + ":KGraphANN, PyNNDescentANN")],
    [("roadmap", "graph over sample ids", PRM + ":prm_graph"), ("samples", "sample coordinates", PRM + ":prm_samples"), ("master graph cache", "on-disk copy reloaded when a limit is raised", PRM + ":tmp_graph_cache_path")],
    ["prm_graph", "prm_samples", "num_edges", "num_vertices"])

add("C02", "Query answers are valid shortest roadmap paths, and infinite exactly when none",
    "A query returns a sequence of existing samples such that start, the samples in order, and goal are joined by collision-free motions that the planner's current settings admit, and the returned distance is the Euclidean length of that route and minimal among all such routes. The distance is infinite and the path empty exactly when no such route exists. The all-connections query reports, for every admitted entry/exit pair, the roadmap distance between the two samples.",
    ["histories", "inputs"],
    "every start and goal, after every operation history (growth, limit changes, earlier queries, failed or interrupted operations, resets)",
    NOTEST + " Optimality and the exact no-solution condition are claims over every history that shaped the roadmap.",
    [PRM], [("query", PRM + ":SimplePRM.query_best_solution"), ("all-connections query", PRM + ":SimplePRM.query_all_graph_connections, _compute_spsp"), ("neighbourhood of a query point", PRM + ":_query_samples")],
    (), ["query_best_solution", "query_all_graph_connections"])

add("C03", "Queries leave no trace, even when they fail or are interrupted",
    "Querying never changes the planner: the samples, the vertices and edges of the roadmap, its limits and every later answer are the same as if the query had not been made. This holds for queries that succeed, that find no route, that raise because the validity check or the search fails, and that are interrupted part-way. Repeating a query gives the same answer.",
    ["histories", "fault_sequences", "crash_points"],
    "every query at every point of every history, with a failure or interruption at every step inside it",
    NOTEST + " The start and goal are spliced into the shared graph and removed again, so the dangerous states exist only inside a query.",
    [PRM], [("splice start/goal in, remove them afterwards", PRM + ":SimplePRM.query_best_solution")],
    [("roadmap", "temporarily holds start and goal", PRM + ":_g_prm")], ["num_vertices", "num_edges", "prm_graph"])

add("C04", "A failed planner operation raises and leaves the planner as it was",
    "When scratch storage fails while a planner is grown or its limits are changed (disk full, I/O error, scratch file missing or truncated), or the sampler, validity check, neighbour search or distance computation fails or memory runs out at any point of it, the operation raises instead of completing with a wrong roadmap, and the planner keeps the samples, roadmap, limits and answers it had before. Once the fault is gone, retrying works and gives a roadmap that again satisfies its definition.",
    ["fault_sequences", "crash_points", "histories"],
    "every fault kind at every storage call, sample drawn, validity check, neighbour search and graph or distance computation of every operation, at every point of every history",
    "No test injects a fault of any kind; the inconsistent states exist only between the partial updates of one operation.",
    [PRM, ANN], [("write master graph to scratch", PRM + ":grow_to_n_samples -> writeGraph"), ("reload master graph", PRM + ":set_nearest_neighbors/set_connection_radius -> readGraph"), ("neighbour list text file", ANN + ":KGraphANN.new_graph_from_data")],
    [("master graph cache", "file under temp/", PRM + ":tmp_graph_cache_path")], ["raised exceptions", "prm_graph", "prm_samples", "query_best_solution"])

add("C05", "Growing a roadmap keeps every earlier sample and never loses a solution",
    "Growing to n samples leaves exactly n samples of which the first ones are the earlier samples unchanged and in order, and draws exactly the missing number from the environment. Asking for fewer samples than exist is rejected and changes nothing. At a fixed connection radius, a query that had a solution before a growth still has one afterwards, and it is no longer than before.",
    ["histories", "inputs"],
    "every growth schedule, environment, planner kind and interleaving with queries, limit changes and rejected requests",
    "The one test of this (tests/test_exps.py) cannot run here and samples twenty seeds of one schedule; monotonicity is a claim over all schedules and histories.",
    [PRM, NAR], [("growth", PRM + ":grow_to_n_samples of each planner"), ("growth loop of the clearance experiment", NAR + ":narrow_passage_clearance")],
    [("samples", "sample array, append-only", PRM + ":_samples")], ["prm_samples", "query_best_solution"])

add("C06", "Equal seeds give equal results, isolated from every other planner and clock",
    "With equal seeds, parameters and operations, environments and planners yield identical samples, roadmaps and answers, and different seeds give different sample streams. Nothing else that happens changes them: not other environments or planners in the same program interleaved in any order, nor other processes, use of the global random generators, the clock, or operating-system entropy.",
    ["schedules", "histories", "inputs"],
    "every interleaving of several planners and environments, in one process or several, and every state of the ambient randomness and clocks",
    "Tests build one environment at a time; leaking shared state only shows when several are interleaved.",
    [ENV, PRM, ANN], [("per-environment generator", ENV + ":Environment.__init__"), ("samplers", ENV + ":StraightLine/NarrowPassage/GrayCodeWalls.sample_from_env"), ("fixed neighbour-search seed", ANN + ":PyNNDescentANN.new_graph_from_data")],
    (), ["sample_from_env", "prm_samples", "prm_graph"])

add("C07", "Every sample an environment draws lies in its free space",
    "Whatever values the random source yields, including the extreme values it may legally return, each environment's sampler returns a point of the right dimension inside the environment's free space. Each part of the free space is drawn in proportion to its volume, and the random point drawn inside a polygon lies inside it and outside its holes.",
    ["inputs", "fault_sequences"],
    "every random stream (ordinary seeds and scripted extreme draws), every environment, dimension and size parameter, and every polygon",
    "The existing tests draw a fixed number of ordinary samples from one environment; boundary draws have probability zero in them.",
    [ENV, "nonasymptotic/sampler.py"], [("samplers", ENV + ":sample_from_env"), ("polygon sampler", "nonasymptotic/sampler.py:random_point_in_mpolygon")],
    (), ["sample_from_env", "random_point_in_mpolygon"])

add("C08", "Scratch files are private to one planner and removed by its reset",
    "Two live planners, in the same or different processes sharing one scratch directory, never read, overwrite or delete each other's scratch files, and resetting one leaves every other one fully working. After a planner is reset, none of its scratch files remains, a reset planner can be reused, and resetting twice or with the file already gone is harmless. Nothing outside the scratch directory is ever written.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of operations of several planners and processes (equal process ids and clocks included) over one shared scratch directory",
    "No test runs two planners at once or looks at the scratch directory.",
    [PRM, ANN, "temp/.gitignore"], [("unique cache file per planner", PRM + ":__init__ (uuid4)"), ("removal", PRM + ":reset"), ("unique neighbour-list file", ANN + ":KGraphANN.__init__")],
    [("scratch directory", "temp/ beside the package", PRM + ":temp_dir")], ["temp/"])

add("C09", "A saved roadmap reloads as exactly the roadmap that was saved",
    "Saving a roadmap writes a graph and a sample file that, read back, have the same samples, vertices, edges and weights as the roadmap at that moment, after any history and whatever queries ran before, and saving does not change the planner. Saving a planner that has no roadmap, or onto failing storage, raises.",
    ["histories", "fault_sequences"],
    "every history before the save and every storage fault during it",
    "No test saves a roadmap.",
    [PRM], [("save", PRM + ":SimplePRM.save")], (), ["saved .nkb and .npy files"])

add("C10", "A campaign runs every configured trial exactly once across its tasks",
    "For any number of parallel tasks, when all of an experiment's tasks have run to completion - however often some were stopped and resumed on the way - the result files together hold exactly one record set for every configured combination and trial, none missing and none duplicated, whichever of the shipped configurations' forms is used. Each task's file holds only that task's share of the combinations, and every record set is complete, with the parameters of its combination.",
    ["configurations", "crash_points", "schedules", "histories"],
    "every configuration, number of tasks, interleaving of the tasks and sequence of stops and resumes",
    "The runner scripts are not executed by any test; their resume logic only matters after a stop at an arbitrary point.",
    [NAR, KNN, LINE], [("task partition", NAR + ":tasks = exp_combos[task_id::num_tasks] (all three runners)"), ("skip completed trials on resume", NAR + ":n_seeds; " + KNN + ", " + LINE + ":tasks[...:]")],
    [("outN.csv", "per-task checkpoint and result", NAR + ":df_save_path")], ["out<N>.csv"])

add("C11", "A task's result file is at every instant a complete table of finished trials",
    "At any moment, and after the process is killed, the machine crashes, or the disk fills up or fails at any point, a task's result file is either absent or a complete, readable table of whole finished trials, a prefix of the task's share in order. A finished trial is in the file before the next one begins. A trial that was once checkpointed and made durable is never lost, and a failure to write the checkpoint is not silently ignored.",
    ["crash_points", "fault_sequences"],
    "every kill, crash and storage fault at every file operation (including in the middle of a write) of every runner",
    "No test runs a runner, let alone stops it in the middle of rewriting its checkpoint.",
    [NAR, KNN, LINE], [("checkpoint after each trial", NAR + ":to_csv (all three runners)")],
    [("outN.csv", "checkpoint", NAR + ":df_save_path")], ["out<N>.csv on the simulated disk after each file operation and crash"])

add("C12", "A resumed campaign gives exactly the results of an uninterrupted one",
    "Stopping and resuming a task at any point leads to the same final table, timing columns aside, as running it without interruption. In particular all trials of a job use distinct random seeds, every trial's result is the one its seed determines, and resuming a finished task changes nothing.",
    ["crash_points", "histories"],
    "every stop point, number of resumes and configuration",
    "No test resumes a task; seed reuse after a resume is invisible in a single run.",
    [NAR, KNN, LINE], [("per-task generator of trial seeds", NAR + ":rng = default_rng(seed=task_id) (all three runners)"), ("seeding the environment of a trial", KNN + ":StraightLine(dim, delta_clear, rng_seed)")],
    [("seed column", "seed of each trial", NAR + ":result_record")], ["out<N>.csv"])

add("C13", "Tasks running side by side never disturb each other",
    "Tasks of a campaign, and different campaigns, running at the same time on shared storage in any interleaving produce exactly the results each would produce alone. When they are done, nothing is left in the result directories but their own result files and what the launcher put there, and no scratch files remain.",
    ["schedules", "configurations"],
    "every interleaving of the file operations of several tasks and campaigns sharing the result and scratch directories",
    "No test runs two tasks at once.",
    [NAR, KNN, LINE, PRM, ANN], [("one result file per task", NAR + ":out%i.csv"), ("scratch cleanup", NAR + ":prm.reset()")], (), ["results/", "temp/"])

add("C14", "Clearance trials report a genuine threshold for every sample count",
    "For every sample count in its schedule a clearance trial reports one complete record, also when no sample pair can be connected. A reported succeeding setting is one at which the roadmap of that trial joins the two query ends, with the path length and point count a shortest route at that or a smaller succeeding setting has; a reported failing setting, other than the smallest candidate, is one at which no route exists, and it is smaller than the succeeding one with no setting left untried between them. When no route exists at any setting the record says so, claims no success and gives the largest setting as failing. The recorded durations are those that building and searching took.",
    ["inputs", "histories", "configurations"],
    "every clearance, dimension, sample schedule, connection limit of at least four neighbours, planner kind and random stream",
    "tests/test_exps.py checks one consequence for one configuration and cannot run here; the bracket depends on a long sequence of shrink/regrow operations on a shared roadmap.",
    [NAR, PRM], [("binary search over settings", NAR + ":narrow_passage_clearance")],
    [("result record", "one row per sample count", NAR + ":result_record")], ["narrow_passage_clearance return value", "out<N>.csv"])

add("C15", "Launching gives each experiment its own complete directory and one job",
    "A launch that reports success has created a fresh directory for the experiment holding the configuration it was given plus its name and resource triple, and a job script that runs the requested kind of experiment on exactly that directory, and has submitted that script exactly once with exactly that triple. A launch never alters an existing experiment's directory, and when the configuration is missing or unusable, the directory exists already or storage fails, nothing is submitted and the launch does not report success. The tuning driver launches one such experiment per admissible resource setting, under a name that ends with the setting.",
    ["inputs", "schedules", "fault_sequences", "crash_points"],
    "every argument combination (experiment names without characters special to the shell), concurrent launches within one clock second, existing directory contents, clock steps and storage faults or kills at any point",
    "No test runs the launcher.",
    [SUB, TUNE], [("directory named by name and second", SUB + ":os.mkdir"), ("config copy", SUB + ":json.dump"), ("job script", SUB + ":submit_sh_script_prototype_text"), ("submission", SUB + ":subprocess.run LLsub")],
    [("results/<name>_<time>", "experiment directory", SUB + ":save_path")], ["results/", "LLsub invocations", "exit status"])

add("C16", "Resuming submits the latest complete experiment of exactly that name",
    "Resuming an experiment name submits the unchanged job script of the most recently launched complete experiment of exactly that name, with the resource triple it was launched with, and creates or changes nothing else. Experiments whose names merely share a prefix, directories left incomplete by a stopped launch, and progress made since by older experiments never change which one is chosen; if there is none, it reports failure and submits nothing.",
    ["histories", "crash_points", "inputs"],
    "every history of launches (completed or stopped anywhere), names and later activity in the directories (most recent meaning the timestamp in the directory name)",
    "No test runs the launcher; the choice depends on what all earlier launches and jobs left on disk.",
    [SUB], [("choice of the latest directory", SUB + ":glob + sort by mtime")],
    [("results/", "all experiments ever launched", SUB + ":dirs_with_exp_name")], ["LLsub invocations", "exit status", "results/"])

add("C17", "Aggregation conserves every result row exactly once and is repeatable",
    "Aggregating an experiment writes a table containing every row of every task's result file of the latest experiment whose name starts with the given prefix, exactly once, unchanged, and no other row, whatever order the directory lists files in. Doing it again, under the same or another output name, gives the same rows; the task files are never modified. The means and standard deviations of the building (and, where recorded, checking) times it prints are those of all rows but the first of each task's file.",
    ["histories", "inputs", "schedules"],
    "every set of task files, output name, repetition and directory listing order",
    "No test runs the aggregation; repeated aggregation and unusual output names never occur in tests.",
    [AGG], [("collect task files", AGG + ":glob out*.csv"), ("concatenate and write", AGG + ":pd.concat / to_csv")], (), ["<name>_agg_out.csv"])

add("C18", "Planner campaigns never push the cluster queue past its limit",
    "At no instant do the throttled deployers bring the number of queued and running jobs of the user above one hundred, given that nobody else submits for the user. This holds whatever delays of up to two minutes, failures and compact listings the scheduler's queue display shows: when the queue length is unknown, nothing is submitted.",
    ["schedules", "fault_sequences", "histories"],
    "every job duration, queue display delay, display failure and rejection of the scheduler over the whole deployment",
    "No test runs a deployer; a wrong estimate only matters against a live queue.",
    [D1, D2], [("queue length estimate", D1 + ":count_lines_of_command_output"), ("throttle loop", D1 + ":while queue_size > ...")],
    [("queue size", "estimate of jobs queued or running", D1 + ":queue_size")], ["sbatch/squeue calls and the simulated queue"])

add("C19", "Deployment submits every argument set once, makes progress, and can be stopped",
    "Each argument set of a deployment is submitted exactly as often as planned with its own arguments, as long as nothing fails; a rejected submission stops the deployment with an error instead of being skipped. Once the queue drains the deployment always proceeds to the end in bounded time; removing the stop file prevents every further batch. Jobs are cancelled only when the queue is non-empty and every job in it is held.",
    ["schedules", "fault_sequences", "histories"],
    "every queue evolution, scheduler failure and stop request at any time during a deployment",
    "No test runs a deployer.",
    [D1, D2, D3], [("deployment loop", D1 + ":__main__"), ("shuffled queue in batches", D2 + ":__main__"), ("unthrottled sweep", D3 + ":__main__"), ("cancellation of held jobs", D1 + ":count_lines_of_command_output"), ("stop file", D1 + ":tmux_lock.txt")],
    (), ["sbatch/scancel calls", "exit status"])

add("C20", "The robot's anytime motion planner is sound, bounded and self-contained",
    "For collision-free start and goal the motion planner returns either a trajectory that begins at the start, ends at the goal and whose every step is collision-free up to the checker's resolution and no longer than the interpolation spacing, or nothing. Its samples range over the whole box its obstacles span and never leave it. It never grows its roadmap past the requested maximum number of samples, always ends after finitely many growths also when no sample is reachable, returns nothing only after the largest growth of its schedule found no route, and leaves no scratch files behind.",
    ["inputs", "histories", "fault_sequences"],
    "every obstacle layout, robot size, start, goal, sample budget, growth factor and random stream",
    "No test runs the robot experiments; pybullet is not even installed.",
    [STR, PRM], [("growth loop", STR + ":get_anytime_motion_fn"), ("motion checker", STR + ":BagOfBoundingBoxes.is_motion_valid"), ("interpolation", STR + ":interpolate_vectors")], (), ["value returned by the stream", "sizes the roadmap is grown to", "temp/"])

add("C21", "The insertion planner is sound, bounded and self-contained",
    "For collision-free start and goal poses of the carried body the insertion planner either returns a command whose configurations lead from the start to the goal, each of them collision-free and each motion between them collision-free up to the checker's resolution, or reports a failed subplan. It grows its roadmap step by step up to at most the requested number of samples, fails only after the largest growth of its schedule found no route or when the arm cannot take a pose of the route, always ends, and leaves no scratch files behind. Its samples range over the whole box that the walls and the start span, turned about each axis up to the tilt margin either way, and never leave it. The walls of its containers lie on their faces.",
    ["inputs", "histories", "fault_sequences"],
    "every container, body size, pose pair, tilt margin, sample budget, growth factor and random stream",
    "No test runs the robot experiments; pybullet is not even installed.",
    [KUKA, PRM], [("growth loop", KUKA + ":get_insert_motion_gen"), ("motion checker", KUKA + ":BagOfBoundingBoxes.is_motion_valid"), ("oriented boxes", "exps/tamp_environment/kuka_carry/separating_axis.py:separating_axis_theorem"), ("containers", KUKA + ":create_hollow_shapes")], (), ["command returned by the stream", "sizes the roadmap is grown to", "temp/"])

add("C22", "Every array element plans its own deployed trial, exactly once per start",
    "Each time the scheduler starts an element of a deployed robot experiment, exactly one planning run of the deployed experiment starts (the turtlebot or the arm program), with the element's own index as its seed and with the sample limits, or the adaptive sample count, or the clearance, collision buffer and tilt margin of its submission; planning really uses these (first and last roadmap size, container width, tilt range) and records them in its log. It runs with four threads. Elements that start at the same moment, or the same element started twice, never share a directory; the directory names the element's index and the time of its start. Elements of one deployment with different indexes solve different problems.",
    ["schedules", "histories", "inputs"],
    "every submission, element, start order and starting time, including equal ones, of the three deployments",
    "No test runs a deployer, a job script or a planning program; elements only meet on a real cluster.",
    [D1, D2, D3, TDIR + "deploy_experiments.sh", TDIR + "deploy_experiments_kuka.sh", TDIR + "deploy_experiments_kuka_adaptive.sh", TDIR + "turtlebot_move/run.py", KUKA],
    [("job scripts", TDIR + "deploy_experiments.sh"), ("argument handling", TDIR + "turtlebot_move/run.py:main"), ("argument handling of the arm", KUKA + ":main"), ("containers", KUKA + ":load_world")],
    (), ["planning processes started", "their logs and directories", "sizes the roadmap is grown to"])

add("C23", "A robot planning run keeps to itself, tells the truth and is repeatable",
    "However many planning runs share a save directory, at whatever moments they start, each has a directory, log and task-planner directory of its own below it. Its log records its arguments, clearance and sample limits as used, whether a plan was found, and the time planning took. The problem it poses is the one asked for: the hallway wider than the widest object by exactly the clearance, rooms closed, the requested number of targets placed on free floor in their rooms without overlap; one container per object, wider than the widest object by the clearance, no object initially in collision. Roadmaps start at the smallest requested size, grow by the requested factor and never exceed the largest. Runs of one program with equal arguments and seed pose the same problem and end alike whenever and beside whatever they run; other seeds give other problems.",
    ["schedules", "inputs", "fault_sequences"],
    "every argument, seed, starting time, neighbour run and disk fault",
    "No test runs the robot experiments; collisions of names need runs that start together.",
    [TDIR + "turtlebot_move/run.py", TDIR + "turtlebot_move/problems.py", STR, KUKA],
    [("directory of the run", TDIR + "turtlebot_move/run.py:make_save_dir"), ("log", TDIR + "turtlebot_move/run.py:setup_logging"), ("hallway problem", TDIR + "turtlebot_move/problems.py:hallway_manip"), ("arm problem", KUKA + ":load_world")],
    (), ["<save dir>/<time>/", "log file", "the planning problem handed to the task planner"])

add("C24", "Result plots count every completed planning run exactly once",
    "However many planning runs of either program left their records under the runs directory - started together (with equally named logs), in nested directories, beside runs that were killed or are still going on - the success plot shows, for every combination of smallest size, largest size and adaptive choice, the mean and standard error of success and of planning time over exactly the completed runs of that combination, each once, and no other group; the bound plot shows exactly one point per run that found a route: its clearance and the number of samples of its last successful roadmap. The scatter notebooks show one point (mean time, mean success, standard errors) per combination, in the series of its kind of planner, for trees laid out by the job scripts. None of them dies on records of runs that were stopped or found nothing, nor on an empty tree.",
    ["histories", "schedules", "crash_points"],
    "every set of runs, starting times, directories, outcomes and moments of plotting, any of the runs killed anywhere or unfinished",
    "No test runs the plots or produces run records; equal log names need runs that start together.",
    [TDIR + "turtlebot_move/time_success_plot.py", TDIR + "turtlebot_move/bound_plot.py", TDIR + "turtlebot_move/time_success_scatter.ipynb", TDIR + "kuka_carry/time_success_scatter.ipynb", TDIR + "kuka_carry/time_success_scatter_adaptive.ipynb", TDIR + "turtlebot_move/run.py", KUKA, STR],
    [("success statistics", TDIR + "turtlebot_move/time_success_plot.py"), ("bound scatter", TDIR + "turtlebot_move/bound_plot.py")],
    (), ["the drawn figures", "run logs"])

add("C25", "kNN trials record the effective radii of their own samples",
    "For every sample count of its schedule and every configured neighbour count below it, a trial of the kNN-radius experiment records exactly one row, in that order. Its effective radius is the smallest distance from any of the samples drawn for that sample count to its nn-th nearest other sample (as the kgraph library finds it); the samples are as many and of the dimension the row says and are drawn in the environment of the recorded clearance, seeded with the recorded seed. The recorded durations are not longer than the trial took. This holds whatever ran before in the task, beside it, and whether the task was stopped and resumed.",
    ["inputs", "histories", "schedules"],
    "every configuration, seed stream, interleaving of tasks and point at which a task is stopped",
    "No test runs the experiment; a table that is complete and well-formed says nothing about the numbers in it.",
    [KNN, ANN, ENV], [("effective radius", KNN + ":knn_radius_trial"), ("neighbour distances", ANN + ":KGraphANN.new_graph_from_data")],
    [("record", "one row per pair", KNN + ":record")], ["out<N>.csv"])

add("C26", "Executing a found plan puts every object where it belongs",
    "Whenever a robot run's task planner finds a plan, following it step by step puts every object of the task where the task wants it. The task the run poses names all its objects in the goal and can be solved whenever no motion planner fails. Every motion of the plan begins and ends at the configurations its action names, carries exactly the object then held, with the grasp it was picked with (from straight above, at the middle of its top), and was planned around the fixed bodies and the objects standing where they then stand; an object enters a container only along a motion of the insertion planner. When the run carries the plan out, the world begins as posed; only the arm (or robot) and the object it holds move; they pass every configuration of the plan, in order; in the end every object of the goal is inside a container of its own, or at its goal pose, and the arm is at its start. Nothing is executed unless a plan was found.",
    ["histories", "inputs", "fault_sequences"],
    "every problem, seed, plan, order of answers, and every set of motions that fail or are planned again",
    "No test plans or executes anything with the robots; the planner, its domain files, the streams and the execution only meet in a full run.",
    [TDIR + "turtlebot_move/run.py", TDIR + "turtlebot_move/domain.pddl", TDIR + "turtlebot_move/stream.pddl", STR, KUKA, TDIR + "kuka_carry/kuka_primitives.py", TDIR + "kuka_carry/domain.pddl", TDIR + "kuka_carry/stream.pddl"],
    [("task of the arm", KUKA + ":pddlstream_from_problem"), ("task of the robot", TDIR + "turtlebot_move/run.py:pddlstream_from_problem"), ("motions", TDIR + "kuka_carry/kuka_primitives.py"), ("plan to commands", KUKA + ":postprocess_plan"), ("plan to commands of the robot", TDIR + "turtlebot_move/run.py:post_process")],
    (), ["plan handed back", "bodies and joints at every step of the execution"])

add("C27", "The animation of a search shows its roadmap and its route",
    "A planning call with animation on leaves exactly one animation of its own in the run's folder, also when it finds nothing, and none is overwritten by a later one. The animation first shows the samples, then the connections, and nothing disappears from it: it ends with every sample of the final roadmap, every connection exactly once and, after those, the legs of the route returned, in order from start to goal; if no route was found it ends with the whole roadmap in red and no route.",
    ["inputs", "histories", "fault_sequences"],
    "every layout, sample budget, batch size and outcome of the search",
    "No test draws anything; dropped batches look plausible on screen.",
    [PRM, STR], [("animation", PRM + ":animate_knn_prm"), ("animated planning", STR + ":get_anytime_motion_fn")], (), ["frames of the saved animation", "files in the run's folder"])

# ---- stated, but outside what this technique can decide -------------------------------------------------
add("C90", "The sample-count bound is correct and monotone",
    "The numerical bound on the number of samples is at least what the theory requires for the given clearance, tolerance, dimension and success probability, shrinks as the clearance, tolerance or failure probability grow, and its inverse functions agree with it.",
    ["inputs"], "every clearance, tolerance, dimension, probability and stopping criterion",
    "Tests of it cannot run here (no scipy) and cover single values.",
    ["nonasymptotic/bound.py"], [("bound", "nonasymptotic/bound.py:compute_numerical_bound")])
add("C91", "Motion validity agrees with exact geometry",
    "A motion is reported valid exactly when the straight segment stays in the environment's closed free space, the same in both directions, and batch checks agree with single checks.",
    ["inputs"], "every pair of points in every environment",
    "The 35 tests sample a few dozen hand-picked motions.",
    [ENV, "nonasymptotic/util.py"], [("segment intersection", "nonasymptotic/util.py:detect_intersect"), ("checks", ENV + ":is_motion_valid")])
add("C92", "The certified completeness check never accepts an incomplete roadmap",
    "When the straight-line environment certifies a roadmap as complete within a tolerance, every admissible pair of query points on the line can be solved within that tolerance.",
    ["inputs", "histories"], "every roadmap, tolerance and time budget",
    "No test runs it.",
    [ENV], [("covering check", ENV + ":StraightLine.is_prm_epsilon_delta_complete")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
