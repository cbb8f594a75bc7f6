"""What each check explores: read by run.py without importing the code under test."""
_FILES = ("file system: every open/read/write/rename/mkdir/list of the simulated tree is a "
          "scheduling and fault point over a private scratch directory")
_SCHED = "process and thread scheduler (one task runs at a time, chosen by the seed)"
_ASSUME = ["a rename within one directory is atomic and a completed write is durable "
           "(power loss that reorders completed operations is not modelled)",
           "numpy and the Python standard library are correct"]

META = {
    "C03": {
        "runs": {"quick": 4000, "thorough": 100000},
        "rule": "a run draws the number and sizes of result files, their bead and temperature "
                "labels, incomplete and neighbouring files, the requested sample count, the "
                "directory order, concurrent writers (with crashes), a job that runs again and "
                "replaces its file, earlier use of the object, and read faults; it is "
                "non-trivial when more than one file is collated or a writer runs alongside",
        "assumptions": _ASSUME,
        "real": ["BoxResult/BoxResultPM load_results, load_multiple_results and save_results",
                 "postprocessing.load_pimc_data", "FileStructure", "numpy npz reader and writer"],
        "stub": [_FILES, _SCHED],
    },
}

META["C01"] = {
    "runs": {"quick": 1500, "thorough": 40000},
    "rule": "a run draws a cluster, one or two users, up to three requests each (sample counts, "
            "block sizes, job limits, temperatures, beads, sampling models, repeated submissions) "
            "and scheduler faults (rejected submissions, lost replies, failing process creation); "
            "it is non-trivial when more than one job was accepted",
    "assumptions": ["sbatch reports a failure by a non-zero exit status"],
    "real": ["PimcSubmissionClass and every prepare_job_* function", "BoxData serialisation and "
             "deserialisation", "FileStructure", "the batch scripts (existence only)"],
    "stub": ["SLURM commands (sbatch, scontrol, sinfo): a simulated scheduler with an option "
             "parser", _FILES, _SCHED],
}

META["C02"] = {
    "runs": {"quick": 600, "thorough": 20000},
    "rule": "a run submits one to a dozen jobs through the real client, starts them at drawn times "
            "and lets some meet a crash of the program or the node at a drawn operation, a "
            "cancellation, disk errors, a move across file systems and a requeue under the same "
            "id; it is non-trivial when more than one job ran",
    "assumptions": _ASSUME + ["mv between file systems copies then unlinks; within one it renames"],
    "real": ["PimcSubmissionClass", "both pimc_job.sh batch scripts under a real bash",
             "server/*/pimc.py", "the sampling engine", "FileStructure", "save_results"],
    "stub": ["SLURM", "external commands of the batch script (mkdir, mv, ls, sleep, ssh, sacct)",
             _FILES, _SCHED],
}

META["C09"] = {
    "runs": {"quick": 700, "thorough": 25000},
    "rule": "a run draws up to five (beads, temperature) combinations with one to three result "
            "files each, one to three analyses (basic or alpha estimators, with or without "
            "jackknife, one after the other or at once, twelve workers each), a result published "
            "meanwhile, a crash of one analysis and read/write faults; it is non-trivial when "
            "there is more than one combination, analysis or a late result",
    "assumptions": _ASSUME + ["a pool worker dies only together with its parent"],
    "real": ["statistical_analysis_of_pimc, jackknife_analysis_of_pimc and every estimator",
             "BoxResultPM collation", "load_analytic_data", "FileStructure"],
    "stub": ["multiprocessing.Pool: the workers are simulated processes with forked module "
             "state, arguments and results cross by pickle", _FILES, _SCHED],
}

META["C04"] = {
    "runs": {"quick": 1200, "thorough": 40000},
    "rule": "half of the runs put result files of three versions of the models, some without a "
            "stamp, next to each other in two sampling directories and analyse them (a long-lived "
            "FileStructure, stale analytic data, models and analytic data replaced meanwhile); the "
            "other half run a sampling job while its model files are replaced at drawn operations "
            "and compare its samples with the same job run alone on the stamped models; every run "
            "is non-trivial",
    "assumptions": _ASSUME + ["a model file is replaced at most once during a job (a change that "
                              "is undone again before the job looks is not modelled)"],
    "real": ["server/*/pimc.py, BoxDataPM and the sampling engine", "hash creation and pruning",
             "statistical and jackknife analysis", "load_analytic_data", "FileStructure"],
    "stub": ["multiprocessing.Pool", _FILES, _SCHED],
}

META["C10"] = {
    "runs": {"quick": 800, "thorough": 30000},
    "rule": "a run draws one or two processes with one to three calculations each (surfaces, "
            "oscillators of the sampling model, modes, beads, temperature, blocks, quadratic "
            "terms, models far apart, high vertical energies, stiff modes), prepares and computes "
            "them in a drawn order, records every random number "
            "the engine draws and evaluates every sample again from them; it is non-trivial when "
            "more than one sample was compared",
    "assumptions": ["numpy's random number generators produce the distribution they are asked for",
                    "a sample is compared through g/rho and g+-/rho (the common scaling of a "
                    "sample cancels in every use)"],
    "real": ["BoxData, BoxDataPM, ModelVibronic(PM), ModelSampling, block_compute and "
             "block_compute_pm", "save_results", "model files and hashes"],
    "stub": ["random numbers: seeded and recorded", _FILES, _SCHED],
}

META["C11"] = {
    "runs": {"quick": 1500, "thorough": 60000},
    "rule": "a run draws one to three users with up to six operations each (create, create "
            "without directories, switch the sampling model, hash, add a sampling model) on two "
            "shared data sets, files already present, half-made directories, crashes and failing "
            "mkdir, then repeats the plans without faults; it is non-trivial with more than one "
            "user or operation",
    "assumptions": ["nobody deletes the directories meanwhile"],
    "real": ["FileStructure", "model hashing"],
    "stub": [_FILES, _SCHED],
}

META["C05"] = {
    "runs": {"quick": 2200, "thorough": 60000},
    "rule": "a run draws one of: concurrent saves and loads of a (diagonal) model with couplings "
            "up to fourth order, derivation of the harmonic and sampling models, replacement of "
            "the coupled model by a transform of it, storing of result files; with a crash at a "
            "drawn operation or failing, torn and short reads and writes; every file is read by "
            "an observer after every operation of every process; it is non-trivial when more "
            "than one process or a fault takes part",
    "assumptions": _ASSUME,
    "real": ["save_model_to_JSON, load_model_from_JSON and their diagonal versions", "hashes",
             "create_harmonic_model, create_basic_diagonal_model, create_fake_coupled_model",
             "BoxResult(PM).save_results and load_results"],
    "stub": [_FILES, _SCHED],
}

META["C06"] = {
    "runs": {"quick": 1200, "thorough": 40000},
    "rule": "a run draws one to four users with one to three calculations each (analytic of the "
            "sampling or original model, sum over states, Trotter; several temperatures, basis "
            "sizes and links; through the functions or main()), what earlier sessions left in the "
            "files (current, stale, unstamped, empty), failing, killed and half-finished Julia "
            "scripts, crashes, disk errors and model files replaced meanwhile; every file is read "
            "after every operation; it is non-trivial with more than one user or a model edit",
    "assumptions": _ASSUME + ["a model file is replaced at most once during a run",
                              "the lock file is honoured on the file system in use"],
    "real": ["julia_wrapper (command construction, output parsing, validation, merging)",
             "FileStructure and model hashes"],
    "stub": ["the Julia scripts: a stand-in whose answer is a function of the model text and the "
             "arguments", _FILES, _SCHED],
}

META["C08"] = {
    "runs": {"quick": 1500, "thorough": 60000},
    "rule": "a run draws one to three clients that submit and wait for one to three jobs each; a "
            "job queues, runs, may be requeued, completes or fails in one of five ways, lingers in "
            "COMPLETING, and its signals are early, late, lost or repeated; names and directories "
            "contain state names; clients pause before waiting so that records are purged; every "
            "run is non-trivial",
    "assumptions": ["accounting (sacct) is as current as the controller (scontrol)",
                    "scontrol forgets a job 300 s after its end",
                    "waiting longer than 90 simulated seconds past the end of a job counts as "
                    "stuck (the code polls every 5 to 10 s)"],
    "real": ["job_boss.submit_job, extract_id_job_from_output, SIGUSR1_handle, "
             "synchronize_with_job, check_running_state, check_acct_state",
             "electronic_structure.wait_on_results"],
    "stub": ["SLURM", "signals and clocks: simulated", _SCHED],
}

META["C07"] = {
    "runs": {"quick": 700, "thorough": 30000},
    "rule": "a run draws one to three molecules (coordinates of two kinds, parameters, number of "
            "states wanted, states that pass the verification) and several rounds of processes in "
            "which their workflows run one after the other or at once; jobs queue, run, fail in "
            "five ways or end normally with a failed program in six ways, processes crash at a "
            "drawn operation or meet disk errors and rejected submissions; a last round without "
            "faults has to finish; it is non-trivial when there is more than one workflow",
    "assumptions": ["the user waits for or cancels the jobs of a crashed workflow before starting "
                    "it again", "the batch script of the cluster removes the old output of its "
                    "own step, prints Finished at its end and passes on the signals of the "
                    "program", "the output formats of ACES2 are those the parsers describe"],
    "real": ["electronic_structure.VibronExecutionClass, ZmatClass and every step and parser",
             "job_boss submission, waiting and signal handling"],
    "stub": ["SLURM and the submit_template script", "ACES2 and vibron: outputs derived from "
             "the input file they find", "the user's answers", _FILES, _SCHED],
}

META["C15"] = {
    "runs": {"quick": 900, "thorough": 40000},
    "rule": "a run draws one to three data sets with up to two jobs each (surfaces, modes, beads, "
            "temperature, blocks, models from a file structure or a parameter string), one or two "
            "processes that generate them one by one or prepared together, repeated generation "
            "under the same id, rho of the stored coordinates for the same or another sampling "
            "model, a crash or disk errors in one process, and generation again after it; it is "
            "non-trivial with more than one job or an interruption",
    "assumptions": _ASSUME + ["two processes do not generate the same job at the same time"],
    "real": ["block_compute_gR_from_raw_samples, save_gR_with_samples and "
             "block_compute_rhoR_from_input_samples", "BoxData", "BoxResult", "FileStructure"],
    "stub": [_FILES, _SCHED],
}

META["C12"] = {
    "runs": {"quick": 1000, "thorough": 40000},
    "rule": "a run draws one to three data sets and one to four operator files with couplings of "
            "every order (complete, cut at any character, empty, missing, or being copied in "
            "meanwhile), one to three processes that create models and their diagonal models from "
            "them in turn, a crash or disk errors in one of them, and the creation again without "
            "faults; it is non-trivial with more than one file",
    "assumptions": _ASSUME + ["the sections of an operator file are in the order the vibron "
                              "program writes them, surfaces a <= b, off-diagonal modes i > j"],
    "real": ["read_model_op_file and create_coupling_from_op_file", "create_harmonic_model, "
             "create_basic_diagonal_model", "model files", "FileStructure"],
    "stub": [_FILES, _SCHED, "memory mapped reading is real (one step)"],
}

META["C16"] = {
    "runs": {"quick": 1000, "thorough": 30000},
    "rule": "a run draws a campaign: requests for samples by several users, batch jobs through the "
            "real scripts (crashes of program or node, cancellations, disk errors), analyses while "
            "they run (basic or alpha estimators, with or without jackknife, some crash), models "
            "replaced meanwhile; then the missing samples are asked for again without faults and "
            "analysed; it is non-trivial when more than one result was delivered",
    "assumptions": _ASSUME + ["the analytic results of the sampling model are provided with the "
                              "hashes of the current models"],
    "real": ["PimcSubmissionClass", "both pimc_job.sh under a real bash", "server/*/pimc.py", "the "
             "sampling engine", "BoxResultPM", "statistical_analysis_of_pimc and "
             "jackknife_analysis_of_pimc with their pools", "FileStructure", "model hashing"],
    "stub": ["SLURM", "external commands of the batch script", "multiprocessing.Pool",
             _FILES, _SCHED],
}

META["C14"] = {
    "runs": {"quick": 2000, "thorough": 40000},
    "rule": "a run draws one to three directories with thermo files of the current, older and no "
            "stamped models, reference files (analytic, sum over states, Trotter; some missing or "
            "of an older model), which plot class loads and draws them, how often, who replaces "
            "models, results and references meanwhile, and read faults; or pictures of the models "
            "while these are replaced; it is non-trivial when more than one point may be drawn",
    "assumptions": _ASSUME + ["matplotlib draws what it is given"],
    "real": ["pibronic.plotting (plot_Z_multiple_FS, plot_Z_test, plot_original_Z_test, "
             "plot_original_Z_vs_diagonal_test, plot_sos_Z_vs_rho_n, loaders of references, plotGrids)",
             "postprocessing", "FileStructure", "model hashing", "matplotlib up to rendering"],
    "stub": [_FILES, _SCHED, "rendering (Figure.savefig records the figure)",
             "LaTeX and the module command"],
}

META["C13"] = {
    "runs": {"quick": 700, "thorough": 25000},
    "rule": "a run draws one or two orders, up to three processes which create matrices for drawn "
            "tuning parameters (the ends, tiny, equal and arbitrary ones, invalid ones), read "
            "faults, and in some runs an author who regenerates the sequence of one order "
            "meanwhile and may crash or meet disk errors; it is non-trivial when there is more than one "
            "process",
    "assumptions": _ASSUME + ["the sequences that are shipped are those of the author"],
    "real": ["create_orthonormal_matrix_lambda_close_to_identity", "the sequences module: selection "
             "of pairs, generation and storage of sequences", "the shipped sequence files (copies)"],
    "stub": [_FILES, _SCHED, "the directory of the module (its __file__ names a scratch directory)",
             "the resolution of regenerated sequences (lower, for speed)"],
}

META["C17"] = {
    "runs": {"quick": 800, "thorough": 40000},
    "rule": "a run either has up to three processes generate artificial models for drawn parameters "
            "(some left to their defaults) and random states, repeatedly, or sets up one or two "
            "complete systems (generation, transformation, five sampling models, the iterative "
            "decomposition) with crashes or disk errors and then again without; it is non-trivial "
            "when more than one model is generated or a system is set up",
    "assumptions": _ASSUME,
    "real": ["generate_vibronic_model_data, create_random_model, create_random_diagonal_model",
             "model files, transformation, harmonic, sampling and re-weighted models",
             "julia_wrapper.iterate_method and its command"],
    "stub": [_FILES, _SCHED, "Julia (a deterministic stand-in)"],
}

META["C18"] = {
    "runs": {"quick": 1500, "thorough": 60000},
    "rule": "a run fills two data sets with current and outdated results, references and files with "
            "similar names, and has up to three processes list and parse them, in some runs while "
            "another process publishes; directories are listed in drawn order; it is non-trivial "
            "when there are several files and several processes",
    "assumptions": _ASSUME,
    "real": ["pibronic.data.postprocessing: lists of files, values of their names, pruning",
             "FileStructure", "model hashing"],
    "stub": [_FILES, _SCHED],
}
