#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after editing)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from scen.meta import META

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


JB, EN, FSF = "pibronic/server/job_boss.py", "pibronic/pimc/pimc.py", "pibronic/data/file_structure.py"
PP, ST, JK = "pibronic/data/postprocessing.py", "pibronic/stats/stats.py", "pibronic/stats/jackknife.py"
VIO, ES, JW = "pibronic/vibronic/vibronic_model_io.py", "pibronic/vibronic/electronic_structure.py", "pibronic/julia_wrapper.py"

prop("C01", "A submission asks the scheduler for exactly the requested work",
     "For every (temperature, beads) pair of a request the jobs handed to the batch scheduler together compute at "
     "least the number of samples asked for overall and not a whole job more, and every job carries the requested "
     "parameters, resources, model files, result directory and existing programs. "
     "Nothing of one submission leaks into another one or into the caller's own parameters, and a submission that the "
     "scheduler rejects is reported as an error rather than passed over.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every request (sample counts, block sizes, lists, clusters), every sequence of submissions by one or several "
     "users, every pattern of rejected or unanswered submissions",
     "the tests construct a submission object once and never run a scheduler, a second submission or a rejection",
     [JB, EN, "pibronic/server/compute_canada/pimc_job.sh", "pibronic/server/nlogn_feynman/pimc_job.sh"],
     [("PimcSubmissionClass", JB), ("prepare_job_*", JB), ("BoxData.json_serialize", EN)],
     ["the sbatch command line and its exported environment"])
prop("C02", "Every batch job delivers its own complete result, or nothing",
     "A result file that becomes visible in a results directory is at all times complete and finite, named with the "
     "beads, temperature and id of the job it came from, stamped with the hashes of the models used, and holds exactly "
     "the samples that job computed. A job that runs undisturbed delivers one such file, jobs running at the same "
     "time never take, overwrite or duplicate each other's results or random numbers, and a job that is killed at any "
     "point leaves either nothing or a complete result there.",
     ["schedules", "crash_points", "fault_sequences", "inputs"],
     "every interleaving of concurrently running jobs, a crash or cancellation of the program or the batch script at "
     "any operation, disk errors, scratch and results on different file systems, a job run again under its id",
     "the tests run the sampling code in one process without a batch script, another job, a crash or a full disk",
     [EN, "pibronic/server/compute_canada/pimc.py", "pibronic/server/nlogn_feynman/pimc.py",
      "pibronic/server/compute_canada/pimc_job.sh", "pibronic/server/nlogn_feynman/pimc_job.sh", JB],
     [("BoxResult.save_results", EN), ("pimc_job.sh", "pibronic/server/*/pimc_job.sh"),
      ("server/*/pimc.py", "pibronic/server")],
     ["files in rho_*/results after every operation of every process"])
prop("C03", "Collating result files conserves samples",
     "Loading the results of several jobs for one (beads, temperature) pair yields every sample of every complete "
     "result file exactly once, with the quantities of one sample kept together, and nothing from files of other "
     "parameters, incomplete files or unset memory. When fewer samples are requested than exist, exactly that many "
     "are returned, and concurrent writers never cause part of a file or an unreadable file to be used.",
     ["inputs", "schedules", "fault_sequences"],
     "any number and sizes of result files in any directory order, any requested number of samples, jobs that publish "
     "or die meanwhile, read errors",
     "the tests load one or two fixed files of equal size",
     [EN, PP], [("BoxResult.load_multiple_results", EN), ("BoxResultPM.load_multiple_results", EN),
                ("load_pimc_data", PP)], ["the arrays of the loaded result object"])
prop("C04", "Results are only ever combined with the model they were computed from",
     "A stored result or thermodynamic value carries the hashes of exactly the coupled and sampling models from which "
     "it was computed, also when the model files are replaced while a calculation runs. An analysis uses only results "
     "and analytic data whose hashes match the models now in place, and ignores or refuses all others.",
     ["schedules", "histories", "inputs"],
     "every moment at which a model or analytic file may be replaced relative to a running job or analysis, every mix "
     "of current, outdated and unstamped files in the same directories",
     "the tests never change a model while anything runs and only cover one outdated file",
     [EN, PP, FSF, ST, JK, VIO],
     [("hash_vib/hash_rho stamps", EN), ("prune_results_using_hash", PP), ("load_analytic_data", PP),
      ("generate_model_hashes", FSF)],
     ["stamps in result and thermo files", "the inputs of the analysis"])
prop("C05", "Stored models and results are always complete and read back exactly",
     "Whatever crash, disk error or concurrent access happens, a model or result file that exists is at all times one "
     "complete version that somebody stored, and after a save succeeded it reads back with the same values, dimensions "
     "and hash. Deriving a model (harmonic, sampling, transformed) yields exactly the diagonal or the transform of its "
     "source, recalculating the energies of a sampling model gives those of the coupled model at its minima, neither "
     "alters the source, and a coupled model is only replaced by its transform after the original and the "
     "matrix are safely stored.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "a crash at any file operation, failing, short and torn reads and writes, several writers and readers, models with "
     "couplings up to fourth order with zero, sparse or full arrays",
     "the tests save and load in one undisturbed process",
     [VIO, EN, "pibronic/helper.py", "pibronic/vibronic/orthonormal/create.py"],
     [("save_model_to_JSON / load_model_from_JSON", VIO), ("create_harmonic_model, create_basic_diagonal_model, "
      "create_fake_coupled_model", VIO), ("save_results", EN)],
     ["the files after every operation of every process", "the loaded dictionaries"])
prop("C06", "The store of deterministic results keeps every answer and only right ones",
     "Every value in the files of analytic, sum-over-states and Trotter results is the complete answer of the external "
     "program for exactly the model, temperature, basis and bead number under which the file stores it, and values of "
     "another or unknown model are dropped when new ones are added. Once a calculation has reported success its answer "
     "is never lost to another process, a failing program or a crash, and a calculation that failed, was killed or stopped "
     "half way is reported as a failure and stores nothing.",
     ["schedules", "fault_sequences", "crash_points", "histories"],
     "any interleaving of calculations for the same and different files, programs that fail, are killed or print part of "
     "their output, crashes, disk errors, models replaced meanwhile, files left by earlier sessions",
     "the tests do not run the wrapper at all (it needs Julia)",
     [JW, FSF], [("base_func", JW), ("validate_old_rho_data, validate_old_model_data", JW), ("compute", JW)],
     ["the result files after every operation of every process"])
prop("C07", "The electronic structure workflow completes each step once and resumes safely",
     "The workflow runs its steps in order, starts a step only after the preceding one has been completed and verified, "
     "and records a step as completed only then; after a crash or a failed job a later run continues with the first step that "
     "was not completed and uses the values the completed steps produced. A failed or incomplete job is reported as an "
     "error, and workflows for different molecules, one after the other or at once, do not influence each other.",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "a crash of the workflow at any operation, a failing, killed, silent or truncated job at any step, any number of "
     "restarts, several molecules in one process or concurrently",
     "the tests call the parsing functions one at a time on stored output and never run or interrupt the workflow",
     [ES, JB], [("VibronExecutionClass.calculate_vibronic_model", ES), ("verify_aces2_completed", ES),
                ("wait_on_results", ES), ("execution_state file", ES)],
     ["the jobs handed to the scheduler", "the execution state file", "raised errors"])
prop("C08", "Waiting for a batch job never ends early and always ends",
     "Waiting for a submitted job returns only after that very job has completed, and raises an error if the job failed, "
     "timed out, was cancelled or lost its node; this does not depend on the names of jobs and directories nor on signals "
     "that come early, late, repeatedly, not at all or from another job. Once the job has ended the wait ends within a "
     "bounded time.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "any timing of queueing, running, requeueing and ending of the jobs and of their signals, any end state, any job id, "
     "name and directory, several waits in a row and several waiting processes",
     "the tests replace the waiting function by a stub",
     [JB, ES], [("synchronize_with_job", JB), ("SIGUSR1_handle", JB), ("wait_on_results", ES),
                ("extract_id_job_from_output", JB)], ["return, error and time of the wait"])
prop("C09", "A concurrent analysis equals the estimators applied to all samples",
     "After an analysis of a data set there is, for every (beads, temperature) pair with result files and for no other, "
     "a complete thermodynamics file whose values are the estimators (and jackknife estimates) of exactly the samples of "
     "that pair with its temperature, beads and sample count. This holds whatever the worker scheduling, however many "
     "analyses run at once, whatever result is published meanwhile, and a failing or crashing analysis leaves no partial "
     "file.",
     ["schedules", "crash_points", "fault_sequences", "inputs"],
     "every interleaving of the pool workers and of several analyses, crashes and disk errors at any operation, any set of "
     "combinations and file counts",
     "the tests run the estimators on tiny fixed arrays and never the concurrent analysis",
     [PP, ST, JK, EN], [("statistical_analysis_of_pimc", PP), ("jackknife_analysis_of_pimc", PP),
                        ("multiprocessing.Pool", PP), ("write_property_dict", ST)],
     ["the thermo files"])
prop("C10", "A stored sample is what its random numbers, model and parameters determine",
     "Every stored sample has the sampling weight, the coupled weight and the two shifted-temperature weights that the "
     "path integral formula gives for the path drawn, the models, the temperature and the number of beads of its "
     "calculation, and the paths are drawn from the distribution of the sampling model. This holds for every "
     "block size and for several calculations prepared and run in any order in one or several processes.",
     ["inputs", "histories", "schedules"],
     "any models (surfaces, modes, linear and quadratic terms, sampling models with another number of oscillators), beads, "
     "temperatures, blocks, and any order of preparing and running calculations",
     "the tests check shapes and a few intermediate values of single calculations",
     [EN, VIO], [("block_compute, block_compute_pm", EN), ("ModelVibronic, ModelVibronicPM, ModelSampling", EN),
                 ("BoxData, BoxDataPM", EN)], ["the stored arrays against a recomputation from the recorded random numbers"])
prop("C11", "The directory structure is complete, shared safely and consistent",
     "Opening a data set makes every directory it needs without disturbing existing files, also when several processes "
     "open the same one at once, when part of it exists already or when an earlier attempt was cut short. Every path it "
     "then hands out belongs to the data set and sampling model selected, also after switching the sampling model, "
     "and the model hashes are those of the files in place.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "any interleaving of processes opening, switching and extending shared data sets, crashes and failing mkdir at any "
     "operation, any partial tree left behind",
     "the tests open one data set in an empty directory in one process",
     [FSF, "pibronic/data/file_name.py"], [("FileStructure", FSF)], ["paths, directories and hashes"])
prop("C12", "A model created from an operator file states what the file states",
     "Creating the coupled model from a complete operator file (.op) stores exactly the number of states and modes, the "
     "energies, frequencies and the couplings of every order that the file states, symmetric in the surfaces, whichever "
     "files were read before or are read at the same time; the harmonic and sampling models created from it are its diagonal. "
     "An incomplete, empty or missing file is refused, and a refused, failing or interrupted creation leaves the "
     "previous model in place.",
     ["inputs", "histories", "crash_points", "fault_sequences", "schedules"],
     "any operator file with linear to quartic couplings, cut at any character or still being copied, any sequence of "
     "creations in one or several processes, a crash or disk error at any operation",
     "no test reads an operator file",
     ["pibronic/vibronic/model_op.py", VIO],
     [("read_model_op_file", "pibronic/vibronic/model_op.py"), ("create_coupling_from_op_file", VIO)],
     ["coupled_model.json after every operation"])
prop("C13", "Orthonormal matrices grow monotonically from the identity",
     "The matrix created for an order and a tuning parameter between 0 and 1 is a rotation exp(xS) of that order, is the "
     "identity for 0, lies a quarter of the period away for 1 (up to the step of the stored sequence, never further), and in "
     "between at the parameter's share of that distance up to one step, so that the distance never decreases with the "
     "parameter; other parameters and orders without a sequence are refused. A stored sequence is a complete version at "
     "every moment, so this also holds while it is regenerated and after a regeneration that failed or was interrupted.",
     ["inputs", "crash_points", "fault_sequences", "schedules"],
     "every order and tuning parameter, several processes, a regeneration that is interrupted or fails at any operation",
     "the tests cover invalid arguments only",
     ["pibronic/vibronic/orthonormal/create.py", "pibronic/vibronic/orthonormal/sequences.py"],
     [("select_pair", "pibronic/vibronic/orthonormal/sequences.py"),
      ("save_sequence, load_sequence", "pibronic/vibronic/orthonormal/sequences.py"),
      ("create_orthonormal_matrix_lambda_close_to_identity", "pibronic/vibronic/orthonormal/create.py")],
     ["the matrices", "the sequence files after every operation"])
prop("C14", "Plots show the stored values of the current models",
     "Every point of a plot is the value stored for exactly its bead number, temperature and number of samples, computed "
     "from the models that are in place when the plot is made; no such value is missing, and reference values it is "
     "compared with (analytic, sum over states, Trotter) are those of the same models and the same data set, or the plot "
     "is refused or shows a gap. Pictures of energies and couplings show the values of the model they name.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "any set of current, outdated and unstamped thermo and reference files, several directories in one plot, analyses and "
     "editors that replace results, references and models while a plot is made",
     "no test runs the plotting code",
     ["pibronic/plotting/plotting.py", "pibronic/plotting/grid_plots.py", PP],
     [("plot_Z_multiple_FS", "pibronic/plotting/plotting.py"), ("plot_original_Z_vs_diagonal_test", "pibronic/plotting/plotting.py"),
      ("load_sos, load_trotter_coupled, load_analytical_sampling", "pibronic/plotting/plotting.py"),
      ("plotGrids", "pibronic/plotting/grid_plots.py")],
     ["the loaded arrays", "the curves and images of the figures"])
prop("C15", "Training data belong together",
     "The files of training data that a job leaves behind are complete and consist of exactly the coordinates that were "
     "generated, all different, and of the value of g for each of these coordinates under the model of the data set; the "
     "values of rho computed for stored coordinates are those of the sampling model chosen. A file of output is never "
     "visible beside coordinates it was not computed from, also when the generation is repeated, interrupted or fails.",
     ["inputs", "crash_points", "fault_sequences", "histories", "schedules"],
     "any models, beads, temperatures and blocks, several jobs in one or several processes, repeated generation, a crash or "
     "disk error at any operation",
     "no test runs the functions that generate training data",
     [EN, "pibronic/data/file_name.py"],
     [("block_compute_gR_from_raw_samples", EN), ("save_gR_with_samples", EN),
      ("block_compute_rhoR_from_input_samples", EN)],
     ["the files training_data_input and training_data_g_output, after every operation"])
prop("C16", "From request to estimate, exactly the delivered samples of the current models count",
     "Over a whole campaign, from the request for samples through batch jobs to the analysis, every estimate that is "
     "ever visible is that of the samples its name counts: all samples delivered for its models by the jobs that had "
     "finished, none twice, none from an older model, none from an interrupted job. Once faults end, asking again for what is "
     "missing and analysing again yields estimates from at least the requested number of samples for every requested "
     "bead number and temperature.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "requests by several users for any beads and temperatures, jobs that crash, fail, or are cancelled at any point, "
     "analyses while jobs publish, analyses that crash, models replaced at any point of the campaign",
     "the tests exercise each stage alone on stored files; none goes from a request to an estimate",
     [JB, EN, PP, ST, JK, FSF],
     [("PimcSubmissionClass", JB), ("BoxResultPM", EN), ("statistical_analysis_of_pimc", ST),
      ("jackknife_analysis_of_pimc", JK)],
     ["result and thermo files, after every operation of every process"])

prop("C17", "Artificial systems are what was asked for and belong together",
     "A generated model has exactly the requested numbers of states and modes, frequencies evenly spaced over the requested "
     "range, independent energies within their range and independent linear couplings within the scaling divided by the "
     "frequency, symmetric in the surfaces, and no terms of higher order; what is not requested has its documented default, "
     "whatever was generated before. Equal states of the random numbers yield equal models, consecutive models differ, "
     "a diagonal model is the diagonal of the coupled one with the same draws, and the caller's parameters are not touched. "
     "Once a system is set up - or set up again after an interruption or for a new model - the original, coupled, harmonic, "
     "sampling, iterated and re-weighted models of its data set all derive from the same generated model.",
     ["inputs", "histories", "crash_points", "fault_sequences", "schedules"],
     "any parameters, any sequence of generations in several processes, a crash or disk error at any operation of the set up "
     "of one or several systems", "the tests use single random models only as test data and call each step alone",
     [VIO, JW, FSF],
     [("generate_vibronic_model_data, create_random_model, create_random_diagonal_model", VIO),
      ("create_fake_coupled_model, remove_coupling_from_model, simple_single_point_energy_calculation", VIO),
      ("iterate_method", JW)],
     ["the returned models", "the model files of a data set"])
prop("C18", "What is found in a data set is exactly what lies in it",
     "The lists of results and references of a data set name each file of the kind (and basis size, or bead number and "
     "temperature) asked for that is in place while the list is made, exactly once, and nothing else: no file of another data "
     "set, no unfinished file or file of another kind, and, where only current ones are wanted, none of another model. "
     "Bead numbers, temperatures, numbers of jobs, samples and basis functions taken from the names are those the files "
     "were stored under, and lists of parameters hold each value once, in order.",
     ["inputs", "schedules", "histories"],
     "any set of results and references, any order of directory entries, any name of the root directory, files that are published "
     "while the lists are made",
     "the tests replace these functions by stand-ins",
     [PP, "pibronic/data/file_name.py", FSF],
     [("retrive_*_file_list, retrive_all_file_paths, retrive_valid_pimc_file_list", PP),
      ("extract_*_paramater_list, extract_*_from_*_file_path", PP), ("prune_results_using_hashes", PP)],
     ["the returned lists and values"])

NA = {}
BASE_NOTE = ("seeded search over schedules, inputs and faults with the real code; says nothing about schedules not drawn. "
             "Trusted: the simulator and its oracles, numpy, the Python standard library. ")

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in META:
            m = META[i]
            checks.append({
                "property": i,
                "quick_cmd": f"python3 run.py --property {i} --tier quick",
                "thorough_cmd": f"python3 run.py --property {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection (seeded search over "
                             "schedules and faults)",
                "level": "exploration",
                "level_note": BASE_NOTE + f"{m['runs']['quick']} runs quick, "
                              f"{m['runs']['thorough']} thorough. Assumes: "
                              + "; ".join(m["assumptions"]) + "."})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    man = {"version": 1, "setup_cmd": "mkdir -p evidence replays", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: every seam is put in place by the simulator at import "
                    "time (files, processes, clocks, signals, locks, random numbers). Commits in "
                    "/repo are repairs only; see known_findings.jsonl and DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
