#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


B = "esat/model/batch_sa.py"
SA = "esat/model/sa.py"
BOOT = "esat/error/bootstrap.py"
DISP = "esat/error/displacement.py"
BSD = "esat/error/bs_disp.py"
CON = "esat/rotational/constrained.py"
EST = "esat/estimator.py"
SIMU = "eval/simulator.py"
FC = "eval/factor_comparison.py"
PER = "eval/perturbation.py"
DH = "esat/data/datahandler.py"
CLI = "esat/cli/esat_cli.py"

p("C01", "A batch's models do not depend on schedule, pool size or mode",
  "For a given seed and configuration, batch training yields the same models in the same order (matrices, losses, "
  "convergence data, model number), whether it runs sequentially or in a worker pool of any size and whatever order "
  "the workers finish in. Model i equals one model trained alone with the i-th seed drawn from the batch seed and "
  "with that model's own predefined W/H, hold and delay settings. The caller's arrays are never modified.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of pool workers, result collection and logging; every pool size; both kernels' protocols; "
  "every combination of predefined W/H, method, convergence settings; repeated training of one object",
  "the tests train one small batch once, in one order that the machine happened to choose, and are not in the stable "
  "set; none compares parallel with sequential results",
  [B, SA], [("pool.map / apply_async result collection and sort by model number", B + ": BatchSA.train"),
            ("seed drawing", B + ": BatchSA.train"), ("single model training", B + ": BatchSA._train_task")],
  ["BatchSA.results", "BatchSA.train return value"],
  [("results", "trained models in model order", B), ("rng", "source of the models' seeds", B)])

p("C02", "The reported best model is a model with the smallest valid loss",
  "After a batch train succeeds, the best-model index is in range and denotes a model whose reported loss, of the "
  "kind selected (robust or true), is the smallest among all models with a valid (non-NaN) loss. Each model's "
  "reported true and robust losses are those of its own returned matrices. A batch in which no model has a valid "
  "loss is not reported as a success.",
  ["schedules", "inputs", "fault_sequences"],
  "all completion orders, loss orderings, ties, models with NaN loss, and both loss kinds",
  "the tests never contain a NaN model nor compare the index with the losses",
  [B, SA], [("best model selection loop", B + ": BatchSA.train"), ("loss bookkeeping", SA + ": SA.train, SA.update_metrics")],
  ["BatchSA.best_model", "SA.Qtrue", "SA.Qrobust"])

p("C03", "A failing batch ends with a reported failure and leaks nothing",
  "Whatever fails during batch training (a worker raising, running out of memory or meeting an I/O error, a native "
  "kernel error, unusable data, a callback that cannot be sent), the call terminates and reports failure with a reason "
  "in its return value instead of success; it never reports success with missing or invalid models. Afterwards no worker pool, listener "
  "or thread of that call is left running, and the same object trains correctly once the fault is gone.",
  ["fault_sequences", "schedules", "crash_points"],
  "every fault kind at every point of a worker's execution, in every interleaving",
  "no test injects a fault into a worker or looks at leftover processes and threads",
  [B], [("pool context / close / join and listener stop", B + ": BatchSA.train"),
        ("error reporting of tasks", B + ": BatchSA._train_task")],
  ["BatchSA.train return value", "live pools and threads"])

p("C04", "Progress and log messages of batch workers arrive exactly once, in order",
  "Every progress message a model emits during batch training reaches the caller's callback exactly once, in that "
  "model's order, and before the training call returns, in both sequential and parallel mode. Every log record a "
  "worker emits is handled exactly once in the parent before the call returns.",
  ["schedules", "configurations"],
  "all interleavings of worker emission, queue transfer, listener shutdown and pool completion",
  "the tests use no callback and cannot control when the listener runs relative to shutdown",
  [B, SA], [("manager queue and QueueListener", B + ": BatchSA.train"), ("progress queue/callback", B + ": BatchSA._train_task")],
  ["progress_callback", "logging handlers of the parent"])

p("C05", "Batch time limit and runtime measure elapsed time under any clock",
  "A sequential batch with a time limit is abandoned with a reported reason as soon as one model took longer than "
  "the limit, and a batch in which no model exceeded the limit is never abandoned, however the wall clock jumps. The "
  "reported runtime is the time that really elapsed, including batches longer than a day.",
  ["histories", "fault_sequences"],
  "all model durations, limits and wall-clock jumps forward and backward at any read of the clock",
  "tests cannot move the clock nor make models take hours",
  [B], [("per-model limit test and runtime", B + ": BatchSA.train")], ["BatchSA.train return value", "BatchSA.runtime"])

p("C06", "A saved analysis loads back identical, and a crash leaves the old or the new",
  "Saving any analysis object (model, batch, bootstrap, displacement, bootstrap-displacement, constrained model, "
  "simulator) in its binary form and loading it gives an object of the same kind with identical content, and the "
  "path returned is the file written. If the process or machine dies during a save, or the disk fails or fills up, a "
  "later load returns the complete previous object, the complete new object, or nothing, and never a mixed object or "
  "an unhandled error; a file that existed before stays loadable.",
  ["crash_points", "inputs", "fault_sequences"],
  "every operation boundary and byte position of the save, process crash and power loss, EIO/ENOSPC/short writes, "
  "truncated and garbage files",
  "tests only round-trip one model on a healthy disk",
  [SA, B, BOOT, DISP, BSD, CON, SIMU],
  [("save / load", SA), ("save / load", B), ("save / load", BOOT), ("save / load", DISP), ("save / load", BSD),
   ("save / load", CON), ("save / load", SIMU)], ["save() return value and files", "load() return value"])

p("C07", "Text exports are complete, consistent with the object, and never fake success",
  "Every text export writes every documented file with the object's own numbers, under labels that belong to those "
  "numbers (the row for one displacement threshold, factor or feature holds the values of exactly that threshold, "
  "factor or feature), and reports the place it really wrote to. If any write fails, the export does not report "
  "success.",
  ["inputs", "fault_sequences", "crash_points"],
  "all object shapes and options (with and without header/labels), and disk errors, full disks and missing "
  "directories at any write",
  "tests check at most that a call returns",
  [SA, B, BOOT, DISP, BSD], [("csv writers", SA), ("csv writers", BOOT), ("csv writers", DISP), ("csv writers", BSD)],
  ["files written", "save() return value"])

p("C08", "Bootstrap results do not depend on the schedule",
  "For a given base model and seed, a bootstrap gives the same resamples, models, factor mappings, losses, tables and "
  "profiles, in the same order, when run in parallel with any number of workers as when run serially. Each "
  "bootstrap model equals one trained alone on its resample from the same starting conditions. If a worker fails, "
  "the failure reaches the caller, no incomplete result is compiled as if complete, and a later run works.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all worker interleavings, pool sizes, CPU counts, block settings, kept/new H, reused/new seeds, and worker faults",
  "the tests run a bootstrap once without comparing modes, and are not in the stable set",
  [BOOT], [("parallel submission and collection", BOOT + ": Bootstrap._train"), ("compilation", BOOT + ": Bootstrap.run")],
  ["Bootstrap.bs_results", "Bootstrap.mapping_df", "Bootstrap.q_results", "Bootstrap.bs_profiles"])

p("C09", "Bootstrap resamples keep rows intact and leave the base model alone",
  "Every bootstrap dataset has exactly as many samples as the original and each of its rows is one original row with "
  "its own uncertainty, drawn in whole blocks of the chosen size (at most half the data; cut only at the end of the data or of the "
  "resample). Every sample can be drawn, and distinct runs draw different resamples. The base model and the caller's "
  "data are unchanged by a bootstrap.",
  ["inputs", "configurations", "histories"],
  "all dataset lengths, block sizes from 1 to the dataset length, both block styles, all seeds",
  "tests use one dataset and one block size and never look at the index",
  [BOOT], [("block resampling", BOOT + ": Bootstrap._block_resample, Bootstrap._resample / index generation")],
  ["Bootstrap.bs_results[..]['index']", "the models' V and U"])

p("C10", "Bootstrap factor mapping conserves and counts every run exactly once",
  "For each factor, the numbers of bootstrap runs mapped to each base factor and unmapped add up to the number of "
  "runs. A run's factor is counted as mapped to the base factor whose contribution series it correlates with best "
  "if that squared correlation reaches the threshold, and as unmapped otherwise, at every threshold requested. The "
  "reported losses, percentile tables and factor profiles are those of exactly these runs.",
  ["inputs", "schedules", "histories"],
  "all datasets, thresholds, run counts and completion orders; repeated compilation",
  "no test recomputes a mapping or checks a total",
  [BOOT], [("correlation and mapping", BOOT + ": Bootstrap._compile_results / calculate_q_results / _build_table")],
  ["Bootstrap.mapping_df", "Bootstrap.factor_tables", "Bootstrap.q_results"])

p("C11", "Displacement counts every displacement once, under its own factor and dQ",
  "A displacement analysis gives the same results, swap counts and profile ranges in parallel (any number of "
  "workers, any completion order) as serially. Each displaced factor-feature pair in each direction and dQ level is "
  "counted exactly once, and its swap is counted under the factor and dQ level that was displaced. Running the same "
  "analysis again does not double the counts; if a worker fails the failure reaches the caller.",
  ["schedules", "histories", "fault_sequences"],
  "all worker interleavings, pool sizes, feature selections, repeated runs, worker faults",
  "tests run it once and do not look at the counts",
  [DISP], [("parallel collection", DISP + ": Displacement._increase_disp, _decrease_disp"),
           ("compilation", DISP + ": Displacement._compile_results")],
  ["Displacement.compiled_results", "Displacement.swap_table", "Displacement.count_table"])

p("C12", "Each displaced value reaches its dQ target or the end of the search",
  "For every displaced factor element, the increase search ends at a value not below the base value and the decrease "
  "search at a value between zero and the base value; the loss increase there is within the threshold of the target, "
  "unless the search was exhausted. The reported loss change, percent, concentration and swap are those obtained by "
  "setting exactly that element and retraining, and the reported minimum, profile and maximum are in order. The "
  "search terminates within the configured number of steps.",
  ["inputs", "configurations"],
  "all base models, elements, targets, thresholds and step limits",
  "tests check only that results exist",
  [DISP], [("binary search", DISP + ": Displacement._increase_disp/_decrease_disp/_disp_task")],
  ["Displacement.increase_results", "Displacement.decrease_results", "Displacement.compiled_results"])

p("C13", "BS-DISP covers every bootstrap run, parallel or serial",
  "A bootstrap-displacement analysis gives the same results in parallel as serially, for any number of workers. "
  "Its profile ranges, swap counts, displacement counts and dQ decreases are taken over all bootstrap runs and each "
  "run exactly once. If a worker fails, the failure reaches the caller.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all worker interleavings, pool sizes, run counts from 1 up, feature selections",
  "tests run it serially once",
  [BSD], [("parallel collection", BSD + ": BSDISP.run"), ("compilation", BSD + ": BSDISP.__compile_results")],
  ["BSDISP.compiled_results", "BSDISP.swap_table", "BSDISP.count_table", "BSDISP.fit_swaps"])

p("C14", "Factor estimation attributes every model to its factor count exactly once",
  "A factor-count search trains exactly the requested number of models, attributes each model's train and test "
  "errors to the factor count it was trained with, and reports for each factor count the averages over exactly those "
  "models, independent of schedule and pool size. Test cells are hidden from training and training cells do not count "
  "as test error. Its result is the same for the same seed and does not modify the caller's data.",
  ["schedules", "inputs", "configurations"],
  "all interleavings, pool sizes, factor ranges, sample counts, test fractions, seeds",
  "no stable test covers the estimator",
  [EST], [("sampling, masks, collection", EST + ": FactorEstimator")], ["FactorEstimator.results", "the returned table"])

p("C15", "Perturbation analysis attributes each perturbed model to its perturbation",
  "A perturbation analysis trains every perturbed model on the original data with that model's own perturbed "
  "uncertainty, perturbing as configured, and lists results in perturbation order with a mapping and correlation "
  "computed from that very model, whatever the schedule. The original data and base model stay unchanged.",
  ["schedules", "inputs", "configurations"],
  "all interleavings, pool sizes, seeds and perturbation settings",
  "no test covers it",
  [PER], [("perturb, train, map", PER)], ["Perturbation results and tables"])

p("C16", "Factor comparison maps one-to-one and picks the best match found",
  "A comparison of models with known factors gives for each model a one-to-one factor mapping, and the correlations "
  "reported for it are those of exactly that mapping. The model reported as best has the highest average "
  "correlation of all models compared, and the result does not depend on schedule, pool size or mode.",
  ["schedules", "inputs"],
  "all interleavings, pool sizes, factor counts, batch sizes",
  "no stable test covers it",
  [FC], [("parallel comparison and selection", FC)], ["FactorCompare.best_*"])

p("C17", "Training a model keeps its invariants",
  "After training, the factor profiles are non-negative (and the contributions too under ls-nmf), all shapes and "
  "settings match what was asked, the reported losses are those of the returned matrices, and held profiles are "
  "unchanged. The loss history has one entry per iteration performed, at most the maximum; training is reported "
  "converged exactly when the stop rule held over the window, and ls-nmf never increases the true loss. The same "
  "seed gives the same model, and training again starts from a clean state.",
  ["inputs", "configurations", "histories"],
  "all datasets, methods, initialisations, convergence settings, sequences of initialise/train calls",
  "tests train one dataset once per method",
  [SA, "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"],
  [("training loop", SA + ": SA.train"), ("updates", "esat/model/ls_nmf.py, esat/model/ws_nmf.py")],
  ["SA.W", "SA.H", "SA.Qtrue", "SA.q_list", "SA.converged"])

p("C18", "A model resumed after a crash continues exactly where it was",
  "Training for some iterations, saving, and resuming from the loaded model in a fresh process gives the same model "
  "as resuming without saving, whatever crash or disk fault hit other attempts in between. A loaded model resumes "
  "from the last completed save.",
  ["crash_points", "histories", "fault_sequences"],
  "all split points of a training, crash points during saves, methods",
  "no test loads a model to continue it",
  [SA], [("save/load and initialize from W/H", SA)], ["SA.load", "SA.train"])

p("C19", "Models trained side by side do not influence each other",
  "Models trained concurrently in threads of one process give the same results as when trained one after another, "
  "including when they share the same input arrays; no model modifies the caller's arrays or another model's state.",
  ["schedules", "histories"],
  "all interleavings at source-line granularity of several models, batches and error analyses",
  "tests are single threaded",
  [SA, B, BOOT, DISP], [("per-object random generators and copies", SA)], ["all results", "caller arrays"])

p("C20", "The simulator reproduces a dataset from its seed at any time",
  "A synthetic-data simulator with the same seed and parameters generates the same data, uncertainty and factors, "
  "whatever the clock says, for the same sequence of calls, and its output has the requested shape, with "
  "positive values and the requested contribution settings honoured. A saved simulator loads back with the same data.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all seeds, parameters, wall-clock values and jumps (midnight, leap days), sequences of requests",
  "no stable test covers it",
  [SIMU], [("generation and get_data", SIMU)], ["Simulator.get_data", "Simulator.save/load"])

p("C21", "A constrained model's edit history behaves like an ordered list of constraints",
  "After any sequence of adding, removing and listing constraints, expressions and targets, accepted ones are present "
  "exactly once under a unique label, invalid ones are rejected without effect, and removal affects only the named "
  "one. Each training step starts from the current solution with exactly the constraints and expressions of the "
  "history applied as documented (set values set, limits kept, pulls within their dQ limit), and the result and its "
  "losses are those of the last step. Training and evaluating never modify the base model, give the same result for "
  "the same history, and a failing training or saving and loading keeps the history and the earlier result.",
  ["histories", "inputs", "crash_points"],
  "all edit sequences, valid and invalid arguments, saves and loads between edits",
  "tests use one fixed sequence and are not in the stable set",
  [CON], [("constraint dictionaries and validation", CON)], ["ConstrainedModel.constraints", "expressions", "train result"])

p("C22", "A command-line workflow hands each step the previous step's result",
  "In a sequence of command-line steps run as separate processes, each step works on exactly what the previous step "
  "stored and stores its own result where the next step looks for it; a failing step reports the failure and does "
  "not destroy earlier results. Analysis commands show the stored results and change nothing. Options mean what their "
  "documentation says.",
  ["histories", "fault_sequences", "crash_points"],
  "sequences of commands with faults and crashes between and within them",
  "the tests of the command line are not in the stable set and each runs one command",
  [CLI], [("commands", CLI)], ["files written and read", "exit status"])

p("C23", "A data handler's views always agree with its edit history",
  "After any sequence of reads, feature categorisations, merges and splits, the data, uncertainty, feature list and "
  "metrics a data handler returns are those of the input with exactly those edits applied: bad features excluded, the "
  "uncertainty of weak ones tripled, location and dropped columns no features, samples with missing values dropped from "
  "data and uncertainty alike, rows, features and uncertainties aligned. Splitting and merging lose, duplicate and mix "
  "no sample. The files and tables the caller passed are unchanged, changing returned tables changes nothing later, a "
  "failed operation leaves the handler usable, and model statistics describe exactly the data the model was trained on.",
  ["histories", "inputs", "fault_sequences"],
  "all edit sequences, read faults and failures within an operation",
  "tests load fixed files and check a few shapes",
  [DH, "esat/data/analysis.py"], [("category handling, merge, split and metrics", DH)],
  ["DataHandler.get_data", "DataHandler.metrics", "split_locations", "merge", "ModelAnalysis.statistics"])

p("C24", "Every parallel analysis works on any machine and surfaces worker failures",
  "Every parallel analysis (bootstrap, displacement, bootstrap-displacement, factor estimation, perturbation, factor "
  "comparison) completes on a machine with any number of CPUs, one included. If a worker fails, the call terminates "
  "and the failure reaches the caller instead of a result that looks complete, and no worker pool is left open.",
  ["fault_sequences", "schedules", "configurations"],
  "all CPU counts and worker faults at every point",
  "tests run on the developer's machine without faults",
  [BOOT, DISP, BSD, EST, PER, FC], [("pool creation and collection", "all of them")],
  ["exceptions", "results", "live pools"])

p("C25", "Numeric kernels and metrics compute what their formulas say",
  "The native and Python update rules, the imputation, the quality metrics, the optimal-block-length estimate and "
  "the constraint arithmetic each equal their published formulas for every input.",
  ["inputs"],
  "all input matrices",
  "tests use a few matrices and compare native with Python to a tolerance",
  ["rust/lib.rs", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py", "esat/metrics.py", "esat/data/impute.py",
   "esat/utils.py"], [("formulas", "each file")])

p("C26", "Plots show the data they are given",
  "Every plotting method draws the values, labels and ranges of the object it belongs to.",
  ["inputs"], "all objects and options", "tests only check that plotting does not raise",
  ["esat/data/analysis.py", BOOT, DISP, BSD, B, CON], [("plot methods", "each file")])

p("C27", "Imputation fills exactly the missing values, reproducibly",
  "Imputing a data handler's data returns complete data and uncertainty with the labels of the features and samples, in "
  "which every observed value is unchanged and every missing one is filled by the chosen strategy. The same data, "
  "strategy and seed always give the same result, whatever ran before or beside it, and the data handler is unchanged, "
  "also when an imputation fails.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "all data, strategies, earlier and simultaneous imputations",
  "the tests of the imputer are not in the stable set and check one table",
  ["esat/data/impute.py"], [("imputation", "esat/data/impute.py")], ["DataImputer.impute", "DataImputer.imputed_data"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
