"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
Q = "quantificationlib/"
ALLQ = [Q+f for f in ("base.py","baselines/ac.py","baselines/cc.py","binary/debias.py","binary/emd.py","binary/quantiles.py",
        "multiclass/df.py","multiclass/em.py","multiclass/energy.py","multiclass/friedman.py","multiclass/knn.py",
        "multiclass/regression.py","ordinal/ac_ordinal.py","ordinal/pdf.py","ordinal/trees.py",
        "decomposition/multiclass.py","decomposition/ordinal.py","ensembles/eoq.py")]
ALLE = [Q+"estimators/"+f for f in ("cross_validation.py","ensembles.py","frank_and_hall.py","ordinal_ddag.py","weighted_knn.py")]
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook)))

p("C01", "A prediction does not depend on the prediction history",
  "The prevalences a fitted quantifier returns for a bag (and the class predictions and probabilities a fitted composite estimator returns) "
  "are the ones a freshly fitted identical object gives when that bag is the first it ever sees. "
  "This holds whatever bags were predicted before, however often, in whatever order, of whatever size, and even when earlier predictions failed part-way with an exception.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every quantifier and composite estimator of the library, every distance/method option, every sequence of predictions (repeated, permuted, same-size, one-example bags, bags equal to the training set) with exceptions injected inside any of them",
  "Tests fit once and run five bags in one fixed order, never compare with a fresh object and never let a prediction fail; cached state (cvxpy problems, precomputed mixtures, stored test distributions) is exactly what they cannot separate from a correct answer.",
  ALLQ + ALLE + [Q+"search.py", Q+"optimization.py"],
  [("cached optimisation problem re-parameterised per bag", Q+"optimization.py: solve_l1, solve_hd"),
   ("cached mixtures that depend only on the training data", Q+"search.py: global_search")],
  [("problem_", "cvxpy problem reused by the next predict", "AC, PAC, DFy, DFX, FriedmanME, PWKQuantifier, ACOrdinal, PDFOrdinaly"),
   ("mixtures_", "101 training mixtures reused by the next predict", "QUANTy, DFy, DFX, FriedmanME"),
   ("predictions_test_, test_distrib_, union_distrib_", "scratch of the current predict", "all UsingClassifiers")],
  ["return value of predict / predict_proba"])

p("C02", "Fitting starts clean: refits and retries equal a first fit",
  "Whatever happened to an object before - fits on other data or other classes, predictions, fits aborted by an exception at any point - a fit that completes leaves it giving the same predictions as a newly constructed object fitted on the same data (already trained estimators handed to a quantifier are reused, as documented). "
  "A transient failure during fit never leaves an object (or an estimator of this library it was training) that can no longer be fitted, and an object whose only fit failed never answers with wrong prevalences.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every quantifier, composite estimator and bag generator; any sequence of fits, predictions and aborted fits; the abort at any call into an estimator, solver, random generator or numerical routine",
  "Tests fit each object exactly once on one dataset and no fit ever fails.",
  ALLQ + ALLE + [Q+"bag_generator.py"],
  [("caches reset at the end of fit", "fit of AC, PAC, DFy, DFX, QUANTy, FriedmanME, PWKQuantifier, ACOrdinal, PDFOrdinaly"),
   ("NotFittedError probe decides whether to train", Q+"base.py: UsingClassifiers.fit; "+Q+"ensembles/eoq.py: EoQ.fit"),
   ("fitted attributes published only after training", "fit of the composite estimators and generate_bags")],
  [("classes_, estimators_", "fittedness marker of composite estimators", Q+"estimators/"),
   ("prevalences_, indexes_", "bags kept by a generator", Q+"bag_generator.py")],
  ["predictions after the completed fit; exceptions of later fits"])

p("C03", "Quantifiers never influence one another",
  "Operations on one quantifier, ensemble, decomposition or generator never change the results of another one, whatever the order or the interleaving of the two callers' threads at any instant. "
  "This includes objects that share trained estimators, a base quantifier or regression estimator given as a template, or only the constructors' default arguments; such templates are left as they were given.",
  ["schedules", "histories", "configurations"],
  "every pair of quantifiers/ensembles/decompositions, every interleaving of their fit and predict calls at line granularity, every sharing pattern the constructors allow",
  "Tests use one thread, and compare several objects only through accuracy thresholds.",
  ALLQ + ALLE + [Q+"bag_generator.py", Q+"search.py", Q+"optimization.py"],
  [("deepcopy of templates", Q+"decomposition/*.py, "+Q+"ensembles/eoq.py, "+Q+"multiclass/regression.py"),
   ("all state on the instance", "every class")],
  [("default bag generators, regression_estimator, base_quantifier", "objects reachable from two quantifiers", "EoQ, REGX, REGy, OneVsRestQuantifier, FrankAndHallQuantifier")],
  ["predict results and attributes of templates"])

p("C04", "A shared estimator is trained once and its predictions used as they are",
  "However many quantifiers share an estimator and in whatever order they are fitted, refitted or retried after failures, an untrained estimator is trained to completion exactly once, and a trained one is never retrained nor altered. "
  "Every quantifier then works from exactly that estimator's predictions: its prevalences equal those obtained by passing the same estimator's predictions explicitly to fit and predict.",
  ["histories", "fault_sequences", "configurations"],
  "every UsingClassifiers quantifier (also inside EoQ and the decompositions), any number of sharers, any order of operations, transient errors (including at the fittedness probe) and retries",
  "Tests share estimators but only look at accuracy; no estimator counts its trainings, none fails, and the explicit-predictions route is not compared with the estimator route.",
  [Q+"base.py", Q+"ensembles/eoq.py", Q+"decomposition/multiclass.py", Q+"decomposition/ordinal.py"] + ALLQ[1:15],
  [("NotFittedError probe", Q+"base.py: UsingClassifiers.fit"), ("predictions_train/predictions_test take precedence", Q+"base.py")],
  [("predictions_train_, y_ext_", "training predictions and matching labels", Q+"base.py")],
  ["calls received by an instrumented estimator; predict results"])

p("C05", "Parallel training gives the sequential model",
  "For every number of workers, every order and interleaving in which workers run, and whether they share memory or receive copies (possibly read-only) of their inputs, fitting a composite estimator in parallel gives the same predictions as fitting it sequentially. "
  "If a worker fails the failure is raised to the caller, and a later retry gives the sequential model.",
  ["schedules", "fault_sequences", "configurations"],
  "every estimator with n_jobs (Frank-and-Hall family, DDAG, ensemble of classifiers, cross-validation estimator), every worker count, completion order, interleaving, thread or process semantics, worker failure at any task",
  "Every test leaves n_jobs at its default, so there is one worker and one order.",
  [Q+"estimators/frank_and_hall.py", Q+"estimators/ensembles.py", Q+"estimators/cross_validation.py", Q+"estimators/ordinal_ddag.py", Q+"ensembles/eoq.py"],
  [("joblib Parallel returns results in submission order; one estimator copy per task", "fit of each composite estimator")],
  [("estimators_", "trained members, one per task", Q+"estimators/")],
  ["predict/predict_proba of the fitted estimator"])

p("C06", "Results follow from data, parameters and seeds alone",
  "With an integer seed (or equal generator objects) bag generation and everything trained on generated bags gives the same results every time: whatever the state of NumPy's global random generator, whatever other code draws from it or reseeds it meanwhile, whatever ran before in the process, and in a fresh process with another hash seed. "
  "The library itself never consumes from or reseeds the global generator.",
  ["schedules", "histories", "configurations"],
  "every bag generator and method, ensembles and regression quantifiers built on them, and every deterministic quantifier; any interference with the global generator at any instant",
  "Bags are drawn once per test and only their shapes or loose accuracy are checked.",
  [Q+"bag_generator.py", Q+"ensembles/eoq.py", Q+"multiclass/regression.py"],
  [("private RandomState created from random_state", Q+"bag_generator.py: generate_bags")],
  [("random_state", "seed or generator", Q+"bag_generator.py")], ["returned prevalences and indexes, predictions, np.random global state"])

p("C07", "Generated bags are complete and say what they contain",
  "Whenever bag generation returns - first call, repeated call, after a failed or interrupted call, after reuse on another dataset - it returns n_bags bags of bag_size valid indexes into the data it was given. "
  "The reported prevalences are exactly the class fractions of the indexed examples (columns summing to one) and respect the requested minimum prevalences up to rounding to whole examples.",
  ["histories", "fault_sequences", "crash_points", "inputs", "configurations"],
  "every generator and method, all legal parameters, any sequence of calls with different data, any exception at any random draw or numerical call inside generation",
  "Tests check array shapes of a single successful generation on one dataset (and one minimum-prevalence bound).",
  [Q+"bag_generator.py"],
  [("bags built completely before being kept and returned", Q+"bag_generator.py"), ("prevalence recomputed from the counts actually drawn", Q+"bag_generator.py")],
  [("prevalences_, indexes_", "kept bags returned by later calls", Q+"bag_generator.py")], ["return value of generate_bags"])

p("C08", "A failure underneath surfaces; it never becomes an answer",
  "If anything a fit or predict relies on fails - an estimator, a distance function supplied by the user, an optimisation solver that raises or ends without a solution, a failed allocation, an interrupt - the operation raises instead of returning a result computed without it. "
  "Apart from the documented reactions (an untrained estimator is trained, a singular confusion matrix is handled by optimisation) an operation either raises that failure or returns what it would have returned without it.",
  ["fault_sequences", "crash_points", "configurations"],
  "every quantifier, composite estimator and generator; one or more failures at any call to an estimator, distance function, solver, numerical routine or random generator",
  "No test injects a failure anywhere.",
  ALLQ + ALLE + [Q+"search.py", Q+"optimization.py", Q+"bag_generator.py"],
  [("narrow except clauses", Q+"base.py, "+Q+"ensembles/eoq.py, "+Q+"baselines/ac.py"), ("solver result used only if there is one", Q+"optimization.py")],
  [], ["exception or return value of the operation"])

p("C09", "Every prediction is a distribution over the training classes",
  "Whenever predict returns, it returns one finite, non-negative number per training class and they sum to one up to numerical precision. "
  "This holds for every quantifier, option and history, including after refits and failures, and for degenerate but legal inputs: one-example bags, single-class bags, saturated, tied or constant classifier outputs, and training sets as small as the method accepts.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "every quantifier and option, every history of fits, predictions, refits and failures, and every degradation of the classifier feeding it (saturated, constant, reversed, tied outputs)",
  "Tests check the error against a threshold on five well-behaved bags of two small datasets.",
  ALLQ + [Q+"search.py", Q+"optimization.py"],
  [("clipping and renormalisation", Q+"baselines/ac.py, "+Q+"binary/debias.py, "+Q+"multiclass/regression.py, "+Q+"decomposition/multiclass.py"),
   ("simplex constraints of the optimisation problems", Q+"optimization.py")],
  [], ["return value of predict"])

p("C10", "Training-set predictions of a CV estimator are out-of-fold",
  "When a cross-validation estimator predicts the set it was trained on (the same rows in the same order), every example is predicted only by fold models that did not see that example, once per repetition, and for a testing bag every fold model is used on every example. "
  "This holds for every splitter (shuffled or not, seeded or not, repeated, grouped), however often and in whatever order it is asked, and whatever happens to the random generators between training and prediction.",
  ["schedules", "histories", "configurations"],
  "every cv splitter and its random state, any interference with random generators between fit and predict, any number of predictions, any worker schedule during fit, all aggregation modes",
  "One test uses a seeded splitter and checks accuracy only; leakage makes accuracy better, not worse.",
  [Q+"estimators/cross_validation.py"],
  [("fold indexes used at prediction time are those used for training", Q+"estimators/cross_validation.py: _predict_proba")],
  [("cv, estimators_, X_train_", "splitter, fold models, stored training data", Q+"estimators/cross_validation.py")],
  ["which fold model is asked about which rows"])

p("C11", "A saved or copied object answers like the original",
  "At any point of its life a quantifier, composite estimator or bag generator can be pickled and restored - in the same or in a fresh process - or deep-copied, and the result gives exactly the predictions (or bags) the original gives, before and after further predictions and refits. "
  "Copy and original are independent: neither's later operations change the other.",
  ["crash_points", "histories", "configurations"],
  "every class and option, every point of a history of fits and predictions (also failed ones), restarts of the process with only the pickle surviving, several copies",
  "No test saves, restores or copies anything.",
  ALLQ + ALLE + [Q+"bag_generator.py"],
  [("plain picklable instance state", "every class")],
  [("problem_", "cvxpy problem object kept on the instance", "DFy, DFX, PAC, AC, FriedmanME, PWKQuantifier, ACOrdinal, PDFOrdinaly")],
  ["predictions of copy and original"])

p("C12", "The caller's data is never modified",
  "No operation changes any object the caller passed in or that an estimator returned: data, labels, predictions, prevalences, indexes, parameter lists and plot arguments keep their contents. "
  "Operations work on read-only (for example memory-mapped) arrays and give the same results, also when they fail half-way.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "every public operation of quantifiers, estimators, generators, metrics and plots, successful or failed, with writable and read-only inputs",
  "Tests never look at their inputs again.",
  ALLQ + ALLE + [Q+"bag_generator.py", Q+"plot/qlplot.py", Q+"metrics/binary.py", Q+"metrics/multiclass.py", Q+"metrics/ordinal.py"],
  [("work on copies", "throughout")], [], ["checksums of every argument before and after"])

p("C13", "Loading a dataset returns all of it or fails",
  "Loading a data file gives every row of the file, in order, with the values and class labels written there, however the storage delivers it (short reads, any chunking, several readers at once). "
  "If the file is torn inside a row (before its last field), a read fails, or a row is incomplete or has no valid label, loading raises instead of returning fewer rows or invented values.",
  ["fault_sequences", "inputs", "schedules"],
  "every well-formed numeric file, every chunking of its bytes, I/O error at any read, tear that leaves an incomplete row, concurrent loads",
  "Tests load intact files from a working disk.",
  [Q+"data_utils.py"], [("numpy.genfromtxt strictness", Q+"data_utils.py: load_data")], [], ["returned X, y or the exception"])

p("C14", "Diagnostics are only diagnostics",
  "The verbosity level changes what is printed and nothing else: results, trained models and generated bags are the same at every level. "
  "If the output stream fails, the operation raises that error or completes with the same result, and a retry behaves as if nothing had been printed.",
  ["configurations", "fault_sequences", "histories"],
  "every class with a verbose parameter at every verbosity level, histories of fits and predictions, output stream failing at any write",
  "Tests run at one verbosity level per object and the output stream never fails.",
  ALLQ + ALLE + [Q+"bag_generator.py"], [("print guarded by verbose", "throughout")], [], ["results at different verbosity levels"])

p("C15", "Every operation terminates",
  "Every fit, predict and bag generation either returns or raises within a number of steps bounded by its inputs and its iteration limits. "
  "This holds for every legal or illegal parameter value and degenerate data, after any history and any injected failure: nothing retries or samples forever.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every operation, including minimum-prevalence settings that are infeasible or barely feasible, singular or indefinite matrices, non-converging expectation maximisation, failing estimators and solvers",
  "Tests use parameters for which all loops end quickly.",
  [Q+"bag_generator.py", Q+"optimization.py", Q+"multiclass/em.py", Q+"search.py", Q+"base.py", Q+"ensembles/eoq.py"],
  [("max_iter, tolerance-bounded loops", Q+"multiclass/em.py, "+Q+"search.py"), ("rejection loop of the uniform method", Q+"bag_generator.py"),
   ("jitter loop of the nearest positive definite matrix", Q+"optimization.py")], [], ["number of executed lines, random draws and solver calls per operation"])

PURE = "It is a function of its input alone: tests sample a few inputs with loose thresholds, but no schedule, fault or history is involved."
p("C20", "Metrics equal their published definitions",
  "Every binary, multiclass and ordinal error or distance function returns the value of its documented formula for all prevalence vectors, including zeros and ones at the boundary.",
  ["inputs"], "all pairs of prevalence vectors", PURE, [Q+"metrics/binary.py", Q+"metrics/multiclass.py", Q+"metrics/ordinal.py"], [("closed formulas", Q+"metrics/")])
p("C21", "Distribution-matching quantifiers return the minimiser of their loss",
  "The prevalences returned by every distribution-matching quantifier minimise the stated distance between the testing distribution and the mixture of the class-conditional training distributions over the probability simplex.",
  ["inputs"], "all training and testing distributions, distances HD, L1, L2, energy, Cramer-von Mises, SORD, custom", PURE,
  [Q+"optimization.py", Q+"search.py", Q+"multiclass/df.py", Q+"multiclass/energy.py", Q+"multiclass/friedman.py", Q+"binary/emd.py", Q+"binary/quantiles.py"], [("convex solvers and golden-section search", Q+"optimization.py, "+Q+"search.py")])
p("C22", "Quantifiers are consistent under prior probability shift",
  "If the testing bag is an exact mixture of the class-conditional training distributions, the corrected methods recover the mixing prevalences.",
  ["inputs"], "all identifiable class-conditional distributions and all prevalences", PURE, ALLQ, [("adjustment formulas", "AC, PAC, DF*, ED*, CvM, EM")])
p("C23", "Ordinal classifiers combine binary models by the documented probability rules",
  "Frank-and-Hall, monotone, tree and DDAG classifiers return per-class probabilities given by their documented product and difference rules, with inconsistent cumulative probabilities corrected by averaging.",
  ["inputs"], "all outputs of the binary models", PURE, [Q+"estimators/frank_and_hall.py", Q+"estimators/ordinal_ddag.py"], [("probability recurrences", "predict_proba")])
p("C24", "Decompositions and ensembles aggregate by the documented strategy",
  "One-versus-rest, Frank-and-Hall and ensemble quantifiers combine their members' prevalences by the documented strategy (normalisation, averaged upper/lower cumulative correction, mean, median, prevalence or distribution similarity computed on each training bag).",
  ["inputs", "configurations"], "all member predictions and strategies", PURE, [Q+"decomposition/multiclass.py", Q+"decomposition/ordinal.py", Q+"ensembles/eoq.py"], [("aggregation in predict", "predict")])
p("C25", "Objects follow the scikit-learn parameter contract",
  "Every class can be inspected, printed and cloned through its constructor parameters, and a clone has equal parameters.",
  ["configurations"], "all classes and parameter values", "It has no schedule, fault or history: a parameter read back either equals the one given or not.", ALLQ + ALLE, [("constructor stores parameters", "__init__")])
p("C26", "Histograms and bin edges represent the data",
  "Every bin strategy yields ordered edges covering all values, so that every example of every training and testing sample is counted in exactly one bin.",
  ["inputs"], "all samples, bin counts and strategies", PURE, [Q+"multiclass/df.py"], [("compute_bincuts", Q+"multiclass/df.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
