"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and statements stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DR, SM, PC, RT, MI, ST, DE, IV, EX, PM, MX = ["sureal/" + f for f in (
  "dataset_reader.py", "subjective_model.py", "pc_subjective_model.py", "routine.py", "tools/misc.py",
  "tools/stats.py", "tools/decorator.py", "tools/inverse.py", "experimental.py", "perf_metric.py", "core/mixin.py")]
I, H, C, F, K, S, PR = "inputs", "histories", "configurations", "fault_sequences", "crash_points", "schedules", "programs"
FIX = "The tests read a handful of fixed datasets (NFLX_dataset_public_raw and a few relatives) and compare a few numbers; "

p("C01", "Every vote of a dataset reaches exactly the table cell it belongs to",
  "For every accepted raw-score dataset, the score table has one row per distorted video in dataset order, one column per observer (list position, or sorted observer name when votes are keyed by name) and one layer per repetition, and each cell holds exactly the vote given for it. Votes and repetitions that were not given are missing values, never zeros or somebody else's vote. The reported numbers of videos, contents, observers and repetitions, the content of each video and which videos are the reference itself agree with the dataset.",
  [I], "all datasets: list, tuple or name-keyed votes, ragged repetitions, missing votes, any order of ids",
  FIX + "ragged repetitions, mixed containers, >10 observers and unordered ids are not combined.",
  [DR], [("RawDatasetReader score table", DR + ": RawDatasetReader.opinion_score_3darray"), ("observer and repetition counts", DR + ": RawDatasetReader._get_num_observers, _get_max_repetitions"), ("reference flags", DR + ": DatasetReader.disvideo_is_refvideo")])

p("C02", "Malformed datasets and contradictory options are refused, never scored",
  "A dataset with a distorted video without opinion scores, with scores that are not a list, tuple or mapping, with list votes of unequal length, or with a video of unknown content is refused, and so is a paired-comparison dataset with out-of-range asset ids or outcomes other than win, tie, loss. A modelling request that is contradictory (z-scoring with bias removal, a rejection type without rejection, rejection inside a maximum-likelihood or least-squares model, repeating a step the method already does, repeated votes in methods that do not support them, differential scores without exactly one reference video per content) raises an error instead of returning scores. An unknown model name, unknown rejection type, unknown gradient method or unsupported file type likewise raises. Switching a step off explicitly is no contradiction: it equals not mentioning it.",
  [I, C], "all malformed datasets of the listed kinds and all contradictory option sets",
  "The tests try three malformed datasets; the option matrix is not crossed with the models.",
  [DR, SM, PC, MX, RT], [("dataset validation", DR + ": _assert_dataset of the three readers"), ("option validation", SM + ": run_modeling overrides and _get_opinion_score_3darray_with_preprocessing"), ("model lookup", MX + ": TypeVersionEnabled.find_subclass")])

p("C03", "Modelling and exporting never change their input or depend on history",
  "Running any model, conversion or export leaves the dataset, the reader and the option values it was given exactly as they were. The result of a model depends only on the dataset and the options: repeating a run on the same objects, running other models, exports or failed runs in between, or a different state of the global random generators gives the same result as a first run in a fresh state. Results returned earlier do not change later.",
  [I, H], "all datasets, all models, all sequences of runs, conversions, exports and refused runs on shared objects",
  "Each test builds fresh objects and makes one call; sequences over shared objects are never run.",
  [DR, SM, PC], [("preprocessing works on copies", SM + ": _get_opinion_score_3darray_with_preprocessing"), ("conversions copy", DR + ": to_* methods"), ("cached table of comparisons", DR + ": PairedCompDatasetReader.opinion_score_3darray")])

p("C04", "The same study gives the same result in every file format and vote style",
  "A study expressed with list votes, tuple votes or votes keyed by observer name, as a Python file, a JSON file or an in-memory object, with a missing vote left out or given as NaN, produces the same scores (observers compared by name). Loading a dataset file yields exactly what that file contains, whatever files were loaded before and even if they have the same name, and never alters datasets already loaded.",
  [I, H], "all studies and representations, all histories of loads of distinct, rewritten and same-named files",
  "Tests load each fixed file once; equal-named files, reloads and cross-format agreement are not exercised.",
  [MI, DR, RT], [("python loading", MI + ": import_python_file"), ("json loading", MI + ": import_json_file"), ("dispatch on extension", RT + ": run_subjective_models")])

p("C05", "MOS-type scores equal their published definitions on any data",
  "For every dataset and for every combination of differential scoring, z-scoring and final normalisation or polynomial transform, the mean-opinion-score family reports the mean of the (transformed) available votes of each video, with sample standard deviation, standard error and 95% interval computed from the number of votes actually present. Differential scores are vote + reference score - mean vote of that content's own reference video, z-scores are standardised per observer over that observer's available votes, and the LIVE variant rescales z-scored differences by (z+3)*100/6.",
  [I, C], "all datasets with missing votes and repetitions, all option combinations",
  FIX + "no test combines missing votes, repetitions and options.",
  [SM], [("preprocessing", SM + ": _get_opinion_score_3darray_with_preprocessing"), ("mean and spread", SM + ": MosModel._get_mos_and_stats"), ("final transform", SM + ": _postprocess_model_result")])

p("C06", "Subject rejection follows BT.500 and the correlation rules exactly",
  "With kurtosis rejection an observer is rejected exactly when the share of outlying votes (2 or sqrt(20) standard deviations depending on whether the kurtosis of a video's votes lies in [2,4]) exceeds 5% of the presentations and is balanced to within 30%; with correlation rejection exactly when the correlation of the observer's repetition-averaged scores with the mean scores does not exceed min(0.7, mean minus standard deviation of all correlations). Reported flags and both statistics agree with the rule, the scores are those of the remaining observers only, and when kurtosis rejection would reject everybody nobody is rejected.",
  [I, C], "all datasets, all rejection types, with or without differential scoring, z-scoring or bias removal, missing votes and repetitions",
  FIX + "few of them reject anybody, and none is at a decision boundary.",
  [SM], [("rejection", SM + ": _get_opinion_score_3darray_with_preprocessing, subject_rejection branch"), ("models", SM + ": SubjrejMosModel and relatives")])

p("C07", "P.913 bias removal removes each observer's mean offset and nothing else",
  "For every dataset, the estimated bias of an observer is the mean over that observer's available votes of vote minus the video's mean score, and the bias-removed scores are the means of votes minus that bias, with spread and intervals computed from the bias-removed votes. On complete data bias removal leaves the mean scores unchanged. Rejection, where requested, is decided after bias removal, while biases are still reported for every observer.",
  [I, C], "all datasets with missing votes and repetitions; bias-removing models alone and combined with each rejection type",
  FIX + "unbalanced missing votes (where the estimate differs from a plain mean) are not checked against the definition.",
  [SM], [("bias offset", SM + ": _get_opinion_score_3darray_with_preprocessing, bias_offset branch"), ("models", SM + ": BiasremvMosModel and relatives")])

p("C08", "The P.910 solver returns the self-consistent solution with its intervals",
  "For every dataset the recovered quality, bias and inconsistency satisfy together the defining equations (quality = mean of bias-corrected votes weighted by inverse squared inconsistency, bias = mean residual, inconsistency = standard deviation of residuals) and equal the solution reached from mean opinion scores by alternating these steps. Standard deviations and intervals follow the documented formulas (per-observer or per-video residual spread, chi-square intervals for inconsistency, 1.95996 times the deviation elsewhere), using only votes present. With the default option the biases average to zero and only the common offset moves between bias and quality.",
  [I, C], "all datasets with missing votes and repetitions, all variants of the solver, zero-mean option on and off",
  FIX + "a fixed point can only be judged by evaluating the equations on each new dataset.",
  [SM], [("alternating projection", SM + ": SubjectMLEModelProjectionSolver._run_modeling"), ("per-video deviation variant", SM + ": SubjectMLEModelProjectionSolverAltSubjStdMixin")])

p("C09", "The ML models return a stationary point of their own likelihood",
  "For every dataset on which the maximum-likelihood models converge, the gradient of the votes' Gaussian log-likelihood (variance = squared observer inconsistency plus squared content ambiguity) vanishes at the returned quality, bias, inconsistency and ambiguity, the likelihood is not below that of the mean-opinion-score starting point, and inconsistencies and ambiguities are non-negative. The content-oblivious and subject-oblivious variants hold the disabled parameters at zero and solve the rest, and the simplified, original and numerical gradient methods agree. Standard deviations equal the inverse square root of the curvature, and zero-mean bias only shifts a common offset between bias and quality.",
  [I, C], "all datasets, three modes, three gradient methods, zero-mean option on and off, missing votes and repetitions",
  FIX + "optimality on other data, other modes and other gradient methods is not evaluated.",
  [SM], [("Newton iterations", SM + ": MaximumLikelihoodEstimationModel._run_modeling"), ("likelihood", SM + ": MaximumLikelihoodEstimationModel.loglikelihood_fcn")])

p("C10", "Least-squares and legacy ML models solve the additive observer model",
  "On complete data the least-squares model returns qualities and biases that minimise the squared residuals of vote = quality + bias with the first video anchored at its mean score. The legacy maximum-likelihood model, where it converges, returns a stationary point of the observer-only Gaussian likelihood that agrees with the content-oblivious model on complete data. Both refuse repeated votes and subject rejection.",
  [I], "all complete datasets without repetitions; the legacy model with both of its parametrisations",
  FIX + "one of them for each of these models.",
  [SM], [("least squares", SM + ": LeastSquaresModel"), ("legacy ML", SM + ": LegacyMaximumLikelihoodEstimationModel")])

p("C11", "Results follow relabelling, reordering, shifts and rescaling of the votes",
  "For every model, permuting the videos permutes the video results, permuting or renaming the observers permutes or renames the observer results, and renumbering contents or asset ids changes nothing else. Adding a constant to all votes adds it to the quality scores (differential and z-scored ones stay as they are) and leaves biases, inconsistencies, rejections and intervals unchanged, and scaling all votes by a positive factor scales scores, biases, inconsistencies and intervals by it. Adding a constant to one observer's votes moves that observer's bias and, in the models that estimate bias, leaves relative qualities unchanged.",
  [I, C], "all datasets, all models and option combinations, all permutations, renamings, shifts and scalings",
  "No test runs a model twice on related inputs.",
  [SM, DR], [("all models", SM + ": _run_modeling of every model"), ("observer order", DR + ": _get_list_observers")])

p("C12", "Goodness-of-fit statistics and reconstructions are what they claim to be",
  "For every dataset the reported log-likelihood per vote is that of the votes under the returned parameters, the degrees of freedom are the documented parameter count divided by the number of votes given, and AIC and BIC follow from those two. Reconstructions are the model's prediction (quality, plus bias where the model has one) for every cell, the reported raw scores are the votes the model actually used, observer means and deviations are those of the observer's votes, and the reconstruction statistics are the RMSE and correlations between the two over cells with a vote.",
  [I, C], "all datasets with missing votes, repetitions and rejected observers; every model that reports these",
  FIX + "with missing votes, repetitions or rejections at most one of the numbers is checked.",
  [SM, RT], [("MOS statistics", SM + ": MosModel._get_mos_and_stats"), ("ML statistics", SM + ": tail of _run_modeling"), ("P.910 statistics", SM + ": SubjectMLEModelProjectionSolver"), ("reconstruction statistics", RT + ": run_subjective_models")])

p("C13", "Models recover known ground truth and their intervals cover it",
  "On data simulated from known quality, bias, inconsistency and ambiguity, the bias-aware models recover all of these (inconsistency and ambiguity up to the common variance that votes cannot separate) with errors that shrink with more votes and are no worse than plain averaging, single unreliable observers are identified by their inconsistency, and damage by spammers is smaller than for plain averaging. The 95% intervals of quality, bias and inconsistency contain the truth about 95% of the time. Adding observers narrows the intervals roughly with the square root of their number.",
  [I], "all ground truths in realistic ranges, all random draws (statistical margins of at least six standard errors)",
  "The tests use one synthetic draw with fixed expectations; coverage over draws is not measured.",
  [SM, DR], [("P.910 / ML estimators", SM), ("synthetic data", DR + ": SyntheticRawDatasetReader")])

p("C14", "Exported datasets carry the right score on the right video",
  "Exporting after modelling gives every distorted video of the dataset its own quality score and standard deviation, drops the raw votes, keeps every other field of videos, references and dataset, applies content and asset filters and quality-size or resampling overrides exactly as asked, and changes nothing in the source. Per-observer export yields one entry per vote present, in order, with that vote. Exporting before modelling is refused.",
  [I, C], "all datasets, models, filters and overrides; list and name-keyed votes, missing votes",
  FIX + "filters and overrides are tried once each, and never with ids that differ from positions.",
  [DR, SM], [("aggregated export", DR + ": to_aggregated_dataset"), ("per-observer export", DR + ": to_persubject_dataset"), ("model side", SM + ": SubjectiveModel.to_aggregated_dataset")])

p("C15", "A dataset written to a file reads back as the same dataset",
  "For every dataset the library can produce (aggregated, per-observer, paired-comparison, combined, name-keyed, simulated or as loaded), the written file can be loaded again and every field is equal: votes, scores, standard deviations including NaN and infinite values, repetitions, tuple keys, text with quotes, newlines or non-ASCII characters. Modelling the reloaded dataset gives the same results as modelling the original.",
  [I], "all datasets and export kinds, including special floating-point values and special characters",
  "Tests write two well-behaved datasets and only count entries.",
  [DR], [("writer", DR + ": DatasetReader.write_out_dataset"), ("simulated datasets", DR + ": MockedRawDatasetReader.to_dataset"), ("loader", MI + ": import_python_file")])

p("C16", "The structured output and the command line report exactly the model results",
  "For any dataset and any list of models, the formatted output and the JSON written or printed by the command-line tools contain for every video, observer and content, in order and under its own name, each model's numbers exactly as the model computed them, and for each model its AIC and BIC. Asking for several models at once gives each the result it has when run alone. Mixing paired-comparison and rating models or naming an unknown model is refused, and plotting options only add files.",
  [I, C], "all datasets, model subsets and orders, output options, both command-line programs",
  "Tests run the command line on two datasets and check for success.",
  [RT, "sureal/__main__.py", "sureal/cmd_deprecated.py"], [("runner", RT + ": run_subjective_models"), ("formatter", RT + ": format_output_of_run_subjective_models"), ("command line", "sureal/__main__.py: main")])

p("C17", "Paired comparisons are counted for the right pair, direction and observer",
  "For every paired-comparison dataset, whatever the order of its videos, the comparison table holds for each observer and pair the outcome for the row video and its complement for the column video, and missing values for pairs that observer did not judge. The same holds for the counts of videos and observers.",
  [I], "all paired-comparison datasets: unordered videos, ties, losses, partial designs, outcomes recorded on either video",
  FIX + "all with videos in asset order.",
  [DR], [("comparison table", DR + ": PairedCompDatasetReader.opinion_score_3darray"), ("observer list", DR + ": PairedCompDatasetReader._get_list_observers")])

p("C18", "Converting ratings to paired comparisons preserves every preference",
  "Without sampling, converting a rating dataset yields for every observer and every eligible pair (same content, or any pair when asked) both of which the observer rated exactly one outcome: a win for the higher-rated video, and for ties half a point each or one random winner as asked; no other outcome appears. Sampling rates, coin-toss rates, noise levels and per-video parameters act on the pairs of the videos they were given for (rate zero keeps nothing, rate one keeps everything, zero noise and zero coin toss change nothing, larger rates act in proportion) and a seed makes the conversion repeatable. The source dataset is unchanged.",
  [I, C], "all rating datasets, list or name-keyed, with missing votes; all parameter combinations",
  "Tests count the outcomes of a few conversions of one dataset.",
  [DR], [("conversion", DR + ": RawDatasetReader.to_pc_dataset")])

p("C19", "Paired-comparison models return the maximum-likelihood scale",
  "For every connected design both Bradley-Terry solvers return the maximiser of the Bradley-Terry likelihood (equal to each other up to the choice of origin), and the Thurstone model the maximiser of its likelihood, with quality order invariant to relabelling; half-point ties count half. Reported standard deviations, covariances and intervals follow from the curvature of the likelihood under the sum constraint, probabilities sum to one, and z-scored output has mean zero and unit deviation.",
  [I, C], "all connected comparison counts, with ties, partial designs and unbalanced counts",
  "Tests compare a few values on one dataset and one 4x4 matrix.",
  [PC], [("Newton-Raphson", PC + ": BradleyTerryNewtonRaphsonPairedCompSubjectiveModel"), ("minorise-maximise", PC + ": BradleyTerryMlePairedCompSubjectiveModel.resolve_model"), ("Thurstone", PC + ": ThurstoneMlePairedCompSubjectiveModel.resolve_model")])

p("C20", "Simulated, thinned, selected and corrupted data match their specification",
  "A simulated dataset is distributed as quality + observer bias + content bias plus observer, content and video noise of the specified deviations, and is repeatable under a seed; random thinning removes votes with the given probability and changes no other vote. Selecting observers or videos keeps exactly those, in the order asked and with their own votes, ids and names. Corrupting touches only the selected observers (and about the given share of their votes) in the way named - shuffling keeps each observer's own votes, flipping mirrors the scale, minimum, middle, maximum and constant overwrite - and the simulated dataset re-read gives the same votes.",
  [I, C], "all source datasets and all simulation parameters",
  FIX + "with list votes and ids equal to positions.",
  [DR], [("simulation readers", DR + ": SyntheticRawDatasetReader ... CorruptDataRawDatasetReader")])

p("C21", "Performance metrics equal their definitions and invariances",
  "For all paired sequences of ground truth and predictions the RMSE, Pearson, Spearman and Kendall metrics return the defined statistic, with raw-score lists aggregated per item by the chosen method. Correlations are symmetric under the documented invariances (increasing affine maps, increasing maps for rank metrics), the optional sigmoid mapping (the logistic whose inverse is the least-squares line of the predictions on the logits of the ground truth) maps predictions monotonically into the ground-truth range (widened by 0.1) before scoring, and sequences of different lengths are refused.",
  [I, C], "all sequences, with ties, negative correlation and raw-score ground truth",
  "Tests evaluate one ten-element example per metric.",
  [PM], [("metrics", PM + ": PerfMetric subclasses"), ("mapping", PM + ": AggrScorePerfMetric.sigmoid_adjust")])

p("C22", "Densities integrate to one, convolve correctly, and inverses invert",
  "The Gaussian, logistic and sum-of-two-uniforms densities and the numerical convolution of two densities equal the true densities for all locations and scales, are non-negative and integrate to one, also when evaluated on arrays. Histograms, empirical distributions and weighted means account for every non-missing sample. The numerical inverse of a strictly monotonic function satisfies f(inverse(y)) = y on the whole image of its domain and refuses values outside it, impossible intervals, and functions whose values at its two reference points are equal.",
  [I], "all locations, scales, evaluation points and monotonic functions of the supported kinds",
  "Doctests evaluate eleven points, all with zero locations.",
  [ST, IV], [("densities", ST), ("inverse", IV + ": inversefunc")])

p("C23", "Parallel mapping equals sequential mapping under any schedule",
  "For any function and any list, tuple or iterator of arguments, the parallel map returns the results in argument order, evaluates each argument exactly once, and never runs more than the given number of workers at a time. This holds whatever the order in which workers finish and for non-picklable functions and arguments. A worker that fails or dies makes the call fail rather than return a wrong or shifted result.",
  [S, F, I], "all completion orders, worker counts, argument iterables and worker failures",
  "One test maps over a short list without varying completion order or failing a worker.",
  [MI, ST], [("process-per-item map", MI + ": parallel_map")])

p("C24", "Persistent caches return the right value and survive failures",
  "A function with JSON values cached on disk returns for each tuple of plain arguments (numbers, strings, and lists or dictionaries of them) the value the function computes for it, computes it at most once across calls and across processes that start later, and never returns the value of other arguments, also when several processes use the cache at once. If computing or writing a value fails (also because it cannot be stored) or the process is killed at any point, later calls still return correct values. In-memory caches keep objects apart.",
  [K, F, H], "all argument sequences, all interruption points of a cache write, all unserialisable or failing results",
  "No test exercises the caches.",
  [DE, RT], [("file and directory caches", DE + ": persist_to_file, persist_to_dir"), ("memory cache", DE + ": memoized"), ("user", RT + ": _get_sample_stats_wrapper_persistent")])

p("C25", "Combining two studies keeps all votes of the shared videos and nothing else",
  "Combining two studies yields exactly the videos whose paths occur in both, each with all votes of both studies under the observers' names, votes of an observer who took part in both kept as repetitions in order, and references renumbered consistently with their videos. Converting to name-keyed votes names the observers distinctly, keeps every vote, and leaves results unchanged. Both carry the requested quality-size options, in memory and in the written file. The two source studies are unchanged.",
  [I, H], "all pairs of studies: list or name-keyed, overlapping observers, existing repetitions, partial overlap",
  "Tests combine two fixed pairs once and check a few entries.",
  [DR], [("combination", DR + ": to_combined_overlap_dataset"), ("name-keyed conversion", DR + ": to_dictionary_style_dataset")])

p("C26", "Plots show exactly the computed numbers on the right item",
  "For every dataset and model, every plotted mark stands for a number of the results: quality scores with their own intervals (also when sorted), biases, inconsistencies and ambiguities with their intervals and labels, the raw-score and residual images, and the vote-count bubbles, each at the position of the video, observer or content it belongs to. Plotting changes no result, and writing the plots to a folder writes every open figure.",
  [I, C], "all datasets, models, plot selections, bar and error-bar styles, sorted and unsorted",
  "Tests only check that plotting does not fail.",
  [RT], [("plots", RT + ": run_subjective_models"), ("winning-rate image", RT + ": visualize_pc_dataset"), ("writing the figures", "sureal/config.py: DisplayConfig.show")])

p("C27", "Bootstrapped intervals enclose the resampled estimates",
  "The bootstrapped models report the same point estimates as the plain model and intervals that are the 2.5% and 97.5% points of estimates recomputed on resampled observers (for quality) or resampled videos (for bias and inconsistency), aligned to remove the arbitrary common offset. They are repeatable, work whatever the order and numbering of the videos, and can be switched off separately.",
  [I, C], "all datasets (list or name-keyed, ids in any order), resample counts and switches",
  "One test runs it on one dataset whose ids equal positions.",
  [EX, DR], [("bootstrap", EX + ": MaximumLikelihoodEstimationModelWithBootstrapping")])

p("C28", "The standards' demo programs and the CSV converter agree with the package",
  "On every table of ratings the stand-alone P.910, P.913 and BT.500 demonstration programs compute the same quality, standard error, bias and inconsistency values as the package's P.910 solver. The CSV converter yields a dataset with exactly the table's videos, contents, observers and ratings (fractional ratings kept, empty cells left out), which the package reads and scores as if entered directly.",
  [I], "all rating tables, including missing ratings and repetitions where the program supports them",
  "No test runs the programs; their READMEs show one sample table.",
  ["itut_p910_demo/demo_p910.py", "itut_p913_demo/demo.py", "itur_bt500_demo/demo_bt500.py", "resource/util/mos_to_sureal.py"], [("demo solvers", "itut_p910_demo/demo_p910.py: run_alternating_projection and siblings"), ("converter", "resource/util/mos_to_sureal.py: convert_file")])

p("C29", "Model names resolve to exactly the method they stand for",
  "Every published model name resolves to exactly one model whose result equals the composition of steps its name stands for: the standards' names (BT500, P913, P910) equal rejection-only, bias-removal-plus-rejection and the P.910 solver; the prefixed names equal plain scoring with z-scoring, rejection, differential scoring or bias removal switched on; the alternative names of one method agree exactly. Results of a name do not depend on which other models were used or imported.",
  [I, C, H], "all names, all datasets, all option combinations, any import order",
  "Each name is tested on its own with its own expected numbers; equalities between names are not checked.",
  [SM, MX, "sureal/__init__.py", EX, PC], [("lookup", MX + ": find_subclass"), ("aliases", "sureal/__init__.py, " + SM + ": option-setting subclasses")])

p("C30", "Restricting a study gives the result of the restricted study",
  "Loading a dataset file restricted to some contents or assets gives the same results as a file containing only those videos, and leaves other loads of the same file unrestricted. For models without cross-video coupling, restricting the videos leaves the results of the remaining ones unchanged, and a vote added to one video changes only what depends on that video. Observers or videos that are removed leave no trace in any result.",
  [I, C, H], "all datasets, content and asset subsets, models, sequences of differently restricted loads",
  "Two tests restrict one dataset and count videos.",
  [SM, DR], [("filter on load", SM + ": _import_dataset_and_filter, from_dataset_file"), ("selection readers", DR + ": SelectSubjectRawDatasetReader, SelectDisVideoRawDatasetReader")])

p("C31", "Validation routines report the true agreement with ground truth",
  "Validating models on simulated data runs each model on the data that was simulated (and thinned, and written out, when asked) and reports for each the share of ground-truth values lying inside the reported intervals. Comparing models on fractions of the observers uses that share of distinct observers, the same ones for the same seed, and reports results equal to running the model on them, for list and name-keyed votes alike. Scatter plots and statistics show the scores of the two models named.",
  [I, C], "all ground truths, models, thinning probabilities, fractions and seeds",
  "Tests run the routines once with one seed and compare two numbers.",
  [RT, DR], [("validation", RT + ": validate_with_synthetic_dataset, get_ci_percentage"), ("fractions", RT + ": get_sample_stats")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
