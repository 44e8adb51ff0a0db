"""The properties and how each is decided."""
ST, D = "instancespace/stages/", "instancespace/data/"
VG = "value-graph comparison by abstract interpretation of the source (global value numbering against reference definitions)"
VGN = ("Sound for the normal form: every claimed observable of the entry point is reduced to a hash-consed value graph over symbolic inputs, for all "
       "shapes and values, and must coincide with the graph of a hand-written definition; differences that the normal form cannot decide are reported as "
       "undecided in the evidence and raise no alarm. Trusts the model of Python, numpy and pandas operations, and treats library numerics as pure functions of their arguments.")
EFF = ("Reports only constructs shown to violate the rule (a missing or None seed, a flow from a source to a result, an in-place change of something the caller holds, a write reached from building); "
       "what the analysis cannot follow (arguments unpacked from dictionaries, caches keyed by their content) is undecided and raises no alarm. Trusts the tables of library functions that draw, read clocks, write or change settings.")
LATER = "not claimed: the check for it has not been built"


def prop(id, title, statement, over, text, why, files, mech, observe):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}


I, C, H, SCH, F = "inputs", "configurations", "histories", "schedules", "fault_sequences"

PROPS = [
    prop("P01", "Rows stay aligned: every per-instance output keeps the same instances in order",
         "Cleaning and instance selection apply one and the same row selection, in table order, to features, performances, their raw copies, the good/best/difficulty results, instance labels and sources. "
         "Exactly the rows whose features are all missing or whose performances are all missing are dropped by cleaning; afterwards exactly the instances chosen by the enabled selection option (random fraction with a fixed seed, 1-based positions listed in a file, density filter, in that precedence) are kept. "
         "When density selection is enabled the unselected data is kept alongside in full.",
         [I, C], "all metadata tables (any missing-value pattern, with or without sources) and all combinations of selection options",
         "Tests use a handful of fixed tables whose filtered arrays happen to have the right size; a mask applied to all but one output, or in another order, yields arrays of plausible shape.",
         [ST + "preprocessing.py", ST + "prelim.py"], [("missing-value row filter", ST + "preprocessing.py remove_instances_with_many_missing_values"), ("subset selection", ST + "prelim.py _filter")],
         ["outputs of the preprocessing and preliminary stages"]),
    prop("P02", "Columns stay aligned with their labels",
         "Restricting features or algorithms keeps exactly the requested names that exist, in table order, and keeps the matching matrix columns (all of them when none of the requested names exists). "
         "A feature is dropped exactly when at least 20 percent of its remaining values are missing, and its label is dropped with it. The raw copies handed on equal the cleaned matrices.",
         [I, C], "all tables, all lists of requested names (including unknown names, other orders, empty or absent lists) and all missing-value patterns",
         "Tests use one selection whose order equals the table order, so a label list and a matrix built in different orders look the same.",
         [ST + "preprocessing.py"], [("name-based column selection", ST + "preprocessing.py select_features_and_algorithms"), ("missing-value column filter", ST + "preprocessing.py remove_instances_with_many_missing_values")],
         ["outputs of the preprocessing stage"]),
    prop("P03", "Performance classification follows the documented rule in every option setting",
         "For every instance the best performance is the maximum (or minimum, when costs are compared) over algorithms with missing values ignored, an algorithm is good exactly when it reaches the absolute threshold or lies within the relative threshold of the best, and never when its value is missing. "
         "The best algorithm reported is the first, in column order, that attains the best value, the number of good algorithms is the count of good entries, and an instance is flagged easy exactly when that count exceeds the required share of algorithms.",
         [I, C], "all performance tables including ties, zeros, negative and missing entries, under every combination of maximise/minimise and absolute/relative",
         "The tests pin one dataset per option combination with few ties and no zero or missing bests; comparison direction, tie handling and missing entries are sampled, not covered.",
         [ST + "prelim.py"], [("binary classification and best algorithm", ST + "prelim.py prelim")], ["good/best/tie/difficulty outputs of the preliminary stage"]),
    prop("P04", "Bounding and normalisation act as recorded and leave raw data untouched",
         "With bounding on, every feature value is clipped to median plus or minus five interquartile ranges of its own column, and the recorded medians, ranges and bounds are those used; with bounding off the features pass unchanged. "
         "With normalisation on, each feature and performance column is shifted to be positive, Box-Cox transformed and standardised over its present values, and the recorded shift, exponent, mean and standard deviation are exactly the ones applied to that column; missing entries stay missing. "
         "With an option off, nothing of that step is applied.",
         [I, C], "all feature and performance tables, including missing entries, under every combination of the bounding and normalisation options",
         "Tests compare a few complete columns to stored numbers; they cannot show that the recorded parameter of every column is the one used, nor the behaviour with missing entries.",
         [ST + "prelim.py"], [("outlier bounds", ST + "prelim.py _bound"), ("Box-Cox and z-score", ST + "prelim.py _normalise")], ["outputs of the preliminary stage"]),
    prop("P05", "Feature selection keeps the features it says it keeps",
         "Correlation of each feature with each algorithm uses only instances where both are present and counts as zero when insignificant (p above 0.05) or undefined. Kept are, for every algorithm, its most correlated feature and every feature whose absolute correlation reaches the threshold; "
         "clustering then keeps, out of these, the one combination (one feature per cluster) that the search reports as best, where a combination is scored on exactly the features it decodes to. "
         "selvars and idx name the kept columns of the incoming table, x holds those columns, and feat_labels their names, in the same order; per-instance outputs are unchanged, or, with density selection, taken from the unselected data by one common row selection computed on the kept features. "
         "With the step disabled or at most three features everything passes through; with at most one feature left the stage refuses to continue.",
         [I, C], "all feature and performance tables and all option settings of the stage",
         "The search is stochastic and slow, so tests pin one run with mocked parts; a position in the reduced table used as a column of the full one goes unnoticed when nothing was dropped before.",
         [ST + "sifted.py"], [("correlation filter", ST + "sifted.py select_features_by_performance"), ("combination search", ST + "sifted.py _find_best_combination, cost_fcn"), ("stage result", ST + "sifted.py _sifted")],
         ["outputs of the feature selection stage"]),
    prop("P06", "The projection is internally consistent",
         "Z equals the features times the transpose of A; B and C are the feature and performance parts of one reconstruction matrix; error is the sum of squared residuals of features and performances together, and R2 the squared correlation of every column with its reconstruction. "
         "In numerical mode the starting points reported are the ones used (given, or drawn from a fixed seed), trial i starts at column i and its solution, objective value and distance correlation are recorded at i, and the solution reported is the trial with the highest distance correlation; a pre-calculated solution of the right size is used as it is. "
         "The summary shows A with one column per feature, under that feature's name.",
         [I, C], "all feature and performance matrices, feature names and projection options",
         "Tests compare results of one dataset to stored numbers from the reference implementation within tolerances; trial bookkeeping and user-supplied starting points are hardly exercised.",
         [ST + "pilot.py"], [("projection", ST + "pilot.py pilot, analytic_solve, numerical_solve, error_function")], ["outputs of the projection stage"]),
    prop("P07", "The boundary of the space is drawn from all corners and only possible ones",
         "Every combination of the smallest and the largest value of each feature is a corner, each exactly once. A corner is impossible exactly when two of its features have opposite signs although their correlation exceeds the threshold, or the same sign although it lies below minus the threshold, "
         "where correlations that are not significant at the given p-value count as zero. The outer boundary is the convex hull of the projection of all corners, the inner one that of the possible corners; a hull that cannot be computed is empty with two columns, and an empty inner boundary is replaced by the outer one.",
         [I, C], "all feature matrices, projection matrices and boundary options",
         "Tests use one small feature matrix; a pair of features or a corner that is skipped changes nothing unless it decides the hull.",
         [ST + "cloister.py"], [("corners and their removal", ST + "cloister.py _generate_boundaries"), ("hull and its failures", ST + "cloister.py _compute_convex_hull")],
         ["outputs of the boundary stage"]),
    prop("P08", "Each prediction model is trained, tested and recorded under its own algorithm",
         "The projected coordinates are standardised (their mean and deviation reported as mu and sigma) and, for algorithm i, one support vector machine is searched on the good/bad labels of column i with the weights of column i, the folds, kernel, search and pre-computed parameters given by the options; "
         "column i of the predictions and probabilities (cross-validated: y_sub, pr0_sub; on the training data: y_hat, pr0_hat), row i of the confusion counts (true negatives, false positives, false negatives, true positives of the cross-validated predictions) and entry i of the models, "
         "box constraints, kernel scales, accuracies, precisions and recalls all describe that model. Every source of randomness is seeded.",
         [I, C], "all coordinates, performance tables, labels and options",
         "Training is slow and stochastic, so tests compare a handful of stored numbers within tolerances; a column of another algorithm, or an in-sample prediction in place of a cross-validated one, stays within them.",
         [ST + "pythia.py"], [("training loop", ST + "pythia.py pythia"), ("model search", ST + "pythia.py _fitmatsvm")], ["outputs of the prediction stage"]),
    prop("P09", "Selection takes the most precise good-predicting model, and the summary says so",
         "For every instance the selected algorithm is, among those predicted good, the one whose model has the highest precision; where none is, selection0 is -1 and selection1 the algorithm that is good most often. "
         "The summary has one row per algorithm, then the rows Oracle and Selector: mean and deviation of performance over all instances and over the selected ones (those its model predicts good), rate of being good, and the accuracy, precision, recall and parameters recorded for that algorithm; "
         "the selector's performance over all instances and its rate of being good follow selection1, its performance over selected instances, precision and recall selection0. No input table is changed by computing it.",
         [I, C], "all predictions, precisions and performance tables",
         "The table's selector row depends on every prediction; tests compare it for one dataset, where several different masks give the same number.",
         [ST + "pythia.py"], [("selection", ST + "pythia.py _determine_selections"), ("summary", ST + "pythia.py _generate_summary")], ["outputs of the prediction stage"]),
    prop("P10", "Footprints are built from the right points",
         "TRACE gives, for every algorithm, a good footprint built from the instances where it is good and a best footprint built from the instances it is selected for (predictions and selection0 with use_sim, measured values and the measured winner without), a space footprint from all instances and a hard footprint from the instances that are not beta, whatever the order in which parallel workers finish. "
         "A footprint is the union of the shapes of the density clusters of the distinct marked points (neighbour threshold: a twentieth of the marked instances, between 3 and 50), fewer than three distinct points give an empty one; from a shape every triangle with a share of marked instances below the purity option is removed, unless all instances are marked; "
         "its elements are the instances inside, good elements the marked ones inside, density and purity their ratios to area and elements. The summary has one row per algorithm with these figures, also relative to the space.",
         [I, C], "all point sets, markings, purity thresholds and worker counts",
         "Tests run the stage on one dataset of 212 points with default options; caps, repeated points, empty clusters and completion orders never arise there.",
         [ST + "trace.py", D + "model.py"], [("footprint construction", ST + "trace.py build, fit_poly, dbscan"), ("footprint figures", D + "model.py Footprint.from_polygon")], ["outputs of the footprint stage"]),
    prop("P11", "Contradicting footprint areas go to the purer algorithm",
         "For every pair of algorithms the area common to their best footprints is taken away from the one whose instances are the smaller share of the instances in it, and left alone where the shares are equal; what remains is refitted around the algorithm's own instances, each separate part on its own, and this is repeated at most three times, ending when nothing is common or one is empty. The figures of both are then recomputed from the final shapes with their own instances.",
         [I, H], "all pairs of footprints and all sequences of refits",
         "Which branch is taken depends on geometry; ties, split shapes and third rounds do not occur in the test dataset.",
         [ST + "trace.py"], [("contradiction resolution", ST + "trace.py contra"), ("refit", ST + "trace.py tight")], ["best footprints of the footprint stage"]),
    prop("P12", "The similarity filter drops and flags by distance, performance and goodness",
         "Going through the instances in order, each one not yet dropped is compared with every later one not yet dropped; a later one whose feature distance is at most min_distance is marked not dissimilar and then, by the filter type, dropped (Ftr), or dropped and unflagged when it is also alike and otherwise kept and flagged VISA: alike means performance distance at most min_distance*sqrt(algorithms/features) (Ftr&AP), every algorithm good on both (Ftr&Good), or both (Ftr&AP&Good). "
         "Dropped instances never cause another to be dropped or flagged. The uniformity is 1 minus the ratio of the sample standard deviation to the mean of the nearest neighbour distances among the instances that remain.",
         [I, H], "all feature and performance matrices, distances and filter types",
         "What happens to an instance depends on the whole sequence of comparisons before it; tests compare three stored datasets.",
         ["instancespace/utils/filter.py"], [("pairwise selection", "instancespace/utils/filter.py filter_instance"), ("uniformity", "instancespace/utils/filter.py compute_uniformity")], ["the four results of do_filter"]),
    prop("P13", "Every stage uses, and the model holds, the value of the stage that produced it",
         "The initial inputs carry each metadata table and each option group under its own name, and the preliminary options are those of the performance, bounding and normalisation groups. "
         "From what the default stages declare, the running order is unique, stages run in the same step do not read what another of that step replaces, no stage replaces a value it does not itself read, and every input comes from the intended producer "
         "(cleaned data from preprocessing, classification from the preliminary stage, instance selection and selected features from feature selection, coordinates and projection from PILOT, predictions from PYTHIA). "
         "Each field of the model's data, selection, scaling, projection, boundary, prediction and footprint records is the pipeline output of that name, and the model keeps the options it was built with.",
         [I, C], "all metadata, all options and all stage outputs",
         "Tests build records from one fixture in which many fields share shapes and values, and never run the whole pipeline with settings in which two sources of one name differ.",
         ["instancespace/instance_space.py", "instancespace/model.py", D + "model.py", D + "options.py"] + [ST + f for f in ("preprocessing.py", "prelim.py", "sifted.py", "pilot.py", "pythia.py", "cloister.py", "trace.py")],
         [("initial inputs", "instancespace/instance_space.py _InstanceSpaceInputs.from_metadata_and_options"), ("stage contracts", ST + "*.py _inputs/_outputs"), ("model assembly", "instancespace/model.py Model.from_stage_runner_output")],
         ["initial inputs, declared stage inputs and outputs, fields of the model"]),
    prop("P14", "The running order respects what stages declare",
         "A stage runs once every argument it takes is among the initial inputs or the outputs of stages of earlier steps and every stage it must run after (its own RunAfter, others' RunBefore) has run, and in the first step in which that is so, except that a stage which replaces an argument (declares it as input and output) goes before the other stages that could run in the same step and read it. "
         "Two stages that would run in one step and replace, or give, the same argument are refused as ambiguous; a stage added twice, a RunBefore or RunAfter among outputs, and stages that can never run are refused as well. Restrictions never count as arguments. "
         "A runner refuses a given order in which some stage takes an argument that is neither initial nor an output of an earlier step.",
         [I, H], "all sets of stages and all declared inputs, outputs and restrictions",
         "Tests order two stages in one chain; restrictions, mutating stages and conflicts are never exercised.",
         ["instancespace/stage_builder.py", "instancespace/stage_runner.py"],
         [("resolution", "instancespace/stage_builder.py StageBuilder"), ("check of a given order", "instancespace/stage_runner.py StageRunner._check_stage_order_is_runnable")],
         ["the stage order of the built runner", "errors of add_stage, build and StageRunner"]),
    prop("P15", "Running, going back and running again use the data each stage should see",
         "A stage runs only when every stage of all earlier steps has run; it is given the arguments it declares, taken from the values given for this call or else the latest outputs, as copies of its own, and restrictions as None. "
         "When all stages of a step have run the runner moves on and keeps the data of that moment. Running a stage of an earlier step first returns the data to what it was before that step, and no stage of that or a later step counts as run any more. "
         "Values given for one run_stage call affect only that call. run_all and run_iter start over from the initial inputs and run every stage once in order, run_iter yielding each stage with its output; run_until_stage stops after the step holding the stage. "
         "build, run_iter and run_until_stage of an InstanceSpace start from its metadata and options, and its model is always that of the last complete run.",
         [I, H], "all sequences of runner calls, all stage orders, inputs and outputs",
         "Which data a stage sees depends on the whole history of calls; tests run fixed sequences over a handful of stages.",
         ["instancespace/stage_runner.py", "instancespace/instance_space.py"],
         [("running and going back", "instancespace/stage_runner.py StageRunner"), ("facade", "instancespace/instance_space.py InstanceSpace")],
         ["stage inputs, runner results, order of stages run, InstanceSpace.model"]),
    prop("P16", "Exported tables hold what they are named after",
         "save_to_csv writes one table per model value, with the instance labels as rows and the matching feature or algorithm labels as columns: coordinates, raw values of the selected features and processed features, raw, processed and binary performance, numbers of good algorithms, beta mark, measured and predicted portfolio (both counting algorithms from 1, 0 for none), predictions, the boundary points of CLOISTER when there is one, the three summaries, "
         "and for every algorithm with a best (good) footprint the corner points of its outlines, all parts in order, the closing point of the last left out. save_for_web writes the same features and performances as colour levels from 0 to 255, floor of the position between the column minimum and maximum, for the joint performance tables and the number of good algorithms the nearest level between overall minimum and maximum, and the 256 colours themselves. "
         "Both refuse an output path that is not a directory, leave the model as it is and write nothing else.",
         [I], "all models",
         "Tests compare the files for one stored model, in which many columns, labels and shapes could be swapped without a difference.",
         ["instancespace/_serialisers.py", "instancespace/model.py"],
         [("tables", "instancespace/_serialisers.py save_instance_space_to_csv, save_instance_space_for_web"), ("calls", "instancespace/model.py Model.save_to_csv, save_for_web")],
         ["names and contents of the files written"]),
    prop("P17", "Figures, MATLAB file and archive show what they are named after",
         "save_graphs saves one figure per selected feature (values scaled to its range), per algorithm its performance scaled to its own range and, as log10(1+y), to the range over all algorithms, its measured and predicted good and bad instances, and its good footprint over the predictions with use_sim and over the measured marks without; and figures of the share of good algorithms, the measured and the predicted portfolio, the beta mark, the sources when there are any, and the best footprints over the portfolio (predicted with use_sim). "
         "In portfolio figures each algorithm counted from 1 (0: none) with at least one instance has exactly its own instances, label and footprint; a footprint is drawn with all its parts. Every figure opened is closed. "
         "save_to_mat writes the algorithm labels; save_zip stores every file below the folder, except .gitignore and the archive, under output/.",
         [I], "all models",
         "Tests check that the files exist; nothing looks at what is drawn.",
         ["instancespace/_serialisers.py", "instancespace/model.py"],
         [("figures", "instancespace/_serialisers.py save_instance_space_graphs and _draw_*"), ("archive", "instancespace/model.py Model.save_zip")],
         ["names of the files and the points, values, labels and shapes drawn in each"]),
    prop("P18", "Options are read completely, or refused",
         "InstanceSpaceOptions.from_dict reads every field of every section from its own name or its MATLAB spelling (nCores, maxPerf, absPerf, betaThreshold, smallScaleFlag, smallScale, fileIdxFlag, fileIdx, densityFlag, minDistance, type, nTrees, maxIter, nTries, pVal, cThres, cvFolds, isPolyKrnl, useWeights, useLibSVM for use_grid_search, pi for purity, useSim), in any case, with the value as given (also a falsy one); fields and sections that are not given have the documented defaults, those of the default() functions. "
         "It raises ValueError when the contents or a section are not a JSON object, a section is unknown, a section has an unknown field (the field '_' is a comment), or a field is given twice under two spellings. "
         "default() of each options class keeps every value it is given, and of InstanceSpaceOptions every section it is given.",
         [I], "all contents of an options object",
         "Tests read a few files; a field that is dropped, read under the wrong name or silently replaced by its default only shows in the figures computed from it.",
         ["instancespace/data/options.py", "instancespace/data/default_options.py"],
         [("options", "instancespace/data/options.py InstanceSpaceOptions.from_dict, default")],
         ["the options object returned, ValueError"]),
    prop("P19", "Loading metadata and option files",
         "Metadata.from_data_frame takes the instance labels from the column Instances (numbers become text), the sources from the column Source if there is one, features from the columns feature_* and performances from algo_*, names compared without case, in the order of the file, with every row and value as they are. "
         "from_csv_file gives the metadata of the file and None when it is missing, not a file, empty, not CSV or not text; from_json_file gives the options of the file and None when it is missing, not a file, not JSON, not text or holds invalid options. "
         "instance_space_from_files gives an instance space of exactly that metadata and those options, and None when either is None; instance_space_from_directory reads metadata.csv and options.json of the folder.",
         [I], "all data frames and file contents",
         "Tests load a few files, all with the same letter case, dtypes and columns.",
         ["instancespace/data/metadata.py", "instancespace/data/options.py", "instancespace/instance_space.py"],
         [("metadata", "instancespace/data/metadata.py Metadata.from_data_frame, from_csv_file"), ("options", "instancespace/data/options.py from_json_file"),
          ("facade", "instancespace/instance_space.py instance_space_from_files, instance_space_from_directory")],
         ["the metadata, options or instance space returned, None on failure"]),
    prop("P20", "Building again from the same data gives the same instance space",
         "Whatever is drawn at random while building (starting points, folds, clusters, genetic search, parameter search, instance subsets) comes from a source seeded with a fixed value, or with a draw from a generator made in the same run: never from an unseeded or process-wide generator, nor from one shared with other runs or with concurrent work. "
         "Neither the clock, the environment, the process, the addresses of objects, nor the order in which a set of names happens to be walked, nor anything kept at module or class level from an earlier run, reaches a result or decides what is computed. "
         "Results of concurrent work are placed by what they belong to, not by when they complete.",
         [I, C, H, SCH], "all data, options, earlier runs in the same process, and orders in which concurrent work completes",
         "Tests run a stage once per process on fixed data, so an unseeded draw that rarely matters, state left by an earlier run, or a completion order that did not occur stays unseen.",
         [ST + "pilot.py", ST + "sifted.py", ST + "pythia.py", ST + "prelim.py", ST + "trace.py", "instancespace/utils/filter.py"],
         [("seeds", "random_state, random_seed and default_rng in the stages"), ("concurrent footprints", ST + "trace.py compute_algorithm_qualities")],
         ["stage outputs of two runs over equal inputs"]),
    prop("P21", "Saving leaves the model as it was; building leaves no trace outside",
         "Saving a model (CSV tables, web tables, figures, MATLAB file, archive) changes none of its arrays, tables or labels, so any exports can be made in any order and repeated. "
         "Building an instance space writes no files and changes no setting of the whole process: not the working folder, environment, warning filters, numpy error handling or the global random state. "
         "Loading metadata from a table or options from a dictionary changes neither.",
         [I, C, H], "all models, data, options and sequences of saving and building",
         "Tests look at the files of one export of a fresh model, never at the model or the process afterwards.",
         ["instancespace/_serialisers.py", "instancespace/model.py", "instancespace/instance_space.py", "instancespace/stage_runner.py", "instancespace/data/metadata.py", "instancespace/data/options.py"],
         [("exports", "instancespace/_serialisers.py save_instance_space_*"), ("stages", ST + "* _run")],
         ["the model after saving", "files and process settings after building"]),
    prop("P90", "The projection found is a good one",
         "The numerical projection stored is, over the starts tried, at a local minimum of the reconstruction error, and the fitted normalisation parameter of each column maximises the likelihood of the normalised column up to the optimiser's tolerance.",
         [I], "all feature and performance matrices", "Tests compare stored optima of a few fixed matrices.", [ST + "pilot.py", ST + "prelim.py"],
         [("minimisation", ST + "pilot.py numerical_solve"), ("Box-Cox", ST + "prelim.py _normalise")], ["projection matrix, normalisation parameters"]),
    prop("P91", "The prediction models generalise",
         "The parameters chosen for each algorithm's prediction model are close to the best of the searched space, and the cross-validated precision and recall estimate those on unseen instances.",
         [I], "all instances drawn like the training set", "Tests check stored scores of one data set.", [ST + "pythia.py"],
         [("parameter search", ST + "pythia.py _fitmatsvm")], ["precision and recall on unseen instances"]),
    prop("P92", "Outlines enclose their points as regions",
         "The outline built around a dense group of points is a valid region that contains the points it counts, for every arrangement of points (collinear, repeated and touching ones included), and splitting a region by a contradiction never enlarges it.",
         [I], "all arrangements of points in the plane", "Tests use a few stored arrangements.", [ST + "trace.py", D + "model.py"],
         [("triangulation and buffering", ST + "trace.py tight, fit_poly")], ["validity and containment of footprint polygons"]),
    prop("P93", "Exported values read back equal",
         "Every number written to a CSV or MATLAB file reads back as the same number, and every label as the same text.",
         [I], "all models, labels with any characters", "Tests read back a few plain files.", ["instancespace/_serialisers.py"],
         [("writers", "instancespace/_serialisers.py")], ["values read back from exported files"]),
]

CLAIMED = {
    "P01": (VG, VGN), "P02": (VG, VGN), "P03": (VG, VGN), "P04": (VG, VGN), "P05": (VG, VGN), "P06": (VG, VGN), "P07": (VG, VGN),
    "P08": (VG, VGN), "P09": (VG, VGN), "P10": (VG, VGN), "P11": (VG, VGN), "P12": (VG, VGN), "P13": ("value-graph comparison plus dataflow over the declared stage contracts", VGN), "P14": (VG, VGN), "P15": ("value-graph comparison plus copy-identity (aliasing) rules", VGN),
    "P16": ("value-graph comparison of the files written (effects collected per file name)", VGN), "P17": ("value-graph comparison of what is drawn into each file (effects collected per file name)", VGN),
    "P18": (VG, VGN), "P19": (VG, VGN),
    "P20": ("seed-provenance dataflow, taint analysis (clock, environment, kept state) and concurrency rules over the whole package's syntax tree and call graph", EFF),
    "P21": ("effect analysis: in-place changes recorded by the abstract interpreter on everything reachable from the model, and write and setting effects over the call graph", EFF),
}
NA = {
    "P90": "the quality of an optimum is a property of run-time numbers (the course of BFGS and fmin on the given data) that no static argument bounds; what goes into the optimiser and what is done with its result is decided under P04 and P06",
    "P91": "generalisation is statistical: it depends on the distribution of the data, not on the source; training sets, folds and recorded scores are decided under P08",
    "P92": "validity and containment depend on floating-point geometry inside the polygon library for each arrangement of points; which points, which operations and which measures are used is decided under P10 and P11",
    "P93": "formatting and parsing of numbers happen inside pandas and scipy; that the right value goes under the right label into the right file is decided under P16 and P17",
}
