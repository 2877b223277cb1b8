"""source of properties.jsonl and MANIFEST.json (tools/mk.py writes both)"""
W = "skmine/"
P = {}


def prop(pid, title, statement, over, text, why, files, mech, **k):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors={"files": [W + f for f in files],
                                               "mechanism": [{"name": n, "where": W + w} for n, w in mech], **k})


prop("P01", "SLIM codes every item occurrence exactly once and gives the data back",
     "After SLIM is fitted, and after every manual insertion of a candidate itemset, each item of each transaction is "
     "covered by exactly one itemset of the code table, every transaction covered by an itemset contains it, and "
     "reconstructing returns the data. All views of the model (table, usage counts, files, with or without "
     "singletons and unused itemsets) describe that same table.",
     ["inputs", "configurations", "histories"],
     "all transaction data sets (lists, strings, tabular), item types, pruning on or off, extra items, time limits, "
     "and sequences of manual insertions",
     "Tests reconstruct three tiny data sets; the cover depends on the order and overlap of every candidate accepted.",
     ["itemsets/slim.py"], [("greedy cover removes what it covers", "itemsets/slim.py::cover"),
                            ("table rebuilt from a full cover on every insertion", "itemsets/slim.py::SLIM.update"),
                            ("pruning re-covers", "itemsets/slim.py::SLIM._prune"),
                            ("decoding", "itemsets/slim.py::SLIM.reconstruct")],
     observe_at=["fit, update, reconstruct, transform"])
prop("P02", "SLIM sizes are those of its table and never exceed the singleton code",
     "The reported data and model sizes are the description lengths of the code table that is reported, the total never "
     "exceeds that of the singletons-only table, and the table is the greedy cover of the data in standard cover order. "
     "A pruned model keeps no unused itemset, reading or evaluating does not change the model, and refitting gives what "
     "fitting a fresh model on the same data gives.",
     ["inputs", "configurations", "histories"], "all data sets, pruning settings and earlier fits of the same object",
     "Tests compare a few precomputed sizes; the relation must hold after any accepted or rejected candidate.",
     ["itemsets/slim.py"], [("candidate kept only if the total decreases", "itemsets/slim.py::SLIM.fit"),
                            ("sizes from usages", "itemsets/slim.py::SLIM.compute_sizes"),
                            ("supports cache", "itemsets/slim.py::SLIM.get_support"),
                            ("standard cover order", "itemsets/slim.py::SLIM._standard_cover_order")])
prop("P03", "Covers, code lengths and decision values of SLIM on new data",
     "For any new transactions, the cover of each transaction uses disjoint itemsets of the code table, contains "
     "exactly its known items, and is the greedy one. Code lengths are the smoothed code lengths of that cover "
     "(infinite for a transaction without known items), decision values are in [0, 1] and never increase with code length, "
     "and asking does not change the model.",
     ["inputs", "histories"], "all fitted models and all new data, with unknown, repeated or missing items",
     "Tests score one hand-made example.", ["itemsets/slim.py", "utils.py"],
     [("cover of new data", "itemsets/slim.py::SLIM.cover"), ("code lengths", "itemsets/slim.py::SLIM.get_code_length"),
      ("decision values", "itemsets/slim.py::SLIM.decision_function"), ("vertical layout", "itemsets/slim.py::_to_vertical")])
prop("P04", "SlimClassifier predicts the class with the shortest code",
     "The classifier fits one SLIM model per class on exactly the samples of that class with the parameters given, and "
     "predicts for each sample a class whose model gives it the smallest code length, however long the codes are. "
     "One label is returned per sample, in order.",
     ["inputs", "configurations"], "all labelled data sets, label types, class orders, pruning, items and queries",
     "Tests use one data set with two classes.", ["itemsets/slim_classifier.py", "itemsets/slim.py"],
     [("one model per class", "itemsets/slim_classifier.py::SlimClassifier.fit"),
      ("arg-min of code length", "itemsets/slim_classifier.py::SlimClassifier.predict")])
prop("P05", "SLIMVectorizer features are the most used itemsets, laid as a disjoint cover",
     "For new data, the columns are the k itemsets of the fitted table with the highest usage among those whose items all "
     "occur in the new data, and each row marks the itemsets of the greedy disjoint cover of that transaction, weighted by "
     "relative usage or by one. Stop items never influence the features, and rows correspond to transactions in order.",
     ["inputs", "configurations"], "all training and new data, k, strategies, stop items",
     "Tests check one example per strategy.", ["feature_extraction/slim_vectorizer.py", "itemsets/slim.py"],
     [("feature selection and encoding", "feature_extraction/slim_vectorizer.py::SLIMVectorizer.transform"),
      ("stop items", "feature_extraction/slim_vectorizer.py::SLIMVectorizer.fit"), ("greedy cover", "itemsets/slim.py::cover")])
prop("P06", "LCM returns exactly the closed frequent itemsets, once each",
     "For any transactions, threshold (absolute or relative) and maximal length, LCM returns each closed frequent itemset "
     "exactly once and nothing else, with its exact support and transaction identifiers. The result does not depend on "
     "item type, output channel (frame or file), ordering options, or on what the object was fitted on before.",
     ["inputs", "configurations", "histories"], "all transactional data, thresholds, lengths, item types and earlier fits",
     "Tests enumerate a handful of 3 to 5 transaction data sets.", ["itemsets/lcm.py", "utils.py"],
     [("prefix-preserving closure enumeration", "itemsets/lcm.py::LCM._inner"),
      ("frequent items", "itemsets/lcm.py::LCM.fit"), ("collection of results", "itemsets/lcm.py::LCM.transform")])
prop("P07", "LCMMax returns exactly the maximal frequent itemsets, once each",
     "For any transactions, threshold and maximal length, the maximal variant returns each frequent itemset that has no "
     "frequent proper superset exactly once and nothing else, with its exact support and transaction identifiers.",
     ["inputs", "configurations", "histories"], "all transactional data, thresholds, lengths, item types",
     "Tests compare one or two examples.", ["itemsets/lcm.py", "utils.py"],
     [("candidate generation", "itemsets/lcm.py::LCMMax._inner"), ("maximality filter", "utils.py::filter_maximal"),
      ("collection", "itemsets/lcm.py::LCMMax.transform")])
prop("P08", "Border differences and emerging patterns are exact",
     "Subtracting a collection of sets from the subsets of a set yields a border whose members are exactly the subsets not "
     "contained in any subtracted set, with an antichain as lower bound; filtering keeps exactly the maximal or minimal sets. "
     "The emerging-pattern miner enumerates, without repetition and largest first, exactly the patterns strictly inside the "
     "borders: each is frequent in the second class and infrequent in the first.",
     ["inputs", "configurations"], "all families of sets; all two-class data, thresholds, growth rates, minimal sizes",
     "Tests have one border difference and one mining example.", ["emerging/mbdldorber.py", "utils.py"],
     [("border difference", "emerging/mbdldorber.py::border_diff"),
      ("border list", "emerging/mbdldorber.py::mbdllborder"),
      ("pattern enumeration", "emerging/mbdldorber.py::borders_to_patterns"),
      ("minimal and maximal sets", "utils.py::filter_minimal")])
prop("P09", "Periodic mining is lossless",
     "After mining any event log, the events of the patterns and the residual events are disjoint and together are exactly the "
     "distinct events of the log, with their original times, whatever the order, ties, unit or type of the timestamps. "
     "Asking for some patterns returns their events only, and the residuals of a selection are exactly the other events.",
     ["inputs", "configurations", "histories"], "all event logs (integers or dates), simple or complex mining, automatic time scale or not, "
     "all selections and orders of patterns", "Tests reconstruct a few logs with one event type.",
     ["periodic/cycles.py", "periodic/pattern_collection.py", "periodic/pattern.py", "periodic/run_mine.py"],
     [("reconstruction", "periodic/cycles.py::PeriodicPatternMiner.reconstruct"),
      ("residuals", "periodic/cycles.py::PeriodicPatternMiner.get_residuals"),
      ("covered events of the collection", "periodic/pattern_collection.py::PatternCollection.getOccLists"),
      ("events of a pattern", "periodic/pattern.py::Pattern.getCovSeq")])
prop("P10", "Time rescaling is exact",
     "Rescaling times removes the largest common power of ten up to nanoseconds to seconds and then takes the coarsest exact unit up to "
     "days; multiplying back gives the original times. "
     "The patterns reported for a log are those of the rescaled log with start, period and corrections expressed in the unit of the input.",
     ["inputs", "configurations"], "all integer times and dates, all units, report options",
     "Tests use a few logs in one or two units.", ["periodic/cycles.py"],
     [("rescaling", "periodic/cycles.py::autoscale_time_unit"), ("upper units", "periodic/cycles.py::shift_from_sec_to_upper_unit"),
      ("to seconds", "periodic/cycles.py::_shift_from_nano_to_sec"),
      ("report", "periodic/cycles.py::PeriodicPatternMiner.transform")])
prop("P11", "Exported periodic patterns are the same model when imported",
     "Exporting the patterns of a miner and importing them in another one gives the same reported patterns, the same reconstructed events and "
     "the same residuals, for any event names and time types, also when no pattern was found, after earlier fits, and when exported again. "
     "Exporting does not change the model.",
     ["inputs", "configurations", "histories"], "all event logs, event names, time types, earlier fits, repeated exports",
     "Tests export one log.", ["periodic/cycles.py", "periodic/pattern.py", "periodic/pattern_collection.py"],
     [("export", "periodic/cycles.py::PeriodicPatternMiner.export_patterns"),
      ("import", "periodic/cycles.py::PeriodicPatternMiner.import_patterns"),
      ("node identifiers", "periodic/cycles.py::_iterdict_str_to_int_keys")])
prop("P12", "A pattern tree denotes exactly its occurrences",
     "A tree of blocks with repetitions, periods and distances denotes the occurrences obtained by unrolling it, shifted by the accumulated "
     "corrections; the corrections are recovered exactly from the occurrences. "
     "Merging, appending, repeating, translating and factorising trees change what they denote exactly as stated, positions of occurrences are unique "
     "and lead back to their event, and counts, alphabets, depths and printed forms agree with the unrolled tree.",
     ["inputs"], "all pattern trees, start times and corrections, all tree operations",
     "Tests fix two or three small trees.", ["periodic/pattern.py", "periodic/candidate.py", "periodic/class_patterns.py"],
     [("unrolling", "periodic/pattern.py::Pattern.getOccsStar"), ("corrections applied", "periodic/pattern.py::Pattern.getOccs"),
      ("corrections recovered", "periodic/pattern.py::Pattern.computeEFromO"), ("factorising", "periodic/pattern.py::Pattern.factorizeTree"),
      ("counting", "periodic/pattern.py::Pattern.getNbOccs")])
prop("P13", "Event sequences and their residuals are counted exactly",
     "A data sequence numbers the events of the log in sorted order and reports their times, counts, spans and frequencies exactly, and its residual "
     "code length is that of all its events. "
     "The uncovered events of a collection of patterns are exactly those of the data that no pattern covers, counted by event, however the "
     "collection was built or queried before; occurrence positions survive their text form.",
     ["inputs", "histories"], "all sequences (lists or dictionaries), collections of patterns and orders of queries",
     "Tests check one sequence.", ["periodic/data_sequence.py", "periodic/pattern_collection.py", "periodic/class_patterns.py"],
     [("sequence", "periodic/data_sequence.py::DataSequence.__init__"), ("frequencies", "periodic/class_patterns.py::makeOccsAndFreqsThird"),
      ("uncovered events", "periodic/pattern_collection.py::PatternCollection.getUncoveredOccs"),
      ("position keys", "periodic/class_patterns.py::key_to_l")])
prop("P14", "Periodic patterns are priced consistently and selected only if they pay",
     "The code length of a cycle or tree is that of its events, repetitions, period, start and corrections and agrees between the two formulas; "
     "a mined model never costs more than listing the events. "
     "Segmentation into cycles is optimal for its costs, every extracted cycle lies on data occurrences with its corrections, merging and "
     "filtering keep exactly the candidates their rules name (cheaper than the still uncovered events they cover, or among the best per "
     "occurrence), and candidate pools hold each pattern once.",
     ["inputs", "configurations"], "all event sequences and candidate collections",
     "Tests compare some lengths to stored numbers.",
     ["periodic/run_mine.py", "periodic/extract_cycles.py", "periodic/class_patterns.py", "periodic/candidate.py", "periodic/candidate_pool.py",
      "periodic/pattern.py"],
     [("cycle length", "periodic/class_patterns.py::computeLengthCycle"), ("optimal segmentation", "periodic/extract_cycles.py::compute_cycles_dyn"),
      ("selection by cover", "periodic/run_mine.py::filter_candidates_cover"), ("best per occurrence", "periodic/run_mine.py::filter_candidates_topKeach"),
      ("pool", "periodic/candidate_pool.py::CandidatePool.addCand"), ("tree length", "periodic/pattern.py::Pattern.codeLength")])
prop("P15", "Graph code lengths and matchings are exact",
     "Label counts, label codes, integer and prequential codes, pattern, port and singleton code lengths are those of the published encoding; "
     "label codes and port codes form complete codes, and invalid arguments are rejected. "
     "The embeddings of a pattern are exactly its label-preserving injective maps into the graph, parallel edges included, and support is "
     "the minimum image-based support.",
     ["inputs"], "all directed graphs and multigraphs with labelled edges and any number of vertex labels, all patterns and integers",
     "Tests check a handful of graphs and integers.", ["graph/graphmdl/utils.py", "graph/graphmdl/label_codes.py", "graph/graphmdl/code_table_row.py"],
     [("matching", "graph/graphmdl/utils.py::get_embeddings"), ("support", "graph/graphmdl/utils.py::get_support"),
      ("structure cost", "graph/graphmdl/utils.py::encode"), ("prequential code", "graph/graphmdl/utils.py::prequential_code"),
      ("integer code", "graph/graphmdl/utils.py::universal_integer_encoding")])
prop("P16", "Graph covers are exact and GraphMDL never makes the description longer",
     "Covering a graph with a code table covers each edge exactly once and each vertex label at least once, greedily in table order; usages and port usages "
     "count the embeddings used, the rewritten graph denotes the data graph again, and the description length is that of table and rewritten graph. "
     "Mining terminates, leaves the graph as it was, reports the description length of its final table, which never exceeds the initial one, and exactly "
     "the patterns in use; merging a candidate glues its two patterns at the ports.",
     ["inputs", "configurations", "histories"], "all directed graphs and multigraphs without self-loops whose vertex and edge labels differ, all code tables, refits",
     "Tests cover one or two fixed graphs.", ["graph/graphmdl/code_table.py", "graph/graphmdl/graph_mdl.py", "graph/graphmdl/candidate.py", "graph/graphmdl/utils.py"],
     [("cover", "graph/graphmdl/code_table.py::CodeTable.cover"), ("ports", "graph/graphmdl/code_table.py::CodeTable.search_port"),
      ("search", "graph/graphmdl/graph_mdl.py::GraphMDL._anytime_graph_mdl_with_timeout"),
      ("pruning", "graph/graphmdl/graph_mdl.py::GraphMDL._pruning"), ("merging", "graph/graphmdl/candidate.py::Candidate.merge_candidate")])
prop("P17", "MDLP discretisation follows its cut points, chosen by the MDL rule",
     "Cut points are finite, increasing midpoints of neighbouring training values, chosen by recursive entropy "
     "minimisation that stops exactly when the MDL criterion rejects, and depend only on data and seed. "
     "Transforming maps each value to the number of cut points of its own column that lie strictly below it, "
     "whatever the order of columns, and rejects unknown columns.",
     ["inputs", "configurations"], "all numeric tables and labels, arrays or frames, column orders, seeds, new values",
     "Tests compare iris cut points and a few examples.", ["preprocessing/mdlp_discretizer.py"],
     [("recursive search", "preprocessing/mdlp_discretizer.py::generate_cut_point"),
      ("stopping rule", "preprocessing/mdlp_discretizer.py::evaluate_split"),
      ("binning", "preprocessing/mdlp_discretizer.py::MDLPDiscretizer.transform")])
prop("P18", "Parameters and inputs are accepted exactly on their documented domain",
     "Support thresholds, growth rates, seeds and tabular inputs are accepted exactly when they lie in their documented domain, "
     "otherwise a ValueError or TypeError is raised and no global or estimator state changes. "
     "Setting parameters changes exactly the named parameters and rejects unknown names.",
     ["inputs", "configurations"], "all parameter values of the documented types and all tabular inputs",
     "Tests try a few values; boundaries and side effects of rejections are not observed.",
     ["utils.py", "base.py", "itemsets/lcm.py", "emerging/mbdldorber.py"],
     [("support threshold", "utils.py::_check_min_supp"), ("growth rate", "utils.py::_check_growth_rate"),
      ("seed", "utils.py::_check_random_state"), ("tabular input", "utils.py::_check_D"),
      ("parameters", "base.py::BaseMiner.set_params")])
prop("P19", "Callbacks observe every call and never change it",
     "Attaching callbacks to an object makes each named method call its callback exactly once per completed call, after it and "
     "with its result, while arguments, results, exceptions and other methods and instances are unaffected. "
     "A collection of callbacks holds callables only, cannot be modified, and is attached entirely or not at all.",
     ["inputs", "programs", "histories"], "all methods, results, callback signatures and sequences of calls and attachments",
     "Tests attach callbacks to one toy class.", ["callbacks.py"],
     [("wrapping", "callbacks.py::post"), ("validation and attachment", "callbacks.py::CallBacks.__call__"),
      ("frozen mapping", "callbacks.py::CallBacks")])
prop("P20", "Reading data sets returns what the file holds, and descriptions are exact",
     "Reading a transaction or event-log file returns its records in order with nothing lost, merged or invented, for any "
     "separator, item type, time format and final newline, from plain or compressed files. "
     "Descriptions report exact counts and averages for transactions and for logs indexed by integers or dates.",
     ["inputs", "configurations"], "all files in the documented formats and all data sets",
     "Tests need the network or read one small file.", ["datasets/fimi.py", "datasets/periodic.py", "datasets/utils.py",
                                                        "datasets/_base.py"],
     [("transactions", "datasets/fimi.py::fetch_file"), ("cached archives", "datasets/fimi.py::fetch_any"),
      ("event logs", "datasets/periodic.py::fetch_file"), ("user logs", "datasets/periodic.py::read_ubiq_user"),
      ("descriptions", "datasets/utils.py::describe_logs")])
prop("P21", "Synthetic data generators respect their parameters and their seed",
     "Generated transactions have the number asked for, contain distinct items of the item range only and sizes that follow the "
     "density; generated classes have the sizes asked for by the weights, each within its own item range, aligned with their labels. "
     "The same seed gives the same data and does not touch the global generator, and a density outside (0, 1) is rejected.",
     ["inputs", "configurations"], "all sizes, densities, weights, separations, seeds, shuffling",
     "Tests check shapes for two settings.", ["datasets/_samples_generator.py", "utils.py"],
     [("transactions", "datasets/_samples_generator.py::make_transactions"),
      ("classes", "datasets/_samples_generator.py::make_classification")])
prop("P22", "Array and graph helpers are exact",
     "The common rows of two arrays are each reported once, sorted, with the index of their first occurrence in each array; "
     "sliding windows are exactly the contiguous blocks of the requested shape. Clique enumeration lists each maximal clique of at "
     "least three vertices exactly once.",
     ["inputs"], "all arrays, window shapes and undirected graphs", "Tests have one example each.", ["utils.py"],
     [("rows", "utils.py::intersect2d"), ("windows", "utils.py::sliding_window_view"), ("cliques", "utils.py::bron_kerbosch")])
