#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs), hook_needed=hook)))
ACT="ruleskit/activation.py"; CON="ruleskit/condition.py"; RUL="ruleskit/rule.py"; RS="ruleskit/ruleset.py"
TH="ruleskit/thresholds.py"; FN="ruleskit/utils/rfunctions.py"; TR="ruleskit/utils/rule_utils.py"

prop("C01","An activation vector is stored without loss, whatever the form or configuration",
"An activation vector built from any accepted form of a 0/1 vector (plain array of any numeric type, bit array, integer with a length, compressed text, compressed array, saved file read at once or lazily) gives back exactly that vector, with that length, through every view it offers (plain array, bit array, integer, compressed text, compressed array). This holds under every storage configuration (compressed as text or array, raw storage, memory or file, comparison mode, size optimisation on or off), also when the configuration changes after construction, and in whatever order and however often the views are read.",
["inputs","configurations","histories"],"every 0/1 vector of length >= 1 (a compressed array input needs length >= 2), every input form, every combination of the class-wide flags at construction and at each later access, every order of accesses",
"the tests read two or three short vectors under a few flag combinations, one view each; a lost leading zero, a dropped final run, or a vector longer than some integer type needs other lengths, patterns and access orders",
[ACT],[("format choice in the constructor","ruleskit/activation.py:Activation.__init__, _init_with_*"),("conversions","ruleskit/activation.py:_compress, _decompress, _integer_to_raw, _raw_to_bitarray, _raw_to_integer, as_*")],
[("data / data_format","the stored representation","ruleskit/activation.py")],["raw","as_bitarray","as_integer","as_compressed_str","as_compressed_array","len()"])

prop("C02","The statistics of an activation vector are those of its bits",
"For every activation vector, the positions of ones, the number of ones, the coverage (ones divided by length), the length, the entropy (length of the run-length form: first value, every change position, total length) and the relative entropy (entropy divided by length) are exactly those of the vector it represents. They do not depend on how it was built or stored, nor on which of them, or which views, were read before.",
["inputs","configurations","histories"],"every vector, construction form, storage configuration and order of reading, including vectors longer than 255, 32767 and 65535 points",
"statistics are cached at construction or at first use along about ten code paths; the tests check them on fresh objects with short vectors",
[ACT],[("caches filled on construction and on access","ruleskit/activation.py:_nones, _entropy, _rel_entropy, _coverage and the properties of the same names")],
[("cached statistics","computed at construction or on first access","ruleskit/activation.py")],["ones","nones","coverage","entropy","rel_entropy","len()"])

prop("C03","Logical operations on activation vectors are pointwise, in every format mix",
"For two activation vectors of equal length, AND, OR, XOR, difference (one in the left and not in the right operand) and addition (OR) give the vector of the pointwise results, leave both operands unchanged, and raise an error when the lengths differ; the n-ary AND, OR and exclusive OR (set in some but not all) agree with this, also when memory is short and the computation is done piecewise. One vector is contained in another exactly when every point set in the first is set in the second, and the correlation of two vectors is the fraction of points on which they agree.",
["inputs","configurations","fault_sequences"],"every pair and list of vectors, every combination of storage formats and configurations of the operands, every memory-shortage outcome of the n-ary operations",
"the tests combine vectors of one format at a time; each pair of formats takes its own code path, and the memory-shortage paths are never run",
[ACT],[("binary operators","ruleskit/activation.py:__and__, __or__, __xor__, __sub__, __add__, __contains__, get_correlation"),("n-ary operators with memory fallbacks","ruleskit/activation.py:multi_logical_and/or/xor")],
obs=["raw of result and operands"])

prop("C04","Vectors kept in files are isolated: own file, no clobbering, no foreign deletion",
"Every activation vector kept in a file has a file of its own, that holds exactly its bits, never coincides with and never overwrites a file that existed before, also when the chosen name is already taken. Deleting a vector removes its own file and nothing else, a copy survives the deletion or clearing of the original (and conversely), the general clean-up removes the library's vector files in its directory and nothing else, and no other operation removes or modifies any file.",
["histories","configurations","fault_sequences"],"every interleaving of creations, reads, operators, copies, clears, deletions and clean-ups over any number of live vectors, and every collision of the random file names",
"tests create one or two files and wipe the directory; name collisions, shared files between a copy and its original, and neighbours' files need histories over several live vectors",
[ACT],[("unique file name and write","ruleskit/activation.py:_write"),("deletion","ruleskit/activation.py:delete, clean_files"),("copies and lazy reading","ruleskit/activation.py:__copy__, _read, raw")],
[("ACTIVATION_VECTOR_*.txt","one per file-backed vector","Activation.DEFAULT_TEMPDIR")],["directory listing and contents after every operation"])

prop("C05","Observing or profiling an activation vector changes nothing",
"Reading any view, statistic, size or timing of an activation vector, with forced profiling on or off, leaves every activation vector's value, the class-wide configuration and the set of files on disk as they were (a lazily opened vector may be loaded once), even when the computation behind it writes a temporary file. Profiling values are available for every storage format when forced profiling is on: sizes and times are non-negative.",
["histories","configurations"],"every vector, format, configuration and order of profiling reads",
"profiling reads temporarily rewrite the object, flip class-wide flags or write a file; tests look at the returned number only",
[ACT],[("profiling properties that write, unlink and restore","ruleskit/activation.py:sizeof_*, time_*, n_*"),("views that flip WILL_COMPARE","ruleskit/activation.py:as_bitarray, as_integer")],
obs=["raw of all live vectors","class flags","directory listing"])

prop("C06","A condition activates exactly on the rows inside all its intervals",
"Evaluating a condition on a table gives 1 on a row exactly when, for every feature of the condition, the row's value is finite and within the closed interval, and 0 otherwise; impossible conditions give 0 everywhere. Arrays are read by column position and data frames by column name whatever the order of columns, rows or conditions' features; a missing column or position raises an error, and the table is left unchanged.",
["inputs"],"every condition (any number of features, bounds equal, crossed, integer, float or infinite), every table including NaN and infinite values, extra and reordered columns, any row index",
"the tests evaluate a dozen fixed tables; boundary equality, NaN or infinity in the second feature, reordered columns need the full cross product",
[CON],[("evaluate","ruleskit/condition.py:HyperrectangleCondition.evaluate")],obs=["returned vector","table before and after"])

prop("C07","The conjunction of two conditions activates where both do",
"The AND of two conditions bears on the union of their features, with the larger lower bound and the smaller upper bound on common features, keeps the position of every feature, is marked impossible exactly when some interval is empty, and so activates on a row exactly when both conditions do. The operands are unchanged and later changes to the result do not reach them; features that have the same name at different positions, or the same position under different names, raise an error.",
["inputs","histories"],"every pair of conditions, including those sharing some, all or no features, in any feature order and under both sorting modes",
"the tests take the AND of few pairs and compare the bounds to constants; the equivalence with evaluation on every point is not stated anywhere",
[CON,RUL],[("__and__","ruleskit/condition.py:HyperrectangleCondition.__and__"),("rule AND","ruleskit/rule.py:Rule.__and__")],obs=["bounds, names, positions, impossible flag, evaluation"])

prop("C08","Conditions and rules are equal exactly when they bear the same intervals",
"Two conditions are equal exactly when they have the same feature names with the same bounds, irrespective of feature order and feature positions; two rules are equal exactly when their conditions are, whatever they were fitted on. Equal objects have equal hashes, so sets, dictionaries and rule set comparisons (equal when they hold the same rules, in any order) never merge different rules or keep equal ones apart.",
["inputs"],"all pairs of conditions, rules and rule sets, including bounds such as -1 and -2 whose hashes collide and integer against float bounds of equal value",
"equality goes through hashes; collisions and order dependence show only for particular bound values and feature orders",
[CON,RUL,RS],[("equality and hash","ruleskit/condition.py:__eq__, to_hash, __hash__"),("rule equality","ruleskit/rule.py:__eq__, __hash__"),("rule set equality","ruleskit/ruleset.py:__eq__, __hash__")],obs=["==, hash()"])

prop("C09","A condition stays well formed through construction, sorting and mutation",
"A condition always pairs each feature name with its own position and bounds: sorting by position or by name permutes them together, and its impossibility flag is true exactly when some lower bound exceeds its upper bound, after construction and after every change of the bounds. Inconsistent numbers of features, bounds or names, duplicated names or positions and values of a wrong type are refused with an error that leaves the condition as it was, and bounds, names and positions may be given as text with the same effect as the values themselves.",
["inputs","histories"],"every sequence of construction, bound / name / position changes and sorts, with valid and invalid arguments, under both sorting modes",
"setters and sorting are barely tested, and the pairing can break only for particular orders of unsorted features",
[CON],[("constructor checks, sort, setters","ruleskit/condition.py:HyperrectangleCondition.__init__, sort, bmins, bmaxs, features_names, features_indexes")],obs=["names, positions, bounds, item access, impossible flag"])

prop("C10","A fitted regression rule carries the exact statistics of its activated targets",
"Fitting a regression rule on a table and targets gives it the activation of its condition on that table, as prediction the mean of the known targets on activated rows, as standard deviation their sample standard deviation (0 for a single activated row), as sign the sign of the prediction, as z-score |prediction - mean of all targets| / (sqrt(horizon / number of activated rows) * standard deviation of all targets), as train size the number of targets and as coverage the activated fraction. Statistics that have no value (no activated row) are NaN, and fitting alone, in a rule set, or in stacked mode gives the same values.",
["inputs","configurations"],"every condition, table, target vector (including NaN targets, arrays or series with any index), storage configuration and fit mode",
"tests fit a few rules on one table; NaN targets, single or no activated rows and the three fit paths are not compared",
[RUL,FN,RS],[("fit","ruleskit/rule.py:Rule.fit, RegressionRule.calc_*"),("conditional statistics","ruleskit/utils/rfunctions.py:conditional_mean, conditional_std, calc_zscore_external"),("stacked computation","ruleskit/ruleset.py:calc_predictions, calc_stds, calc_signs, calc_zscores")],obs=["prediction, std, sign, zscore, coverage, train_set_size, activation"])

prop("C11","A fitted classification rule predicts the most frequent class it activates on",
"Fitting a classification rule gives it as prediction the class that occurs most often among the targets of its activated rows, the smallest such class (in numeric or alphabetic order) on ties, and no prediction (NaN) when it activates on no row. This holds for integer and text classes, including 0, negative classes and any number of rows, whether the rule is fitted alone, in a rule set, or in stacked mode.",
["inputs","configurations"],"every condition, table, vector of integer or text classes, storage configuration and fit mode",
"tests use two or three classes on a handful of rows; class 0, ties, very unbalanced classes and classes absent from some rules take particular paths",
[RUL,FN,RS],[("class probabilities","ruleskit/utils/rfunctions.py:class_probabilities"),("most probable class","ruleskit/rule.py:ClassificationRule.prediction, calc_prediction; ruleskit/ruleset.py:calc_predictions")],obs=["prediction"])

prop("C12","The criterion of an evaluated rule is the error or success on its activated rows",
"Evaluating a regression rule sets its criterion to the mean squared error, mean absolute error, either of them divided by the corresponding spread of the targets around their mean, or mean absolute error divided by the mean absolute deviation from the median, of its training prediction over the activated rows of the evaluation data; for a classification rule it is the fraction of activated rows whose class is the predicted one. The value is NaN when there is no activated row, depends only on the rule and on the evaluation data given, and is the same alone, in a rule set and in stacked mode. Where a kind of rule of the user's own also takes the number of rows, or the z-score, from the test set, these are of the evaluation data too.",
["inputs","configurations"],"every rule, evaluation table and targets, every criterion method, storage configuration and evaluation mode",
"tests pin a few numbers per method; the role of inactive rows, of targets equal to 0 and the agreement of the modes are not covered",
[FN,RUL,RS],[("criterion functions","ruleskit/utils/rfunctions.py:mse_function, mae_function, aae_function, *_norm, success_rate, calc_*_criterion"),("callers","ruleskit/rule.py:calc_criterion; ruleskit/ruleset.py:calc_criterions")],obs=["criterion of rules"])

prop("C13","Evaluation and prediction never alter what was learned, nor any input",
"Evaluating on new data leaves the prediction, standard deviation, sign, z-score, train size, condition and, unless asked to keep the new activations, the activation and coverage of every rule and rule set unchanged; predicting, and computing conjunctions, containment or correlations, leaves all of it and the criterion unchanged. No operation modifies the features, targets or weights passed to it, and rules not involved in an operation do not change. Data that do not fit (targets of another number of rows than the table or activation, a table that lacks a feature of a rule) are refused, and the refusal leaves the rules' conditions and membership and the settings of the rule set as they were.",
["histories","inputs","configurations"],"every sequence of fits, evaluations, predictions and combinations over shared rules and rule sets, with data of any container type, in every storage configuration and fit mode",
"tests look at the attribute just computed, not at all other attributes of all other live objects after each step",
[RUL,RS,FN],[("eval and predict","ruleskit/rule.py:Rule.eval, predict; ruleskit/ruleset.py:eval, predict, calc_criterion, _calc_prediction_*")],obs=["all attributes of all live objects after every step","inputs before and after"])

prop("C14","A rule predicts its value exactly on the rows it activates on",
"Predicting with a fitted rule gives, for every row, the rule's prediction when the condition holds on that row and a missing value otherwise, for numeric and for text predictions of any length. Given a data frame the result is a series with the data frame's index, given an array it is an array of the same number of rows, and without data it is the prediction on the stored activation; without data and activation it is an error.",
["inputs","configurations"],"every fitted rule, every table (array, data frame with any index, a single row), every storage configuration",
"tests use one table; single-row frames, unusual indexes and long class names change the path taken",
[RUL],[("predict","ruleskit/rule.py:Rule.predict, evaluate_activation")],obs=["returned vector, type and index"])

prop("C15","A rule is good exactly as long as it has met every threshold",
"With thresholds set (minimum, maximum, equal, different, on a transformed value, against another attribute), a rule checked while fitted or evaluated is bad exactly when some attribute known at that moment violates its limit, or it was bad before; the reported reason is an attribute that violates its limit. Attributes not computed yet violate nothing, NaN violates no minimum, maximum or 'different' limit, limits are inclusive, coverage has a default minimum of 5%, thresholds set on one rule take precedence for that rule only, and without thresholds no rule becomes bad.",
["inputs","configurations","histories"],"every thresholds file over the rule's attributes, every rule, data and fit / evaluation sequence, alone, in a rule set and in stacked mode",
"the tests check one file with a few limits; equality at the limit, NaN values, cross-attribute limits and the stacked path are not reached",
[TH,RUL,RS],[("threshold test","ruleskit/thresholds.py:Thresholds.__call__"),("when it is applied","ruleskit/rule.py:check_thresholds, fit, eval, calc_*; ruleskit/ruleset.py:fit, eval")],obs=["good, bad_because"])

prop("C16","A rule set's activation is the OR of its rules', its stack their columns",
"After every operation on a rule set whose rules' activations are known (creation, additions, assignment of rules, slicing, sorting, fitting, evaluation that keeps activations or drops rules) its activation is the OR of its current rules' activations and its coverage the fraction of rows it covers, unless the caller asked to defer that computation. When stacking is on, the stack has one column per rule, in the order of the rules, named after the rule and equal to its activation, with rows numbered from 0; when it is off no stack is kept.",
["histories","configurations","fault_sequences"],"every history of operations on rule sets sharing rules, stacked or not, file-backed or not, including when memory is short",
"each operation updates activation and stack along its own incremental path; tests examine single operations on fresh rule sets",
[RS],[("incremental update","ruleskit/ruleset.py:_update_activation, _update_stacked_activation, __iadd__, append"),("recomputation","ruleskit/ruleset.py:compute_self_activation, evaluate_self_activation, compute_stacked_activation, fit, eval, sort, rules setter")],
[("_activation, stacked_activations","caches derived from the rules","ruleskit/ruleset.py")],["activation, ruleset_coverage, stacked_activations"])

prop("C17","Rule sets behave as ordered collections of rules of one type",
"Adding a rule appends it, adding a rule set in place appends its rules in order, the sum of two rule sets holds the union of their rules without equal duplicates, slicing selects, and sorting permutes the rules into non-decreasing (or reversed) order of the chosen attribute, by default by number of features, then features, then bounds. Features known to the set are exactly those of its rules, feature counts count their uses, membership means same condition and prediction, and rules of a different type (or objects that are not rules) are refused without changing the set; rule sets given as arguments are unchanged. The text of a rule set lists its rules in order (the first and last ones of a long set); where duplicates are checked, a rule set holding the same rule twice is refused and one of rules that differ in condition or prediction is not; conditions that know positions but no names serve as well, with features counted by position.",
["histories","inputs"],"every sequence of additions, sums, slices, assignments, sorts and membership queries over several rule sets sharing rules",
"tests try single operations with two or three rules; aliasing between rule sets and duplicates need histories",
[RS],[("collection protocol","ruleskit/ruleset.py:__iadd__, __add__, append, __getitem__, rules setter, sort, __contains__, get_features_count, check_duplicated_rules")],obs=["rules in order (by identity), features_names, features_indexes, get_features_count(), in"])

prop("C18","Fitting or evaluating a rule set drops exactly the bad rules and reports them",
"After fitting or evaluating a rule set, it contains exactly those of its former rules that are good, in the former order, and the call returns exactly the former rules that are bad, each once. The features, activation and stack of the set are those of the remaining rules, and this holds in plain and in stacked mode, with nothing, some or everything dropped.",
["inputs","configurations","histories"],"every rule set, data, thresholds and fit mode, over sequences of fits and evaluations",
"tests drop rules once with one thresholds file; which of the many threshold checks marks the rule bad decides whether it is dropped",
[RS,RUL],[("dropping","ruleskit/ruleset.py:fit, eval (to_drop)")],obs=["rules after, returned list"])

prop("C19","A regression rule set predicts the (weighted) mean of its active rules",
"On every row a regression rule set predicts the weighted mean of the predictions of the rules active there (equal weights by default, otherwise a weight per rule or a named rule attribute), and a missing value where no rule is active. Rules without prediction, or with missing, zero or no weight, do not count, and if no rule has a usable weight it is an error; the result is a series numbered by row, and does not depend on the order or number of rules, the storage configuration, or the mode used.",
["inputs","configurations"],"every set of fitted rules, table, weights (positive), storage configuration and prediction mode, including cancelling, zero and NaN predictions and hundreds of rules",
"tests predict with two or three rules with distinct non-zero predictions",
[FN,RS],[("aggregation","ruleskit/utils/rfunctions.py:calc_ruleset_prediction_*_regressor_*"),("dispatch","ruleskit/ruleset.py:predict, _calc_prediction_stacked, _calc_prediction_unstacked")],obs=["returned series"])

prop("C20","A classification rule set predicts the majority class of its active rules",
"On every row an unweighted classification rule set predicts the class predicted by most of the rules active there, and a missing value on ties or where none is active. With weights the class of largest total weight wins in plain mode, and in stacked mode the majority class among the active rules of largest weight, ties giving a missing value; rules without weight or prediction do not count.",
["inputs","configurations"],"every set of fitted rules with integer or text predictions, table, weights (positive), storage configuration and mode, including classes 0 and negative, single active rows, and hundreds of rules",
"tests vote with three rules on five rows; ties, class 0, one active row and many rules take other paths",
[FN,RS],[("votes","ruleskit/utils/rfunctions.py:calc_ruleset_prediction_*_classificator_*"),("dispatch","ruleskit/ruleset.py:predict, _calc_prediction_stacked, _calc_prediction_unstacked")],obs=["returned series"])

prop("C21","Stacked and rule-by-rule modes give the same results",
"For the same rules, data and thresholds, fitting, evaluating and (except for weighted class votes) predicting in stacked mode gives every kept rule and the rule set the same predictions, statistics, criteria, activations, coverage, sizes and dropped rules as the rule-by-rule mode. This holds at every step of a sequence of such operations, and whether or not the stack is kept afterwards.",
["inputs","configurations","histories"],"every sequence of fits, evaluations and predictions run twice, once per mode, on equal rule sets and data of any container type",
"each mode is tested on its own against constants; no test runs the same history in both",
[RS,FN,RUL],[("stacked path","ruleskit/ruleset.py:fit, eval under STACKED_FIT, calc_*s"),("plain path","ruleskit/rule.py:fit, eval")],obs=["all attributes after each step in both modes"])

prop("C22","A saved rule set loads back to an equivalent rule set",
"Saving a rule set and loading it in a fresh one gives the same rules in the same order, of the same type, with the same names of rules, features, positions, bounds (exact, including infinite ones), predictions (numbers or text), coverage, criterion and, for regression, standard deviation and z-score, as well as the same rule set coverage, criterion, train and test sizes (which its rules take over) and features. The loaded rule set makes the same predictions on any table, and saving it again writes the same content, whether the path is a text, a Path or an object that reads and writes tables itself; the table of the rules alone is the same without the attributes of the rule set, and loads as well. Saving does not change the rule set, and loading replaces all that a rule set held before.",
["inputs","histories"],"every fitted and evaluated rule set (class names that are not empty and do not read as python values), before and after further rounds of saving and loading",
"one test compares a few fields of one rule set after one round trip",
[RS],[("serialisation","ruleskit/ruleset.py:to_df, rule_to_series, save"),("parsing","ruleskit/ruleset.py:load, series_to_rule")],obs=["attributes of both rule sets, predictions, file contents"])

prop("C23","Rules extracted from a decision tree are the regions of its nodes",
"Extracting rules from a fitted decision tree that splits at least once, with ranges that contain its thresholds, gives exactly one rule per leaf (or, when all nodes are asked for, one per node other than the root), in depth-first order, of the type of the tree, whose bounds on each feature of the path are the tightest thresholds on the path from the root, or the given feature minimum or maximum where the path sets none, and whose prediction is the value of that node or its most probable class (by its given name, else by its position among the classes of the tree). Therefore every row within the given ranges that lies on no threshold activates exactly one leaf rule, whose prediction is the tree's own. The tree and the arguments are left as they were, and no two rules share a condition.",
["inputs"],"every regression or classification tree (any depth, features reused along a path), with default or given feature and class names",
"the existing tests use one data set, a depth-2 tree, and do not run with the installed scikit-learn",
[TR],[("tree walk","ruleskit/utils/rule_utils.py:extract_rules_from_tree")],obs=["conditions and predictions of extracted rules, tree.predict"])

prop("C24","The criterion of a rule set measures its own predictions on the data given",
"Evaluating a rule set sets its criterion to the chosen error of its own (weighted) predictions over the rows where it predicts, for regression, or to the fraction of rows where it predicts on which the predicted class is right, for classification, computed with the rules that remain after bad ones are dropped. It also records the number of evaluation targets, while fitting records the number of training targets and leaves the criterion alone; the value is the same in both modes, kept or discarded activations alike. Computing the criterion or a set size alone gives the same value, by given or own predictions, and sets nothing else.",
["inputs","configurations","histories"],"every fitted rule set, evaluation data, weights, criterion method and mode, over sequences of fits and evaluations",
"tests check the criterion of a few fixed rule sets in which nothing is dropped and every row is predicted",
[RS,FN],[("ruleset criterion","ruleskit/ruleset.py:calc_criterion, eval, calc_test_set_size, calc_train_set_size"),("criterion functions","ruleskit/utils/rfunctions.py:calc_regression_criterion, calc_classification_criterion")],obs=["criterion, test_set_size, train_set_size of the rule set"])

prop("C25","Combining and comparing rules follows their activations",
"The AND of two rules of one type has the AND of their conditions as condition and the AND of their activations as activation and coverage, and nothing learned; a rule is contained in another exactly when every row it activates on is activated by the other; the correlation of two fitted regression rules is the fraction of rows on which their activations agree, times the product of the signs of their predictions. Activations of different lengths and conditions that conflict are refused with an error, and neither operand, nor any rule set holding it, changes.",
["inputs","histories","configurations"],"every pair of rules (a rule with itself included) fitted or evaluated on any tables, with any storage configuration of their activations, before and after further operations on either",
"the tests combine two or three fixed pairs; the sign of the correlation, partial overlaps and file-backed or cached operands are not reached",
[RUL,CON,ACT],[("rule AND","ruleskit/rule.py:Rule.__and__, __add__"),("containment and correlation","ruleskit/rule.py:Rule.__contains__, get_correlation")],obs=["attributes of the result and of both operands"])

prop("C26","Discarding stored activations loses nothing else",
"Discarding the activation of a rule, of all the rules of a rule set, of a rule set itself, or its stack of activations removes exactly that data (and the file of each activation that was kept in one): it reads as not available afterwards, the coverage, statistics, predictions, goodness and criteria already known stay, and no other rule, rule set or file is affected. Whatever is given data afterwards (fit, evaluation keeping activations, prediction) works as if nothing had been discarded, and what is asked without data is rebuilt from the activations that remain. At every moment an activation is reported as available exactly when it can be read.",
["inputs","histories","configurations"],"every interleaving of discards with fits, evaluations, predictions, additions, sorts and saves, in memory or with activations in local files, stacked or not",
"the tests delete one activation right after one fit and look at that attribute only",
[RUL,RS,ACT],[("discarding","ruleskit/rule.py:del_activation; ruleskit/ruleset.py:del_activation, del_activations, del_stacked_activations"),("availability","ruleskit/rule.py:activation_available; ruleskit/ruleset.py:activation_available, stacked_activations_available"),("file removal","ruleskit/activation.py:delete")],obs=["activation, activation_available, all statistics, files on disk, outcome of later operations"])

prop("C27","A rule presents its condition and activation as its own",
"Reading the features, positions, bounds, impossibility or length of a rule, or the number of activated rows and the length of its activation, gives at every moment those of its condition and activation, and items of the condition give its features one by one. Assigning names, positions or bounds through a rule changes its condition exactly as assigning them to the condition would (the same values are refused, with nothing changed), so that evaluation, equality and hashes of the rule follow; assigning an attribute that nothing knows is refused and changes nothing. The text of a rule states its condition and its prediction, or that it has none.",
["inputs","histories"],"every condition, and every interleaving of assignments through the rule or directly, sorts, fits, evaluations and comparisons of the rules sharing it",
"the tests read a few attributes of a fixed rule and assign nothing through a rule",
[RUL,CON],[("delegation","ruleskit/rule.py:Rule.__getattr__, __setattr__, __len__, __str__, __eq__, __hash__"),("items","ruleskit/condition.py:HyperrectangleCondition.__getitem__, __len__, __str__"),("rule set delegation","ruleskit/ruleset.py:RuleSet.__getattr__")],obs=["attributes read through the rule and its condition, activations, text, outcome of assignments"])

prop("C28","What a rule set computes for all rules at once is each rule's own value",
"Asked for the predictions, standard deviations, signs, z-scores, criteria or set sizes of all its rules, from its stacked activations or from stacked activations of other data, a rule set answers with one value per rule, in the order of the rules and labelled by their conditions, each equal to what that rule alone would learn from, or score on, the same rows and targets (by its own prediction when that is given); without stacked activations it refuses. Asking sets nothing in the rule set, its rules or the data passed.",
["inputs","histories","configurations"],"every rule set of distinct rules, every table and targets (unknown ones included), before and after any history of fits, evaluations, sorts, additions and slices that leaves the stack in step",
"the tests ask for one or two of these values on one fixed data set whose rules all activate; rules that activate nowhere or once, ties, zero targets, other data and other orders are not reached",
[RS,FN],[("values of all rules","ruleskit/ruleset.py:calc_predictions, calc_stds, calc_signs, calc_zscores, calc_criterions, calc_train_set_sizes, calc_test_set_sizes"),("functions of stacked activations","ruleskit/utils/rfunctions.py:class_probabilities, conditional_mean, conditional_std, calc_zscore_external, calc_regression_criterion, calc_classification_criterion")],obs=["the Series returned, and all attributes of the rule set and its rules before and after"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
