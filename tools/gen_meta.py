#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PR = "dataprofiler/profilers/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, claimed=True, reason="", note=""):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, claimed=claimed, reason=reason, note=note))


prop("P01", "Numeric column statistics are exact however the data is batched",
     "For an integer, float or text column (text through the lengths of its values), the "
     "reported sample count, match count, min, max, sum, mean, variance, standard deviation, "
     "number of zeros and number of negatives equal their mathematical definition over all "
     "matching values seen so far. This holds for any values and any split of the same values "
     "into successive updates, including empty batches, batches of one value, and cells that are "
     "not numbers, which only count as samples. Infinities count as values; statistics they leave "
     "without a value are reported as undefined.",
     ["inputs", "histories"], "every list of values and every split of it into update batches",
     "A unit test fixes one list and one split; the running min, sum or variance can be wrong only "
     "for particular values (zero, ties, a single value) in a particular batch position.",
     [PR + "numerical_column_stats.py", PR + "float_column_profile.py",
      PR + "int_column_profile.py", PR + "text_column_profile.py",
      PR + "base_column_profilers.py"],
     [("running statistics", PR + "numerical_column_stats.py:_get_min,_get_max,_get_sum,"
       "_get_variance,_get_num_zeros,_get_num_negatives"),
      ("variance merge", PR + "numerical_column_stats.py:_merge_biased_variance")])

prop("P02", "Merging two numeric profiles equals profiling the combined data",
     "Adding two profiles of the same integer, float or text column gives the same counts, min, "
     "max, sum, mean, variance, zeros and negatives as one profile updated with both data sets, "
     "whichever operand comes first and also when one or both operands have seen no data. The "
     "merged profile can keep being updated or merged with the same guarantee, and merging leaves "
     "both operands' statistics unchanged.",
     ["inputs", "histories"], "every pair of data sets and every order of merge and update",
     "Tests merge a few fixed pairs; errors hide in empty operands, zero extrema, constant data or "
     "an update after a merge.",
     [PR + "numerical_column_stats.py", PR + "float_column_profile.py",
      PR + "int_column_profile.py", PR + "text_column_profile.py",
      PR + "base_column_profilers.py"],
     [("merge", PR + "numerical_column_stats.py:_add_helper"),
      ("merge", PR + "base_column_profilers.py:_add_helper")])

prop("P03", "Skewness and kurtosis are exact under batching and merging",
     "The skewness and excess kurtosis a numeric column reports, with and without bias "
     "correction, equal the moment definition over all values seen, whether the values arrive in "
     "one batch, in several batches, or by merging profiles. Too few values give an undefined "
     "result rather than a wrong number.",
     ["inputs", "histories"], "every set of values and every split or merge of it",
     "The pairwise moment-combination formulas have many terms; a wrong term can vanish on the "
     "symmetric or equal-sized samples a test uses.",
     [PR + "numerical_column_stats.py", PR + "profiler_utils.py"],
     [("moment merge", PR + "numerical_column_stats.py:_merge_biased_skewness,"
       "_merge_biased_kurtosis"),
      ("bias correction", PR + "numerical_column_stats.py:_correct_bias_skewness,"
       "_correct_bias_kurtosis"),
      ("batch moments", PR + "profiler_utils.py:biased_skew,biased_kurt")])

prop("P04", "Histograms account for every value exactly once",
     "A numeric column's histogram has non-decreasing bin edges that start at the minimum and end "
     "at the maximum of the data, non-negative counts, one more edge than counts, and counts that "
     "add up to the number of values, after any sequence of updates and merges. Re-binning or "
     "merging histograms moves mass between bins but never creates or loses any. Infinite values "
     "are left out of the histogram and change nothing else in it.",
     ["inputs", "histories"], "every data set, split, merge and target bin count",
     "Loss or duplication of mass occurs only when values or bin borders fall on particular "
     "positions relative to the target bins.",
     [PR + "numerical_column_stats.py", PR + "histogram_utils.py"],
     [("histogram update", PR + "numerical_column_stats.py:_get_histogram,_merge_histogram,"
       "_update_histogram"),
      ("re-binning", PR + "numerical_column_stats.py:_regenerate_histogram,"
       "_assimilate_histogram,_histogram_for_profile"),
      ("histogram merge", PR + "numerical_column_stats.py:_add_helper_merge_profile_histograms")])

prop("P05", "Quantiles, median, mode and MAD are ordered and within the data range",
     "The quantiles derived from a column's histogram are non-decreasing in the requested "
     "percentage, the 0% and 100% quantiles and every quantile in between lie within the minimum "
     "and maximum, and each quantile leaves the right share of the histogram mass on its left. "
     "The median is the 50% quantile (the midpoint when half the mass ends in a gap), modes lie "
     "inside the fullest bins, and the median absolute deviation is the median distance from the "
     "median over the histogram.",
     ["inputs"], "every histogram (bin edges and counts)",
     "The interpolation code has special cases for empty bins, exact halves and values at zero "
     "that the sampled histograms do not hit.",
     [PR + "numerical_column_stats.py"],
     [("percentiles", PR + "numerical_column_stats.py:_get_percentile,_get_quantiles,median"),
      ("mode", PR + "numerical_column_stats.py:_estimate_mode_from_histogram"),
      ("MAD", PR + "numerical_column_stats.py:median_abs_deviation")])

prop("P06", "Null values of a column are counted and located exactly",
     "For any column content, a structured profile reports how many cells are null, which null "
     "representations occurred and at which row positions, the null ratio over all samples, and "
     "passes exactly the other cells on to the statistics. This stays true when data arrives in "
     "several batches (row positions of later batches continue after earlier ones when their "
     "indices overlap), when profiles are merged, and with user-defined null values.",
     ["inputs", "histories", "configurations"],
     "every placement of null and non-null cells over every batch split or merge",
     "The null bookkeeping is index arithmetic over several batches; tests place nulls at a few "
     "fixed positions.",
     [PR + "profile_builder.py"],
     [("null detection", PR + "profile_builder.py:StructuredColProfiler."
       "clean_data_and_get_base_stats"),
      ("accumulation", PR + "profile_builder.py:StructuredColProfiler._update_base_stats,"
       "__add__")])

prop("P07", "Row counts, null rows and duplicate rows are exact",
     "For a structured data set, the total row count, the ratio of rows with at least one null, "
     "the ratio of rows that are entirely null, and the unique-row ratio equal their definition "
     "over all rows profiled, for any placement of nulls and duplicates. They stay exact over "
     "several updates and when two profiles of the same columns are merged.",
     ["inputs", "histories"], "every small table and every split of its rows over updates/merges",
     "Row statistics combine per-column index sets across batches, so an error needs a particular "
     "pattern of nulls across columns and batches.",
     [PR + "profile_builder.py"],
     [("row statistics", PR + "profile_builder.py:StructuredProfiler._update_row_statistics,"
       "_get_row_has_null_ratio,_get_row_is_null_ratio,_get_unique_row_ratio,__add__")])

prop("P08", "Categorical counts, unique ratio and diversity measures are exact",
     "A categorical column profile reports for each distinct value exactly how often it "
     "occurred (most frequent first, up to a top-k limit when one is set), a unique count and "
     "unique ratio consistent with those counts, and Gini impurity and unalikeability equal to "
     "their formulas, for any sequence of updates and merges. Whether the column is treated as "
     "categorical follows the documented thresholds, and once a stop condition is met the "
     "reported unique count and ratio are frozen and no categories are reported. With a count- "
     "min sketch, every value whose share is at least one over the maximum number of heavy "
     "hitters is reported with its count as long as the sketch itself does not overcount.",
     ["inputs", "histories", "configurations"],
     "every sequence of values, split, merge and threshold setting",
     "Counts over merges, thresholds at equality and stop conditions depend on the exact "
     "multiplicities, which tests sample only sparsely.",
     [PR + "categorical_column_profile.py"],
     [("counts", PR + "categorical_column_profile.py:_update_categories,__add__"),
      ("measures", PR + "categorical_column_profile.py:gini_impurity,unalikeability,"
       "unique_ratio,is_match")])

prop("P09", "Column order is classified correctly over batches and merges",
     "The order reported for a column is 'constant value', 'ascending', 'descending' or "
     "'random' exactly as the sequence of values dictates for data seen in one batch. For data "
     "arriving in two batches or by merging two profiles, 'ascending' or 'descending' is "
     "reported exactly if the joined sequence is so ordered in one of the two orders of "
     "joining, batches that are each constant count as constant, everything else is random, "
     "and merging is symmetric in its operands. A later batch keeps 'ascending' or "
     "'descending' exactly if it is so ordered itself and lies outside of (touching allowed) or "
     "strictly within the range seen before, and data seen as random stays random.",
     ["inputs", "histories"], "every sequence of values and every split of it",
     "There are many combinations of ties, constant parts and boundary values between batches; "
     "tests cover a few.",
     [PR + "order_column_profile.py"],
     [("batch order", PR + "order_column_profile.py:_get_data_order"),
      ("merge", PR + "order_column_profile.py:_merge_order,__add__")])

prop("P10", "Datetime columns report the true earliest and latest value",
     "For a column of date or time texts in the supported formats, the reported minimum and "
     "maximum are the earliest and latest valid values seen, in their original spelling, and "
     "the match count is the number of valid ones, for any order, batch split or merge; a "
     "batch with fewer than one valid value in ten (of the at most fifty it is judged by) "
     "contributes none. The list of formats is "
     "the set of formats that matched.",
     ["inputs", "histories"], "every sequence of date texts and every split or merge of it",
     "Min/max over batches and merges must be right for every relative order of the dates and "
     "every placement of invalid cells.",
     [PR + "datetime_column_profile.py"],
     [("update", PR + "datetime_column_profile.py:_update_datetime,_validate_datetime"),
      ("merge", PR + "datetime_column_profile.py:__add__")])

prop("P11", "Profile diffs are zero for equal inputs and antisymmetric otherwise",
     "Comparing two numbers, dates, booleans, labels, lists, sets, dictionaries or matrices in "
     "a diff report yields 'unchanged' exactly when they are equal; otherwise numeric and date "
     "differences are the first minus the second, texts and values missing on one side are "
     "shown as the pair, and list, set and dictionary differences partition the elements "
     "(each occurrence) into only-in-first, shared and only-in-second. Swapping the two sides negates "
     "numbers and swaps the partitions. Comparing two whole profiles never fails for profiles "
     "of the same columns, and each entry is the difference of the two values the profiles "
     "report.",
     ["inputs"], "every pair of values of the supported kinds, including missing values",
     "The laws relate two runs over arbitrary inputs; zero, missing and nested values are easy to "
     "get wrong and rarely sampled.",
     [PR + "profiler_utils.py", PR + "numerical_column_stats.py",
      PR + "categorical_column_profile.py"],
     [("comparisons", PR + "profiler_utils.py:find_diff_of_numbers,find_diff_of_strings,"
       "find_diff_of_lists_and_sets,find_diff_of_dates,find_diff_of_dicts,"
       "find_diff_of_matrices,find_diff_of_dicts_with_diff_keys")])

prop("P12", "Sampling selects distinct valid rows for every random outcome",
     "For every outcome of the random number generator, shuffling row indices in chunks yields "
     "each index exactly once, and reservoir sampling of a file of at least k rows yields k "
     "distinct rows of that file. The number of samples used for profiling is never more than "
     "the data length, never below the required minimum when enough data exists, and all data "
     "is used when it is no larger than the minimum.",
     ["inputs", "configurations", "schedules"],
     "every data length, chunk/sample size and every sequence of random draws",
     "Tests run with one seed; an index arithmetic error shows only for particular draws.",
     [PR + "profiler_utils.py", "dataprofiler/data_readers/data_utils.py",
      PR + "profile_builder.py"],
     [("shuffle", PR + "profiler_utils.py:shuffle_in_chunks,partition"),
      ("reservoir", "dataprofiler/data_readers/data_utils.py:reservoir"),
      ("sample size", PR + "profile_builder.py:BaseProfiler._get_sample_size,"
       "StructuredColProfiler")])

prop("P13", "Columns are matched by name across updates and merges",
     "When a structured profile is updated with, or merged with, data whose columns come in a "
     "different order, every column's values are accounted to the column with the same name "
     "(ignoring capitalisation for updates); columns with equal names must be at identical "
     "positions. Data whose column names do not match the profile is rejected without altering "
     "it.",
     ["inputs", "configurations"], "every arrangement of a small set of column names",
     "The mapping is a permutation problem; tests use one or two permutations.",
     [PR + "profile_builder.py"],
     [("mapping", PR + "profile_builder.py:StructuredProfiler."
       "_get_and_validate_schema_mapping,_update_profile_from_chunk,__add__")])

prop("P14", "Correlation equals the pooled Pearson correlation",
     "The correlation matrix of numeric columns has ones on its diagonal, is symmetric, and "
     "each entry equals the Pearson correlation over all rows seen, however the rows are split "
     "into updates (also batches of one row or with a constant column) or into merged profiles "
     "in which no column is constant; columns that are not numeric, or not among "
     "those asked for, have no entry. A null "
     "counts as the mean of its column in its batch (for up to two batches or merged profiles) "
     "and rows of only nulls are left out, whichever row statistics are enabled. Infinities and "
     "nulls never make profiling fail and give a correlation between -1 and 1 or none.",
     ["inputs", "histories"], "every table of numbers and every split of its rows",
     "The pooled update mixes counts, means and deviations of both parts; errors cancel on "
     "special data such as equal means.",
     [PR + "profile_builder.py"],
     [("update", PR + "profile_builder.py:StructuredProfiler._update_correlation,"
       "_merge_correlation,_merge_correlation_helper")])

prop("P15", "Null replication metrics describe rows with and without nulls",
     "When null replication metrics are enabled, for every column with nulls (and no other) "
     "the reported class priors are the shares of non-null and null rows, and the class sums "
     "and means are those of each other numeric column over the rows where this column is non- "
     "null and null respectively, a null of the other column counting as zero. This also holds "
     "after several updates, in any column order, next to correlations, and after a merge.",
     ["inputs", "histories"], "every small table of numbers with nulls and every split",
     "The metrics are recovered by subtraction from running totals; a wrong base shows only for "
     "some null patterns.",
     [PR + "profile_builder.py"],
     [("metrics", PR + "profile_builder.py:StructuredProfiler._update_null_replication_metrics,"
       "_merge_null_replication_metrics")])

prop("P16", "Statistical tests in diffs follow their formulas",
     "The chi-squared comparison of categorical columns, the t-test between numeric columns "
     "(conservative and Welch) and the population stability index between their histograms "
     "(over ten common bins, bins empty on one side skipped) or category shares equal their "
     "textbook formulas, statistic and degrees of freedom, for any counts, and give zero "
     "statistic for identical distributions. The chi-squared and t statistics do not depend on "
     "operand order except for the sign of t. The chi-squared matrix of a profile holds the "
     "p-values of the pairwise tests between its categorical columns, 1 on the diagonal, and "
     "nothing for other columns, also after updates and merges in any order of the columns.",
     ["inputs"], "every pair of category count tables, moment triples or histograms",
     "Tests compare against a handful of precomputed numbers; formula slips can agree on equal "
     "sizes or single categories.",
     [PR + "profiler_utils.py", PR + "numerical_column_stats.py",
      PR + "categorical_column_profile.py"],
     [("chi2", PR + "profiler_utils.py:perform_chi_squared_test_for_homogeneity"),
      ("t-test", PR + "numerical_column_stats.py:_perform_t_test"),
      ("psi", PR + "numerical_column_stats.py:_calculate_psi")])

prop("P17", "Saved profiles load back with the same content",
     "A column or structured profile saved as JSON or pickle and loaded again reports the same "
     "statistics, including correlations, the chi-squared matrix and null replication metrics, "
     "for any column names. Continuing to update the loaded profile, or merging or comparing "
     "it, gives the same result as doing so with the original. Options and labelled columns "
     "survive as well, sketches (HyperLogLog, count-min) are refused by JSON and kept by "
     "pickle, and a save that fails leaves the profile, with its labeler, as it was.",
     ["inputs", "histories", "fault_sequences"], "every profiled content of the supported column types",
     "Each attribute must survive for every value it can take (missing, zero, infinite, empty), "
     "which fixed examples do not exercise.",
     [PR + "json_encoder.py", PR + "json_decoder.py", PR + "base_column_profilers.py",
      PR + "numerical_column_stats.py", PR + "categorical_column_profile.py",
      PR + "order_column_profile.py", PR + "datetime_column_profile.py"],
     [("encode", PR + "json_encoder.py:ProfileEncoder.default"),
      ("decode", PR + "json_decoder.py:load_column_profile; load_from_dict of each profile")])

prop("P18", "Profile options are set and validated consistently",
     "Setting a dotted option path changes exactly the addressed options (a name found at a "
     "level continues there and is otherwise looked up below every sub-option; '*' addresses "
     "all options at its level), an undotted name that no option has is rejected, and a dotted "
     "path that matches nothing changes nothing. Validation accepts exactly the values allowed "
     "for an option, so values of another type or outside their documented range, and "
     "combinations lacking a statistic another one needs, are reported. The presets and the "
     "list of enabled profiles agree with the option values.",
     ["inputs", "configurations"], "every option path and every numeric value",
     "The number of options and value ranges is far larger than what tests enumerate, and "
     "boundaries are the interesting part.",
     [PR + "profiler_options.py"],
     [("set", PR + "profiler_options.py:BaseOption._set_helper,set"),
      ("validate", PR + "profiler_options.py:_validate_helper of each option class")])

prop("P19", "Word and character counts of text data are exact",
     "For unstructured text, the reported vocabulary and word counts equal the number of times "
     "each character and each word (whitespace separated token without surrounding "
     "punctuation) that is not a stop word occurred over all samples, however the samples are "
     "batched or merged, with and without case sensitivity, user stop words and top-k limits "
     "on the reported counts. Merging is independent of operand order apart from ties, and "
     "comparing two profiles reports the words and characters of either or both and the "
     "differences of their counts, ignoring case unless both profiles respect it.",
     ["inputs", "histories", "configurations"], "every small set of texts and every split or merge",
     "Stop words, case folding and merging interact; tests combine only a few of them.",
     [PR + "unstructured_text_profile.py"],
     [("counts", PR + "unstructured_text_profile.py:_update_words,_update_vocab,_merge_words,"
       "_merge_vocab,__add__")])

prop("P20", "Labeler pre/post-processing keeps characters and labels aligned",
     "Character pre-processing cuts the input texts into pieces no longer than the maximum "
     "length that concatenate back to the original texts, and post-processing returns for "
     "every input text exactly one label per character, taken from the model output for that "
     "character. At word level every word ended by a separator gets a single label, the "
     "dominating one if it reaches the minimum share; entity output lists maximal, in-range, "
     "non-overlapping spans of equal non-background labels; and a cell's label is a most "
     "frequent label of its characters. Regular-expression votes become, per character, the "
     "first matching label in priority order or evenly split votes.",
     ["inputs", "configurations"],
     "every small set of texts, separators, maximum length and label sequence",
     "Off-by-one errors need particular text lengths relative to the maximum length or particular "
     "label runs at text borders.",
     ["dataprofiler/labelers/data_processing.py"],
     [("pre-processing", "dataprofiler/labelers/data_processing.py:"
       "CharPreprocessor._process_batch_helper"),
      ("post-processing", "dataprofiler/labelers/data_processing.py:"
       "CharPostprocessor.match_sentence_lengths,convert_to_NER_format,_word_level_argmax; "
       "StructCharPostprocessor.convert_to_structured_analysis")])

prop("P21", "Column data labels aggregate the model's predictions faithfully",
     "For any confidences a labeler returns, a column's average predictions are the mean "
     "confidence per label over all samples, the label representation is each label's share of "
     "the votes, and the reported label lists the labels by votes within the confidence rules "
     "(ties in any order). Batching and merging do not change these results.",
     ["inputs", "histories"], "every confidence matrix, split and merge",
     "Ties, missing labels and confidence thresholds depend on exact numbers a fixed model output "
     "does not produce.",
     [PR + "data_labeler_column_profile.py"],
     [("aggregation", PR + "data_labeler_column_profile.py:_update_predictions,"
       "avg_predictions,label_representation,data_label,__add__")])

prop("P22", "Flattening JSON keeps every leaf value under its key path",
     "Loading nested JSON as a flat table keeps every leaf value exactly once under its "
     "separator-joined key path, in document order per key and with the rows of record lists "
     "and JSON lines aligned to their records, whatever keys repeat or are missing; lists "
     "inside records stay one cell, malformed lines are ignored, and selected keys give "
     "exactly the columns below them. Data and metadata together hold every leaf. Splitting "
     "text or records into lines or batches loses, repeats or reorders no characters or "
     "records.",
     ["inputs"], "every small nested document, key collision pattern and line size",
     "Key collisions and chunk borders have many combinations; tests use a few documents.",
     ["dataprofiler/data_readers/json_data.py", "dataprofiler/data_readers/text_data.py",
      "dataprofiler/data_readers/structured_mixins.py"],
     [("flatten", "dataprofiler/data_readers/json_data.py:_find_data,_coalesce_dicts"),
      ("chunking", "dataprofiler/data_readers/text_data.py:_get_data_as_text; "
       "dataprofiler/data_readers/structured_mixins.py:_get_data_as_records")])

prop("P23", "Report formatting only removes or rounds, never alters values",
     "Formatting a report as serializable, pretty, compact or flat keeps every key that is not "
     "omitted and its value (pretty: numbers rounded to four decimals; compact: without the "
     "keys documented as dropped), flattening maps each leaf to one key, and omitted keys, "
     "also by wildcard, are exactly those asked for. The requested number of quantiles picks "
     "evenly spaced entries of the full quantile list. Reporting changes neither the profile "
     "nor the options passed in.",
     ["inputs", "configurations"], "every small report tree, omit list and quantile count",
     "The formatter recurses over arbitrary nested reports with wildcards; tests use fixed ones.",
     [PR + "helpers/report_helpers.py"],
     [("format", PR + "helpers/report_helpers.py:_prepare_report,flat_dict,"
       "calculate_quantiles")])

prop("P24", "A column's data type is the most specific type all values match",
     "The data type reported for a column is the first of datetime, int, float, text for which "
     "every non-null value seen so far matches, also after several batches or a merge, and its "
     "statistics come from that type's profile (long texts are 'text', texts of up to 255 "
     "characters 'string'). The reported match ratio of each type is the share of values that "
     "match it.",
     ["inputs", "histories"], "every mixture of cell kinds and every split or merge",
     "Type selection depends on counts accumulated over batches for all types at once.",
     [PR + "column_profile_compilers.py", PR + "int_column_profile.py",
      PR + "float_column_profile.py", PR + "text_column_profile.py"],
     [("selection", PR + "column_profile_compilers.py:ColumnPrimitiveTypeProfileCompiler."
       "selected_data_type,profile,__add__"),
      ("matching", PR + "numerical_column_stats.py:is_int,is_float")])

prop("P25", "Validation reports exactly the rows matching range and list rules",
     "For any numeric column, validating a range rule reports exactly the rows whose value "
     "lies within the closed interval, and a list rule exactly the rows whose value is in the "
     "list, as row labels for pandas and row positions for dask data. A run reports only the "
     "columns and rules of its own configuration, and malformed configurations or cells that "
     "are not numbers are refused without results.",
     ["inputs"], "every column of numbers, interval and list",
     "Boundary values and equal bounds are rarely sampled.",
     ["dataprofiler/validators/base_validators.py"],
     [("rules", "dataprofiler/validators/base_validators.py:is_in_range,is_in_list,"
       "Validator.validate")])

prop("P26", "Graph profiles report true graph measures",
     "For any graph, the profile's node count, edge count, average node degree and largest "
     "component size (edges of a component with the most nodes) equal their definitions, and "
     "attribute lists and categorical distributions cover exactly the edge attributes present, "
     "an attribute being categorical when one of its values is integral. For continuous "
     "attributes the reported distribution is the candidate that fits best.",
     ["inputs"], "every small graph and edge attribute assignment",
     "Tests use two or three fixed graphs; components and attributes combine in many ways.",
     [PR + "graph_profiler.py"],
     [("measures", PR + "graph_profiler.py:_get_num_nodes,_get_num_edges,_get_avg_node_degree,"
       "_get_global_max_component_size,_get_categorical_distribution")])

prop("P27", "Entity counts and percentages of labelled text are exact",
     "For labelled unstructured text, the true-character, word and post-processed counts per "
     "label equal the number of characters and words carrying that label (an entity word is a "
     "maximal span of its label, a background word one that a separator ends), percentages are "
     "those counts over their total, and batching or merging profiles adds the counts.",
     ["inputs", "histories"], "every text length, label sequence, split and merge",
     "Word-level counting is a scan over spans whose borders must be right at text ends and label "
     "changes.",
     [PR + "unstructured_labeler_profile.py"],
     [("counts", PR + "unstructured_labeler_profile.py:_update_word_label_counts,"
       "_update_true_char_label_counts,_update_postprocess_char_label_counts,"
       "_update_percentages,__add__")])

prop("P28", "Float precision statistics are exact under batching and merging",
     "For a float column, the min, max, sum, mean, variance and count of significant digits "
     "equal their definition over all values sampled, for any batch split or merge; at least "
     "one value of every batch is sampled. The digits counted are those from the first to the "
     "last non-zero digit of the numeral, with sign, decimal point and exponent left out.",
     ["inputs", "histories"], "every list of numerals and every split or merge",
     "Tests check one split; the running variance of the digit counts can be wrong from the "
     "second batch on.",
     [PR + "float_column_profile.py"],
     [("precision", PR + "float_column_profile.py:_get_float_precision,_update_precision,"
       "__add__")])

prop("P29", "Work spread over processes gives the result of a single process",
     "A structured profile updated with a pool of processes reports the same as one updated "
     "without, for any data, whichever of the tasks are refused, fail or finish late, and the "
     "same holds for later updates. Merging a list of profiles with a pool gives the same as "
     "merging them one by one, and leaves the given profiles and their labelers unchanged.",
     ["inputs", "schedules", "fault_sequences"],
     "every fate (refused, failed, early, late) of every task, and every order of merging tasks",
     "Multiprocessing starts only for large data, so tests reach it through mocks of one schedule; "
     "a lost or repeated task needs a particular combination of failures.",
     [PR + "column_profile_compilers.py", PR + "profile_builder.py", PR + "profiler_utils.py"],
     [("statistics tasks", PR + "column_profile_compilers.py:BaseCompiler.update_profile"),
      ("cleaning tasks", PR + "profile_builder.py:StructuredProfiler._update_profile_from_chunk"),
      ("list merge", PR + "profiler_utils.py:merge_profile_list")])

prop("P30", "Switching a statistic off changes nothing but that statistic",
     "For any allowed combination of switched-off statistics, every statistic that is on reports "
     "what it reports with all of them on, after updates and after merging columns whose switches "
     "differ (which reports the statistics both have on); a report asked to leave out what is "
     "switched off leaves out exactly that. A column reports as many quantiles as were asked for, "
     "also after merging. Switching off a kind of column profile, the row statistics, the "
     "correlations, the chi-squared tests or the null replication metrics leaves the rest of a "
     "structured report unchanged.",
     ["inputs", "configurations"],
     "every allowed combination of switches of a column, a text or a table, and every value",
     "There are thousands of combinations of switches, and a statistic that silently depends on "
     "another one being on shows only for some of them and some data.",
     [PR + "numerical_column_stats.py", PR + "profiler_options.py", PR + "profile_builder.py",
      PR + "unstructured_text_profile.py", PR + "column_profile_compilers.py"],
     [("switches of numbers", PR + "numerical_column_stats.py:NumericStatsMixin.report"),
      ("merge of switches", PR + "base_column_profilers.py:BaseColumnProfiler._merge_calculations"),
      ("switches of texts", PR + "unstructured_text_profile.py:TextProfiler.report"),
      ("kinds of statistics", PR + "column_profile_compilers.py:BaseCompiler._create_profile")])

prop("P31", "Unstructured profiles account for every text",
     "For any texts passed as a text, list, series (whatever its row labels) or frame, an "
     "unstructured profile reports how many texts it used, how many of them are blank, their size "
     "in bytes, and the characters and words of exactly the others, and shows only samples that "
     "occur. This holds over updates and merges (which also join file types and encodings), and a "
     "comparison of two profiles reports the differences of these numbers. When texts are sampled, "
     "it holds for the sample drawn, which has the size asked for and grows only while it has too "
     "few texts that are not blank.",
     ["inputs", "histories"],
     "every sequence of texts, every row label, batch split, merge and random draw",
     "Blank texts, repeated row labels and samples combine in ways a test with one list of texts "
     "does not show.",
     [PR + "profile_builder.py", PR + "unstructured_text_profile.py", PR + "profiler_utils.py"],
     [("update", PR + "profile_builder.py:UnstructuredProfiler._clean_data_and_get_base_stats"),
      ("merge", PR + "profile_builder.py:UnstructuredProfiler.__add__"),
      ("report", PR + "profile_builder.py:UnstructuredProfiler.report")])

prop("P32", "Table files are read completely and in order",
     "Reading a delimited file with given delimiter, header row and encoding returns exactly its "
     "rows, in order, with every cell as the text it spells (quotes undone, blanks and null-like "
     "words kept), under the names of the header, and selected columns return exactly those; files, "
     "byte and text buffers are read alike, however long the file and whether or not its last line "
     "ends. For tables of words and numbers delimiter and header are recognised, files are opened "
     "with the reader of their format (delimited, JSON, parquet, Avro, text), and parquet and Avro "
     "files yield all rows of all groups. Reloading a reader replaces its data.",
     ["inputs", "configurations"],
     "every table of cells from the list, every delimiter, header position, source and option",
     "Cells that are empty, quoted or look like nulls at the first or last position of a file "
     "combine with options and sources in ways single example files do not show.",
     ["dataprofiler/data_readers/csv_data.py", "dataprofiler/data_readers/data_utils.py",
      "dataprofiler/data_readers/data.py", "dataprofiler/data_readers/parquet_data.py",
      "dataprofiler/data_readers/avro_data.py"],
     [("delimited", "dataprofiler/data_readers/csv_data.py:CSVData._load_data_from_file"),
      ("guess", "dataprofiler/data_readers/csv_data.py:CSVData._guess_header_row"),
      ("reading", "dataprofiler/data_readers/data_utils.py:read_csv_df,read_parquet_df"),
      ("format", "dataprofiler/data_readers/data.py:Data.__new__")])

prop("P33", "Labelers apply their rules, labels and training data faithfully",
     "A rule-based labeler marks every character covered by a match of a label's rules with that "
     "label, the others with the default one, and resolves overlaps by the given priority; it does "
     "so for every text, for any number of texts and kind of input, also after its rules are "
     "replaced and after it is saved and loaded. Column names get the label of a most similar known "
     "name if that is above the threshold (and no name to be ignored is as similar as its own), "
     "with that similarity. Labels set or added keep the codes of the others, and training hands "
     "every text with its own label to the model, the asked share to training and all others to "
     "validation, the same in every epoch.",
     ["inputs", "configurations", "histories"],
     "every text, rule and label mapping from the lists, every similarity score, every permutation",
     "Overlapping matches, labels sharing a code, thresholds met exactly and small training sets "
     "are combinations single examples do not show.",
     ["dataprofiler/labelers/regex_model.py", "dataprofiler/labelers/column_name_model.py",
      "dataprofiler/labelers/base_model.py", "dataprofiler/labelers/base_data_labeler.py"],
     [("rules", "dataprofiler/labelers/regex_model.py:RegexModel.predict"),
      ("names", "dataprofiler/labelers/column_name_model.py:ColumnNameModel.predict"),
      ("labels", "dataprofiler/labelers/base_model.py:BaseModel.add_label,set_label_mapping"),
      ("training", "dataprofiler/labelers/base_data_labeler.py:TrainableDataLabeler.fit")])

prop("P34", "Evaluation scores are those of the labels compared",
     "For any predicted and true labels, evaluating a labeler reports for every label not left out "
     "its precision, recall, F1 score and support (0 where a ratio is undefined), the weighted and "
     "micro averages (the accuracy when no label is left out) and the macro average over the labels "
     "that occur, over every position compared; positions a text has no true label for count as "
     "the padding label. The score returned is that macro F1 and a confusion matrix written to a "
     "file counts true labels in rows and predicted ones in columns.",
     ["inputs", "configurations"],
     "every sequence of predicted and true labels up to the bound, every set of labels left out",
     "Labels that never occur, are never predicted or are left out, and texts of unequal length, "
     "decide the averages; the tests use one or two examples.",
     ["dataprofiler/labelers/classification_report_utils.py",
      "dataprofiler/labelers/labeler_utils.py"],
     [("scores", "dataprofiler/labelers/classification_report_utils.py:classification_report,"
       "precision_recall_fscore_support"),
      ("evaluation", "dataprofiler/labelers/labeler_utils.py:evaluate_accuracy")])

prop("P35", "Graphs show what the profile holds",
     "The missing values graph of a structured profile draws for every column, in the order of the "
     "columns and under their names, one bar as long as the column has rows and marks on it exactly "
     "the rows that are null, each null spelling in the colour its legend shows, wherever the nulls "
     "lie. Histogram graphs show, for exactly the int and float columns asked for (by name in any "
     "capitalisation, by position, or all) in the order of the columns, the bins of the column's "
     "histogram with their counts; selections that name unknown columns, or both names and "
     "positions, are refused.",
     ["inputs", "configurations"],
     "every set of null rows up to the bound, every selection of columns",
     "Blocks of nulls of different lengths in different order decide what is drawn; the tests look "
     "at one arrangement.",
     ["dataprofiler/reports/graphs.py"],
     [("missing values", "dataprofiler/reports/graphs.py:plot_col_missing_values"),
      ("histograms", "dataprofiler/reports/graphs.py:plot_histograms,plot_col_histogram")])

prop("P36", "Histograms binned by a named method get the bins that method gives",
     "A numeric histogram whose bin count is left to a named method (sturges, rice, sqrt, scott, "
     "doane, fd, auto) has, after one batch, exactly the number of bins numpy gives for that method "
     "and those values, at most 100000, and one bin when all values are equal. In a merged profile "
     "it has the smallest whole number of bins of the method's width that covers the range of all "
     "the data, the width following from the number of values, range, deviation, skewness and "
     "quartiles of the profile; where a method gives no width there is one bin. Methods that only "
     "count (sturges, rice, sqrt) give the same bins however the data is batched. Asked for several "
     "methods, the histogram is that of one of them; unknown methods are refused.",
     ["inputs", "histories"],
     "every range, deviation, quartiles and small data set within the bounds, for every method",
     "Each rule has corners (no deviation, two values, an extreme of zero, infinite extremes) that "
     "decide the count; the tests look at a few fixed profiles.",
     [PR + "histogram_utils.py", PR + "numerical_column_stats.py"],
     [("bin rules", PR + "histogram_utils.py:_calculate_bins_from_profile,_get_bin_edges"),
      ("use of the suggestion", PR + "numerical_column_stats.py:_get_histogram,"
       "_histogram_for_profile,_add_helper")])

prop("P37", "Graph files are loaded with every node, edge and attribute",
     "An attributed edge list (a delimited file) is loaded as an undirected graph with exactly one "
     "edge per pair of nodes named in a row and no other nodes: nodes are integers where their cell is "
     "an integer, signed or not, and otherwise the text of the cell; the other cells are the edge's "
     "attributes as numbers under their column's name, later rows of the same edge adding to and "
     "replacing earlier ones, empty cells giving no attribute. The node columns are the ones given by "
     "position or the first whose names hold a source and a target keyword set off by _ . or -; blanks "
     "around cells and in column names do not count. This holds wherever the columns stand, for any "
     "delimiter and header line given, for files and buffers. A file is recognised as a graph exactly "
     "when its column names hold a source, a target and a graph keyword.",
     ["inputs", "configurations"],
     "every small edge list, arrangement of columns and way of reading within the bounds",
     "The tests load four files with plain positive node numbers and compare nodes and edges only; "
     "attributes, signs, names, column positions and empty cells are never looked at.",
     ["dataprofiler/data_readers/graph_data.py", "dataprofiler/data_readers/filepath_or_buffer.py"],
     [("loading", "dataprofiler/data_readers/graph_data.py:_format_data_networkx,check_integer"),
      ("recognition", "dataprofiler/data_readers/graph_data.py:is_match,csv_column_names,"
       "_find_target_string_in_column")])

TECH = ("bounded symbolic execution of the real Python code (own DSE over z3: values, choices and "
        "random draws symbolic, branches forked, assertions discharged by unsat), every "
        "counterexample replayed on unpatched code")
NOTE = ("bounded: holds for all values within the sizes listed in the evidence's bounds; floats as "
        "exact reals; environment stubs listed in evidence and DESIGN.md. ")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "vp", "props"))
            if f.startswith("p") and f[1:-3].isdigit()}
    checks, na = [], []
    for p in P:
        if p["claimed"] and p["pid"] in have:
            checks.append(dict(
                property=p["pid"], quick_cmd="/verif/check %s --tier quick" % p["pid"],
                thorough_cmd="/verif/check %s --tier thorough" % p["pid"],
                technique=TECH, level="model_checking", level_note=NOTE + p["note"]))
        else:
            na.append(dict(property=p["pid"],
                           reason=p["reason"] or "check not built yet"))
    m = dict(version=1, setup_cmd="/verif/setup.sh", checks=checks, not_applicable=na,
             notes="One engine (vp/engine.py, vp/patches.py, vp/ctx.py, vp/run.py), one harness "
             "module per property (vp/props). See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed;", [n["property"] for n in na])


main()
