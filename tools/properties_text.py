prop("C01", "Batching does not change what a profile reports",
     "Feeding a table to a structured profile in any sequence of batches (of any sizes, with or without missing "
     "values) yields the same row counts, minima, maxima, sums, means, variances, skewness, kurtosis, zero and "
     "negative counts, precision figures, category counts, vocabulary and date range as feeding all of the rows "
     "at once, namely the values these statistics have by definition over all rows seen so far.",
     ["inputs", "histories"], "all tables and all ways to split them into consecutive updates",
     "The tests compare a handful of fixed splits of fixed tables; the statistics are maintained incrementally, so "
     "an error needs a particular combination of batch contents (a zero extreme, a constant batch, an all-null "
     "batch, a type change) to show.",
     [PB, NUM, FLT, INT, TXT, CAT, DAT, BASE],
     mech(("incremental moment merging", NUM), ("per-column update", PB), ("precision merging", FLT)))
prop("C02", "Merging two profiles equals profiling the concatenated data",
     "Adding two structured profiles with the same columns gives a profile which reports, for every statistic "
     "that is a function of the data (counts, types, nulls with their row positions, moments, extremes, "
     "categories, vocabulary, precision, dates, row statistics), exactly what profiling the first data set followed "
     "by the second would report. This holds for any nesting of merges and updates, including operands that are "
     "themselves merged, that are the same profile, or whose columns come in another order.",
     ["inputs", "histories"], "all pairs of profiles reachable by updates and merges",
     "Tests merge a few pairs of small profiles once; merged profiles that are updated or merged again, one-sided "
     "empty columns and reordered columns are not reached.",
     [PB, NUM, FLT, INT, TXT, CAT, DAT, BASE, CMP],
     mech(("__add__ of the profiles", PB), ("__add__ of the column profiles", BASE), ("_add_helper", NUM)))
prop("C03", "Operations on one profile never change another",
     "Merging, saving, loading, reporting on or comparing profiles leaves every operand's report unchanged, and "
     "later updating a merged or loaded profile does not change the profiles it was made from (nor the other way "
     "round).",
     ["histories", "configurations"], "all interleavings of updates, merges, saves, loads, reports and diffs over several profiles, for several option sets",
     "Aliasing only shows when a profile is used again after it took part in an operation; unit tests look at the "
     "result and then drop the operands.",
     [PB, NUM, CAT, BASE, CMP], mech(("copying in __add__", PB), ("copying of histograms and categories", NUM)))
prop("C04", "A profile saved to disk and loaded back is the same profile",
     "Loading a structured profile saved with the default method gives a profile with the same report, for all "
     "options including approximate category counts, approximate row counts, correlation and null replication "
     "metrics; updating or merging the loaded profile gives the same results as updating or merging the original.",
     ["inputs", "histories", "configurations"], "all profiles reachable by updates and merges, and all continuations",
     "Tests save and load fresh profiles of a few tables and mostly compare reports, not how the loaded profile "
     "continues.",
     [PB, CAT], mech(("save / load", PB)))
prop("C05", "A profile saved as JSON and loaded back is the same profile",
     "Loading a structured profile saved with the json method gives a profile with the same report, and updating "
     "or merging the loaded profile gives the same results as updating or merging the original, for all options "
     "other than approximate counting (which json does not support).",
     ["inputs", "histories", "configurations"], "all profiles reachable by updates and merges, and all continuations",
     "Tests decode fixed small profiles; state that only matters for later updates (index bookkeeping, histogram "
     "state, name maps) is not exercised afterwards.",
     [PB, JDE, JEN, NUM, CAT, ORD, DAT], mech(("json encoder", JEN), ("load_from_dict", JDE)))
prop("C06", "Missing values are counted and located exactly",
     "For every column the report's sample size, null count, set of null spellings and row positions of each "
     "spelling are exact for all data seen, under the default null spellings, a replaced set (with per-spelling "
     "regular expressions) and per-column additions; no value is both counted as missing and used in a statistic, "
     "and sample values are never missing ones.",
     ["inputs", "histories", "configurations"], "all tables, batchings, merges and null-value configurations",
     "Tests look at single batches with the default spellings; positions across overlapping batch indices and "
     "merges, and custom spellings after reordering, are not covered.",
     [PB, UTL], mech(("clean_data_and_get_base_stats", PB), ("_update_base_stats index shifting", PB)))
prop("C07", "Row statistics count distinct and incomplete rows exactly",
     "The number of rows, the ratio of distinct rows, the number of duplicate rows, and the ratios of rows with "
     "some missing and with only missing values are exact over all rows seen, whatever the batching, the order or "
     "letter case of the batch's columns, repeated column names, and merges; with approximate row counting the "
     "distinct count is exact for small tables.",
     ["inputs", "histories", "configurations"], "all tables, batchings, column orders and merges",
     "Tests cover single batches and one merge; equal rows arriving in different batches, orders or profiles are "
     "not explored.",
     [PB], mech(("_update_row_statistics", PB), ("hashed_row_object merge", PB)))
prop("C08", "Columns are matched by name, and a rejected operation changes nothing",
     "A batch is accepted exactly if its column names are those of the profile, ignoring letter case and order "
     "(columns sharing a name must be at the same positions), and each column's data goes to the column of that "
     "name; profiles are merged exactly if their columns have the same names. A rejected update or merge raises "
     "an error and leaves every profile as it was.",
     ["inputs", "histories"], "all schemas with reordering, recasing, repeated names, missing and extra columns",
     "Tests check a few accepted and rejected schemas, not that the data went to the right columns afterwards nor "
     "that a rejected operation left the profile untouched.",
     [PB], mech(("_get_and_validate_schema_mapping", PB), ("_update_profile_from_chunk", PB)))
prop("C09", "The reported data type is the narrowest that fits every value",
     "A column is reported as datetime, int, float or string, the first of these that every non-missing value "
     "seen so far fits (none if there is no value), and the report states the exact fraction of values fitting "
     "each type, whatever the batching and merging.",
     ["inputs", "histories"], "all mixtures of integers, decimals, dates, text and nulls in any batching",
     "Tests use homogeneous columns; the type must stay right when later batches or merged profiles contradict "
     "earlier ones.",
     [CMP, INT, FLT, DAT, TXT], mech(("selected_data_type", CMP), ("match counting", INT)))

prop("C10", "Category statistics are exact, also under the options that limit them",
     "A column is categorical exactly if it has at most ten distinct values or at most one in five values is "
     "distinct. Distinct count and ratio, category list, per-category counts, Gini impurity and unalikeability are "
     "exact over all values seen, whatever the batching and merging. With top_k_categories the listed categories "
     "are the k most frequent, in descending order; with a stop condition categories are dropped once a batch "
     "meets it and the distinct count stays as it was then; with a count-min sketch exactly the values making up at least "
     "1/cms_max_num_heavy_hitters of the column are categories (with exact counts for small columns).",
     ["inputs", "histories", "configurations"], "all columns, batchings, merges, saves and category options",
     "Tests pin single batches per option; heavy hitters that only become frequent across batches, ties, stop "
     "conditions met by a merge and updates after either are not explored.",
     [CAT, UTL], mech(("_update_categories", CAT), ("_merge_categories_cms", CAT), ("stop condition", CAT), ("__add__", CAT)))
prop("C11", "Histogram, quantiles, median, mode and MAD describe the data",
     "The histogram of a numeric or text-length column covers exactly the range from minimum to maximum, its counts "
     "are not negative and add up to the number of values, and up to bin resolution as many values lie below each "
     "bin edge as it says. Quantiles are non-decreasing and have their share of the values below them, the median "
     "and the median absolute deviation are those of the data up to bin resolution, and the mode of data given at "
     "once is a most frequent value. This holds after any updates and merges.",
     ["inputs", "histories"], "all numeric and text columns in all batchings and merges",
     "Tests compare a few fixed distributions; re-binning after later batches and merges depends on how the "
     "ranges of the batches lie to each other.",
     [NUM, HIS], mech(("_update_histogram and _assimilate_histogram", NUM), ("_get_percentile", NUM),
                      ("median_abs_deviation", NUM), ("_add_helper_merge_profile_histograms", NUM)))
prop("C12", "Statistics about pairs of columns follow from the data",
     "The chi-squared matrix holds, for every pair of categorical columns, the p-value of the homogeneity test on "
     "their category counts. For numeric columns without missing values the correlation matrix holds Pearson's "
     "correlation over all rows seen (nan for a constant column). The null replication metrics of a column with missing "
     "values hold the exact class priors and, for numeric columns, the sums and means of the other columns over the "
     "rows where it is missing and where it is not. All of this is independent of batching, merging, saving and of the "
     "order of a batch's columns.",
     ["inputs", "histories", "configurations"], "all tables, batchings, merges, saves and column orders",
     "Tests use a few fixed tables and one merge; single-row batches, constant columns and reordered columns are "
     "not reached.",
     [PB, UTL], mech(("_update_chi2", PB), ("_merge_correlation_helper", PB), ("_update_null_replication_metrics", PB),
                     ("perform_chi_squared_test_for_homogeneity", UTL)))
prop("C13", "The reported order of a column is right for every batch history",
     "Within one batch the order is ascending, descending, constant value or random according to the sequence of "
     "its non-missing values (compared as numbers while all values are numbers, as text otherwise). Batches and "
     "merged profiles are pieces that may have come in any order: pieces of the same order whose ranges do not "
     "overlap (or lie within the range of a column already made of pieces) keep that order, a constant piece outside an "
     "ascending or descending range keeps it too, any other combination is random, and random is final. Missing "
     "values and all-missing batches never change the order, and merging is symmetric.",
     ["inputs", "histories"], "all sequences of batches and merges",
     "Tests list single pairs of orders; the kept range and piecewise flag matter only several batches later.",
     [ORD], mech(("_merge_order", ORD), ("_update_order", ORD)))
prop("C14", "A text profile counts lines, words and characters exactly",
     "An unstructured profile reports the exact number of lines and empty lines, the size of the text, every distinct "
     "character of the non-empty lines and every distinct word (blank-separated, without surrounding punctuation, "
     "without stop words, in lower case if case is ignored) with their counts, of which the most frequent are listed "
     "when a limit is set. This holds over all updates, in whatever form the lines come. Merging gives "
     "the counts of all lines of both under the combined options (case counts only if it counts for both, the stop "
     "words of either, the larger limit, only what both compute); differently named data is not merged; saving and "
     "loading changes nothing; no operation changes another profile.",
     ["inputs", "histories", "configurations"], "all texts, batchings, option combinations and merges",
     "Tests merge two small profiles with one option differing at a time; combinations of stop words, case and "
     "limits and their effect on later updates are not covered.",
     [UTX, PB, CMP], mech(("_update_words, _update_vocab", UTX), ("_merge_words, __add__", UTX),
                          ("_clean_data_and_get_base_stats", PB), ("UnstructuredProfiler.__add__", PB)))
prop("C15", "Comparing two profiles reports exactly how they differ",
     "The comparison of two profiles reports each number as unchanged or as the first minus the second, each "
     "label (type, order, categorical) as unchanged or as the pair, each collection (null spellings and their row "
     "positions, vocabulary, categories, words) as what only the first has, what both have and what only the second has, "
     "counts as their differences, dates as the signed time between them, and matrices entry by entry, all "
     "consistent with the data of the two profiles. Columns are compared only if both profiles have the same columns in "
     "the same places. Test statistics (chi-squared, t) and their degrees of freedom follow from the data; the "
     "stability index is never negative and is 0 for a profile compared with itself. Comparing changes neither profile.",
     ["inputs", "histories"], "all pairs of profiles reachable by updates and merges, structured and text",
     "Tests compare a few fixed pairs; empty sides, all-missing columns, repeated values and case conflicts occur "
     "only in particular pairs.",
     [PB, UTL, NUM, CAT, DAT, ORD, UTX, CMP],
     mech(("diff of each profile class", PB), ("find_diff_of_*", UTL), ("_perform_t_test, _calculate_psi", NUM),
          ("perform_chi_squared_test_for_homogeneity", UTL)))
prop("C16", "Reading a file returns exactly the records stored in it",
     "A reader that is told how a file is written (kind, delimiter, quote character, header row, encoding) returns "
     "exactly the columns and cells of the table stored in it, as text, with rows numbered from 0: delimited text with any quoting, line "
     "ends and cells holding delimiters, quotes or line breaks; JSON arrays and JSON lines (blank lines, missing keys, nulls, "
     "nested objects as dotted columns); parquet files with any row groups; avro; plain text. This holds whether the "
     "file is given as path, bytes or text stream or string, for every data format of the reader (tables, records, json, chunks of "
     "text) in any order of switching, for selected columns, and after reloading with another file. A "
     "sample of n rows consists of n different rows of the file (all of them if there are fewer). Profiling a reader is profiling its records.",
     ["inputs", "configurations", "histories"], "all tables, ways of writing them, reader options and sequences of uses of a reader",
     "Tests read a fixed set of sample files; no test writes a table with awkward cells and compares every cell read back.",
     [CSV, JSN, PAR, AVR, TXD, DUT, BDT, MIX, FOB],
     mech(("read_csv_df, rsample", DUT), ("_load_data_from_file, _get_data_as_records", CSV), ("json_to_dataframe, read_json", DUT),
          ("_find_data, _coalesce_dicts, _convert_flat_to_nested_cols", JSN), ("read_parquet_df, sample_parquet", DUT),
          ("FileOrBufferHandler", FOB), ("reload", BDT)),
     observe=["the data, length and format properties of a reader", "the report of a profile of the reader"])
prop("C17", "The kind and layout of a file are recognised from its content",
     "Opened without being told its kind, a file is recognised by its content and read completely: parquet and avro files, "
     "JSON arrays and lines, short plain texts, and plain tables of at least five rows as delimited text (cells of numbers and words, "
     "at least one column of numbers; separated by comma, tab, semicolon or bar with no other character separating the rows as well; "
     "words holding the delimiter quoted; with or without a header row of words; encoded as ASCII, UTF-8 with byte "
     "order mark or UTF-16). The delimiter and the header row, or its absence, are found, and the columns and cells returned are "
     "those stored in the file, also when an opened reader is reloaded with a differently written file.",
     ["inputs", "configurations", "histories"], "all such files, given as path or stream",
     "Detection works on the first lines in fixed-size chunks with many special cases; tests use a fixed set of sample files.",
     [DTA, CSV, JSN, PAR, AVR, TXD, DUT, FOB, BDT],
     mech(("_guess_delimiter_and_quotechar, _guess_header_row, is_match", CSV), ("is_match", JSN), ("load_as_str_from_file, detect_file_encoding", DUT),
          ("Data.__new__", DTA)),
     observe=["data_type, delimiter, header and data of the reader returned by Data"])

prop("C18", "Report options select and render, and nothing else",
     "A report in any format, with any omit_keys, number of quantile groups and remove_disabled_flag, holds exactly the "
     "entries of the plain report which the omitted key paths (wildcards, column names), the compact format and the disabled statistics do "
     "not take out, each with the plain report's value: rounded to four decimals or shortened in the pretty and compact formats, "
     "JSON-serialisable in the serializable one, under joined keys in the flat one. With g groups the quantiles are those at "
     "1/g, 2/g, and so on of the full set. Asking changes neither the profile nor the caller's options, and "
     "a report already handed out is not changed by later operations.",
     ["configurations", "inputs", "histories"], "all report options, structured and text profiles with any statistics switched off",
     "Tests check single formats and a few omit_keys on one profile; combinations of wildcards, formats and disabled statistics are not reached.",
     [REP, PB, NUM, FLT, INT, TXT, UTX], mech(("_prepare_report, calculate_quantiles, flat_dict", REP), ("report", PB),
          ("_remove_disabled_stats", NUM)))
prop("C19", "Switching a statistic off removes it and changes nothing else",
     "Whatever combination of statistics, data types, row statistics and correlation matrices is switched off, the "
     "statistics that are on are the ones reported without it and those that are off are reported as absent, also after "
     "updates, merges and saves. Combinations in which a statistic that is on needs one that is off are refused when the "
     "profile is made. Profiles are merged exactly if they compute the same kinds of statistics; other "
     "statistics are on in the merged profile if they are on in both.",
     ["configurations", "inputs", "histories"], "all subsets of the structured options, data, merges and saves",
     "Tests switch off one option at a time on one batch; there are exponentially many combinations, and what a disabled "
     "statistic leaves behind matters only in later batches and merges.",
     [OPT, NUM, PB, CMP, INT, FLT, TXT], mech(("options validation", OPT), ("_filter_properties_w_options", NUM), ("__calculations maps", NUM),
         ("__add__", CMP)))
prop("C20", "A sampled profile is the exact profile of a random sample of rows",
     "With samples_per_update of k, or by default for big data, each update profiles a sample of different rows of its batch, "
     "of the stated size (all rows if there are no more; with min_true_samples, more rows are taken until each column has "
     "that many non-missing values or the batch ends). Every statistic of the profile is the exact one of the cells sampled so "
     "far, the row statistics cover the rows sampled, and the counts of samples used say how many there were. The same seed, "
     "options and batches always give the same profile. Merges of sampled profiles are profiles of the combined samples.",
     ["inputs", "configurations", "histories"], "all batches, sample sizes, minimum counts of values, seeds, updates and merges; tables and texts",
     "Tests switch sampling off by staying below its threshold or look at sizes alone; none recomputes the profile of the sample taken.",
     [PB, UTL, OPT, UTX], mech(("clean_data_and_get_base_stats, _get_sample_size, _update_profile_from_chunk", PB),
         ("shuffle_in_chunks", UTL), ("samples_per_update, min_true_samples", PB)),
     observe=["global_stats and data_stats of the report", "which unique cells appear in the report"])
prop("C21", "The form in which data is given does not matter",
     "A profile of a batch depends only on the text of its cells: tables of strings, of Python numbers, dates and missing objects, "
     "of numpy numbers, of columns of different such types, single columns, lists of rows and readers give "
     "the statistics of the same table of strings. This holds for every update, and for merges of profiles.",
     ["inputs", "histories"], "all tables in all of these forms, batchings and merges",
     "Tests hand over strings nearly always; numbers and dates turn into text on different code paths.",
     [PB, UTL, BASE], mech(("_update_profile_from_chunk, clean_data_and_get_base_stats", PB), ("update_profile", PB)))
prop("C22", "Labelers keep the model's label of every character, however texts are cut",
     "Whatever way texts are cut into samples and joined (maximum length, share of joined samples, separator, cutting at word ends "
     "or not, batch size), a labeler returns one answer per text in the order given, and every character has the label that the "
     "model gives to it; with word labels, a word has the label of at least the required share of its characters, "
     "else the background label, and separators have the background label; entities are the maximal stretches of one label with "
     "exact positions; a cell has the most frequent label of its characters, padding aside and the background last, with "
     "the shares of the labels as confidences. Regular expression labelers label exactly the stretches that match a "
     "pattern, shared, prioritised or drawn as asked; column names get the most similar known name above the threshold unless "
     "a known exception is near. Training samples pair each character with its label, padding with the padding "
     "label, in full batches. The form of the data and whether confidences are asked for do not matter, data is left as it "
     "was, new labels get the next number, and a saved labeler loads as the same one.",
     ["inputs", "configurations", "histories"], "all texts, cells and names, all parameters of the processors and models, and sequences of predictions, changes of parameters and saves",
     "Tests run a few sentences through fixed lengths; what goes wrong depends on where a text ends relative to the sample length and the separator.",
     [DPR, RGX, CNM, BDL, BMO], mech(("_process_batch_helper, convert_to_unstructured_format", DPR), ("match_sentence_lengths, _word_level_argmax, convert_to_NER_format", DPR),
         ("convert_to_structured_analysis", DPR), ("RegexModel.predict", RGX), ("ColumnNameModel.predict", CNM), ("predict, save_to_disk, load_from_disk", BDL), ("add_label", BMO)),
     observe=["pred and conf returned by predict", "batches of the preprocessor", "label_mapping and parameters of a loaded labeler"])
prop("C23", "The labels a profile reports are those of all the data it has seen",
     "With a labeler switched on, a column reports the distribution of the labels of all its cells that are not missing, the average of their "
     "confidences, and as its label the most frequent ones (at most three within 20 percentage points of the first; undetermined below "
     "35 percent, none without cells); a text reports the numbers and shares of its characters by label, before and after words "
     "are taken as a whole, and of its entities and words. This holds for every batching, for merges in any nesting, after saving and loading by pickle or JSON, and "
     "with a bounded number of cells looked at per batch; comparing two profiles gives the differences, and no profile is changed by operations on others.",
     ["inputs", "histories"], "all tables and texts, batchings, merges, saves and comparisons",
     "Tests update a labelled column once or twice with replaced labelers; merges with columns without values and profiles loaded and then updated are not reached.",
     [DLC, ULP, DPR, PB, JDE], mech(("update, __add__, data_label, avg_predictions, label_representation", DLC), ("update, __add__, _update_word_label_counts", ULP),
         ("word level labels", DPR), ("load_from_dict", DLC)))
