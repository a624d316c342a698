PROPS += [
    P(
        "P01",
        "Batch history does not change exact column statistics",
        "A structured profile that received its rows in any number of batches, in any split and order, with reports in between and with any row labels, reports exactly what the rows say: "
        "row and sample counts, null counts and kinds, inferred data type and type ratios, min, max, sum, mean, variance, standard deviation, skewness, kurtosis, zero and negative counts, "
        "float precision statistics, text vocabulary, datetime range and formats, the order of the values (random as soon as one batch is unordered or batches run in opposite directions, sorted when all are and their ranges do not overlap), and for columns kept as categories the distinct values and their counts. "
        "The same rows in one batch give the same values up to floating-point rounding.",
        ["histories", "inputs", "configurations"],
        "every partition and arrival order of every table into batches, every option set that leaves the statistic on",
        "Unit tests fix a handful of batches; moments, nulls, types and precision are folded incrementally and depend on where the batch boundaries fall.",
        [PB, NUM, "dataprofiler/profilers/float_column_profile.py", "dataprofiler/profilers/int_column_profile.py", "dataprofiler/profilers/text_column_profile.py", "dataprofiler/profilers/datetime_column_profile.py", CAT],
        [("incremental moment update", NUM), ("null separation and base statistics", PB), ("data type selection", "dataprofiler/profilers/column_profile_compilers.py")],
        observe=["StructuredProfiler.report"],
    ),
    P(
        "P02",
        "Merged profiles equal one profile of all the rows",
        "Merging profiles of parts of a dataset, in any merge tree and operand order, with parts whose columns come in a different order, and with updates before and after merges, "
        "reports the same exact statistics as the union of the rows. Merging a profile with itself counts every row twice.",
        ["histories", "inputs", "configurations"],
        "every sharding, merge tree and interleaving of merges and updates",
        "Tests merge two hand-made profiles once; associativity over trees, updates after merges and one-sided emptiness are not reached.",
        [PB, NUM, CAT, PU],
        [("profile addition", PB), ("column statistics addition", NUM)],
        observe=["StructuredProfiler.__add__", "StructuredProfiler.report"],
    ),
    P(
        "P03",
        "Row-level statistics are right for every delivery history",
        "Row count, unique-row ratio, duplicate-row count and the ratios of rows with some or only nulls equal those of all rows received, whatever the batch split, merge tree, row labels (continuing, restarting, overlapping or jumping) and column order, "
        "exactly with full row hashing and within the sketch's error with the probabilistic counter. The row labels kept for null cells are never lost and never collide.",
        ["histories", "inputs", "configurations"],
        "every batch/merge history and labelling of rows, both row hashing methods, with and without a minimum number of true samples",
        "Index shifting and row hashing across batches depend on the history; tests use two or three fixed frames.",
        [PB],
        [("row hashing and null-row sets", PB), ("overlap detection and index shift", PB)],
        observe=["StructuredProfiler.report global_stats", "null_types_index"],
    ),
    P(
        "P04",
        "Histogram-based statistics stay consistent with the data",
        "At every point of a batch and merge history a numeric column's histogram counts exactly its values and spans exactly its minimum to maximum, edges ascend, counts are never negative, quantiles ascend and stay in range, "
        "and quantiles, median, mode and median absolute deviation agree with the data to within the resolution of the histogram. User-chosen bin counts are honoured.",
        ["histories", "inputs", "configurations"],
        "every batch/merge history of numeric columns and every binning option",
        "Histograms are rebuilt from earlier histograms on each update and merge; only long histories show lost counts or drifting edges.",
        [NUM, "dataprofiler/profilers/histogram_utils.py"],
        [("histogram update and assimilation", NUM), ("quantile interpolation", NUM)],
        observe=["report statistics.histogram, quantiles, median, mode, median_abs_deviation"],
    ),
    P(
        "P05",
        "Category counts are faithful in every counting mode",
        "Over any batch and merge history, exact mode reports every value with its exact count; top-k mode reports the k largest counts; sketch mode never under-counts, never loses a value above the heavy-hitter share and stays within its error; "
        "and a column that met the configured stop condition stays non-categorical with the unique statistics frozen at that moment. Counts are listed in descending order.",
        ["histories", "inputs", "configurations"],
        "every batch/merge history and every category option",
        "Tests sample single updates per mode; carrying sketches, top-k settings and stop flags through merges and further updates needs histories.",
        [CAT],
        [("category update, sketch merge, stop condition", CAT)],
        observe=["report statistics.categorical_count, unique_count, unique_ratio"],
    ),
    P(
        "P06",
        "Cross-column statistics match the rows over any history",
        "Correlations of numeric columns without nulls, chi-squared homogeneity p-values of categorical columns and null-replication priors, sums and means, when switched on, equal those computed from all rows received, "
        "over any batch split, merge tree and column order, and switching several on at once changes none of them.",
        ["histories", "inputs", "configurations"],
        "every batch/merge history of tables with mixed column types (correlations: parts merged in which every numeric column varies)",
        "Correlation is updated from earlier means and deviations; tests cover two-batch updates of all-numeric frames only.",
        [PB, PU],
        [("correlation update and merge", PB), ("chi-squared matrix", PB), ("null replication metrics", PB)],
        observe=["report global_stats.correlation_matrix, chi2_matrix, data_stats.*.null_replication_metrics"],
    ),
    P(
        "P07",
        "Merging never entangles profiles",
        "Merging two profiles changes neither of them, and afterwards updates to an operand do not show in the merged profile, updates to the merged profile do not show in an operand, "
        "and both go on exactly as if the other did not exist.",
        ["histories", "configurations"],
        "every interleaving of updates, merges and reports over operands and results",
        "Shared sub-objects only show when an operand or result is changed after the merge; tests discard the operands.",
        [PB, CAT, NUM],
        [("profile and column addition", PB)],
        tech="twin",
        observe=["StructuredProfiler.report of operands and results"],
    ),
    P(
        "P08",
        "Looking at a profile never changes it",
        "Reports in any format, differences and saves, taken at any moments of a history, leave later reports exactly as they would have been without them; two reports in a row agree. "
        "Emptying the dictionaries and lists of a returned report or difference does not alter the profile, and option dictionaries passed by the caller come back unchanged.",
        ["histories", "configurations"],
        "every placement of observations in a batch/merge history",
        "Observation caches intermediate results (histograms, labelers) whose staleness only shows after further updates.",
        [PB, NUM, "dataprofiler/profilers/helpers/report_helpers.py"],
        [("report preparation", "dataprofiler/profilers/helpers/report_helpers.py"), ("histogram selection cache", NUM)],
        tech="twin",
        observe=["StructuredProfiler.report, diff, save"],
    ),
    P(
        "P11",
        "A profile saved with pickle survives any crash",
        "Saving a structured profile to disk and loading it after the process died at any later moment gives back exactly the saved profile: the same reports, and from then on the same behaviour under updates, merges, "
        "reports and further saves as if the process had never stopped. Saves that were completed are never lost, and saving changes nothing in the profile that was saved.",
        ["crash_points", "histories", "configurations"],
        "every history of updates, merges, saves and crashes, every option set, restarts at every point between operations",
        "Tests save once and compare attributes; state left out of the file shows only when the restored profile goes on, under options the tests do not combine with saving.",
        [PB, "dataprofiler/profilers/base_column_profilers.py"],
        [("save and load", PB), ("column profile state", "dataprofiler/profilers/column_profile_compilers.py")],
        tech="fault",
        observe=["StructuredProfiler.save / Profiler.load / report"],
    ),
    P(
        "P12",
        "A profile saved as JSON survives any crash",
        "What holds for pickled profiles holds for profiles saved as JSON: the restored profile gives the same reports and goes on under updates, merges and further saves as the original would have; "
        "a profile either is saved completely or the save raises.",
        ["crash_points", "histories", "configurations"],
        "every history of updates, merges, JSON saves and crashes, every option set whose state JSON can hold",
        "The JSON encoders and decoders are written per class; a field dropped or turned into another type shows only when the restored profile is updated or merged.",
        [PB, "dataprofiler/profilers/json_encoder.py", "dataprofiler/profilers/json_decoder.py"],
        [("JSON encoding", "dataprofiler/profilers/json_encoder.py"), ("JSON decoding", "dataprofiler/profilers/json_decoder.py"), ("per-class load_from_dict", NUM)],
        tech="fault",
        observe=["StructuredProfiler.save(save_method='json') / Profiler.load / report"],
    ),
    P(
        "P13",
        "A failed save is reported and does no harm to the profile",
        "When saving a profile fails at any point (open refused, write error, disk full, torn write, error at close) the failure is raised to the caller, the profile in memory is unchanged and usable "
        "(same reports, updates, merges, data labelers in place), no file handle stays open, other saved profiles are untouched, and saving again once the fault is gone succeeds and is complete.",
        ["fault_sequences", "histories", "configurations"],
        "every failing step of every save, for both methods, at any point of a history",
        "Tests never make the disk fail; the save path takes the labelers out of the profile while it writes.",
        [PB],
        [("save: labelers taken out and put back", PB)],
        tech="fault",
        observe=["StructuredProfiler.save, report, update_profile"],
    ),
    P(
        "P14",
        "A profile file loads whole or not at all",
        "Loading a profile file that was cut off, overwritten by a save that died, partly zeroed or replaced by something else, or loading through read errors, either raises or returns exactly the saved profile, never a silently different one. "
        "Loading never changes the file, leaves no handle open, never disturbs other profiles, and works once the fault is gone. Loading a sound file with the wrong load_method raises. Two loads of a file are independent profiles.",
        ["fault_sequences", "crash_points", "inputs"],
        "every truncation point, torn write and read fault for both file formats, every loader and load_method",
        "Tests load only files they just wrote successfully.",
        [PB, "dataprofiler/profilers/json_decoder.py"],
        [("load by method with fall-back", PB)],
        tech="fault",
        observe=["Profiler.load, StructuredProfiler.load"],
    ),
    P(
        "P23",
        "Data labels follow the column's values over any history",
        "With a data labeler attached, a column's label representation and average predictions equal those of the labels of all its non-null values, and its data label is the one the documented rule picks, "
        "whatever the batch split and merge tree, as long as the labeler's sample limit is not exceeded.",
        ["histories", "inputs"],
        "every batch/merge history with a deterministic labeler",
        "Tests label one batch with a mocked model; the sums are carried through updates, merges and empty columns.",
        ["dataprofiler/profilers/data_labeler_column_profile.py", PB],
        [("label sums, update and merge", "dataprofiler/profilers/data_labeler_column_profile.py")],
        observe=["report data_label, statistics.data_label_representation"],
    ),
    P(
        "P09",
        "A refused operation leaves everything as it was",
        "An update, merge, difference or save that the profiler refuses (columns missing, added, renamed or repeated, something that is no data, settings of the wrong type, another schema, incompatible options, another kind of profile, an unknown save method) "
        "raises, and afterwards the profile and the other operand report and go on exactly as if it had never been tried. Empty batches change nothing.",
        ["histories", "inputs", "configurations"],
        "every refused operation at every point of a batch/merge history",
        "Tests check that the error is raised, not that nothing was changed before it was.",
        [PB, "dataprofiler/profilers/column_profile_compilers.py"],
        [("schema validation before update", PB), ("merge error checks", PB)],
        tech="twin",
        observe=["StructuredProfiler.update_profile, __add__, diff, save, report"],
    ),
    P(
        "P10",
        "A difference says what the two reports say",
        "Every entry of the difference of two structured profiles agrees with their reports: unchanged exactly where the reports agree, otherwise the difference of the numbers, both values, or what only one, both and only the other contain; "
        "t-test and PSI follow from the reported statistics (PSI is never negative), the opposite difference is the mirror image, and the difference of a profile to itself, or to one with the same history, is unchanged everywhere.",
        ["histories", "inputs", "configurations"],
        "every pair of profiles reached by any batch/merge history",
        "Tests compare two fixed profiles; all-null, one-sided and merged columns are not reached.",
        [PB, NUM, CAT, PU, "dataprofiler/profilers/column_profile_compilers.py"],
        [("difference helpers", PU), ("numeric differences, t-test and PSI", NUM), ("categorical differences", CAT)],
        observe=["StructuredProfiler.diff, report"],
    ),
    P(
        "P15",
        "Worker processes never change the result",
        "With multiprocessing on, whatever order workers finish in and whichever pools, submissions or tasks fail, an update completes, gives the report that a single process gives, and leaves no worker pool open; "
        "an unknown number of CPUs or amount of memory does not stop it. With multiprocessing off no pool is started.",
        ["schedules", "fault_sequences", "inputs", "configurations"],
        "every completion order and every set of failing pool operations, over any batch history of wide tables",
        "Tests mock the pool or let all tasks succeed in order.",
        [PB, PU, "dataprofiler/profilers/column_profile_compilers.py"],
        [("column cleaning in a pool with fall-back", PB), ("column statistics in a pool with fall-back", "dataprofiler/profilers/column_profile_compilers.py"), ("pool sizing", PU)],
        tech="fault",
        observe=["StructuredProfiler.update_profile, report"],
    ),
]

DR = "dataprofiler/data_readers/"
LB = "dataprofiler/labelers/"
PROPS += [
    P(
        "P17",
        "A seed makes every result repeatable",
        "With a seed given by set_seed or by DATAPROFILER_SEED, the same sequence of operations (profiles built with sampling, updates, merges, reports, sampled CSV and Parquet reads, row batches, free-text profiles) "
        "gives the same results, drawn samples included, whatever else the process does with the global random generators, other profilers or the clock in between, and also in another process.",
        ["histories", "schedules", "inputs"],
        "every operation history, every seed, every state of the process-wide generators, any string hashing",
        "Tests reset all generators right before each call, so a draw from an unseeded generator goes unnoticed.",
        [PB, PU, "dataprofiler/rng_utils.py", DR + "base_data.py", DR + "csv_data.py", DR + "data_utils.py"],
        [("seeded generator", "dataprofiler/rng_utils.py"), ("sampling generators", PU), ("row samples and batches", DR + "data_utils.py")],
        tech="twin",
        observe=["report, Data.data, get_batch_generator"],
    ),
    P(
        "P18",
        "A sampled profile describes exactly the rows it sampled",
        "When an update samples, it uses exactly min(sample size, rows) rows (or goes on until the asked number of non-null values), no row twice, the same rows in every column; all statistics are exactly those of the rows used, "
        "row counts are those of all rows, the same holds over further updates and merges, and over many seeds every row is used about equally often.",
        ["histories", "inputs", "configurations"],
        "every batch/merge history with every sample size and minimum of true samples",
        "Tests check counts of one sampled update; which rows were used, and that they are the same in all columns, is not visible to them.",
        [PB, PU],
        [("sample index generator", PU), ("sample ids passed to every column", PB)],
        observe=["StructuredProfiler.report (an identifying column names the rows used)"],
    ),
    P(
        "P19",
        "A file reads the same by every route, and as it was written",
        "A CSV, JSON, Parquet, Avro, text or graph file read from a path, a bytes buffer, a text buffer, an HTTP URL (any framing, segmentation, compression, redirects), an S3 object or by reloading gives the same reader class, settings and data or the same refusal; JSON, Parquet and Avro files are recognised as such; "
        "with its encoding and layout given, the content is exactly what was written, in order. The caller's buffers and options are left as they were and can be read again.",
        ["inputs", "schedules", "configurations"],
        "every file of the supported kinds, every transfer framing and segmentation, every route",
        "Tests read small local fixtures; buffer routes are compared on a few files and the network is mocked above the socket.",
        [DR + "data.py", DR + "base_data.py", DR + "csv_data.py", DR + "json_data.py", DR + "parquet_data.py", DR + "avro_data.py", DR + "text_data.py", DR + "graph_data.py", DR + "data_utils.py", DR + "filepath_or_buffer.py"],
        [("route selection", DR + "data.py"), ("buffer handling", DR + "filepath_or_buffer.py"), ("url download", DR + "data_utils.py")],
        tech="fault",
        observe=["Data(...), .data, .file_encoding, the caller's buffer"],
    ),
    P(
        "P20",
        "A read that meets a fault raises or returns exactly the data",
        "When any read of a file, buffer, HTTP or S3 response fails, is short or is cut off, while the type is detected or the data is loaded, the reader raises or returns the class and data of the fault-free read, never a silently different result; "
        "short reads alone never fail, no file stays open, the caller's buffer stays open, and reading again (also with the same reader object) succeeds once the fault is gone.",
        ["fault_sequences", "inputs"],
        "every position of every fault in the sequence of reads, every file kind and route",
        "Tests never make a read fail; detection code catches exceptions broadly.",
        [DR + "data.py", DR + "base_data.py", DR + "csv_data.py", DR + "json_data.py", DR + "parquet_data.py", DR + "avro_data.py", DR + "text_data.py", DR + "data_utils.py", DR + "filepath_or_buffer.py"],
        [("type detection", DR + "data.py"), ("encoding detection", DR + "data_utils.py"), ("lazy loading", DR + "base_data.py")],
        tech="fault",
        observe=["Data(...), .data, exceptions, open files"],
    ),
    P(
        "P21",
        "Row samples and row batches are made of the file's rows",
        "A reader asked for n rows returns min(n, rows) different rows, each exactly as in the file (quoted newlines included), drawn uniformly; "
        "batch generators hand out every row exactly once in batches of the asked size, also when several run interleaved, and leave the data unchanged.",
        ["inputs", "schedules", "configurations"],
        "every file, sample size, seed, header position, batch size and interleaving of generators",
        "Tests check the number of sampled rows on one fixture.",
        [DR + "csv_data.py", DR + "data_utils.py", DR + "base_data.py", DR + "parquet_data.py"],
        [("reservoir sampling", DR + "data_utils.py"), ("sampling whole records", DR + "csv_data.py"), ("batch generator", DR + "base_data.py")],
        observe=["CSVData/ParquetData(options={'sample_nrows': n}).data, get_batch_generator"],
    ),
    P(
        "P16",
        "Threads that use the library at the same time do not influence each other",
        "Profilers (structured and free text) and readers used in different threads, sharing options, labeler, input data and files, give every thread exactly the results it obtains alone under every interleaving; "
        "an error in one thread reaches only that thread, nobody waits for ever; used first by several threads at once the logger gets one handler and keeps a verbosity that was set.",
        ["schedules", "histories"],
        "every interleaving of two or three threads, pre-empted at any line of the library",
        "Tests are single-threaded; a shared mutable default, module-level cache or class attribute is invisible to them.",
        [PB, "dataprofiler/profilers/column_profile_compilers.py", "dataprofiler/dp_logging.py", DR + "data.py", DR + "csv_data.py"],
        [("logger initialisation under a lock", "dataprofiler/dp_logging.py"), ("profilers built from shared options", PB)],
        tech="sched",
        observe=["report, diff, Data(...).data per thread; handlers and level of the DataProfiler logger"],
    ),
    P(
        "P22",
        "A saved data labeler comes back labelling exactly as before",
        "A data labeler saved to a directory and loaded has the same components, parameters, labels and predictions, drawn ones included (the random state is part of it), and goes on as the original would; saving does not change the live labeler. "
        "A save that meets a disk error raises; loading an incomplete or unreadable directory raises or gives exactly that labeler, never another one.",
        ["fault_sequences", "crash_points", "histories", "configurations"],
        "every labeler of the shipped regex, column-name and character pipelines, every fault or crash position in save and load, every history of predictions and parameter changes",
        "Tests save one labeler with mocked files; no write or read fails and no drawn prediction is continued.",
        [LB + "base_data_labeler.py", LB + "data_processing.py", LB + "regex_model.py", LB + "column_name_model.py"],
        [("save and load of all components", LB + "base_data_labeler.py"), ("processor parameters and random state", LB + "data_processing.py")],
        tech="fault",
        observe=["save_to_disk, load_from_disk, predict, get_parameters"],
    ),
    P(
        "P24",
        "A free-text profile is that of all its lines, however they arrived",
        "Word counts, vocabulary, line counts, empty lines and data labels of an unstructured profile equal those computed from all its lines, whatever the batches, merges, updates, row labels, stop words, case sensitivity and top-k; "
        "reports and diffs leave it unchanged; saved and loaded it is the same, and a save that fails says so and changes nothing.",
        ["histories", "inputs", "configurations", "fault_sequences"],
        "every batch/merge/save history over every text",
        "Tests profile fixed texts in one or two updates.",
        ["dataprofiler/profilers/unstructured_text_profile.py", "dataprofiler/profilers/unstructured_labeler_profile.py", PB],
        [("word and vocabulary counting", "dataprofiler/profilers/unstructured_text_profile.py"), ("empty lines, updates and merges", PB)],
        tech="fault",
        observe=["UnstructuredProfiler.report, diff, save, load"],
    ),
    P(
        "P25",
        "Labels end up at the texts and characters they were predicted for",
        "Whatever the other texts in the call, the batch size, maximum length, separator, flattening and input type, every text gets exactly the labels and confidences of its own characters, also when several threads use one labeler or an earlier prediction failed; "
        "training data made by the preprocessors carries every character exactly once, in order, with its own label.",
        ["inputs", "configurations", "schedules"],
        "every list of texts, every pipeline configuration, every batch partition and interleaving",
        "Tests use a few hand-made texts per configuration; the split/flatten/rejoin arithmetic has many boundary cases.",
        [LB + "base_data_labeler.py", LB + "data_processing.py", LB + "regex_model.py"],
        [("splitting and flattening", LB + "data_processing.py"), ("rejoining predictions", LB + "data_processing.py")],
        tech="sched",
        observe=["BaseDataLabeler.predict, preprocessor.process"],
    ),
    P(
        "P26",
        "A graph profile describes the last graph it was given, and survives saving",
        "Node and edge counts, average degree, largest component, attribute kinds, histograms and best-fitting distributions are those of the last graph, whatever was profiled before; refused input changes nothing and graphs are left as they were; "
        "a save that meets a disk error raises, a completed one loads as the same profile and an incomplete one is refused or the same.",
        ["histories", "inputs", "fault_sequences", "crash_points"],
        "every sequence of graphs, saves, loads, faults and crashes",
        "Tests profile two fixed graphs.",
        ["dataprofiler/profilers/graph_profiler.py", DR + "graph_data.py"],
        [("graph statistics", "dataprofiler/profilers/graph_profiler.py")],
        tech="fault",
        observe=["GraphProfiler.update, report, diff, save, load"],
    ),
    P(
        "P27",
        "Merging a list of profiles in worker processes equals merging them here, and leaves them usable",
        "merge_profile_list gives the profile of all rows, the same as pairwise merging, for every completion order of its workers; a worker, submission or pool failure raises; "
        "either way the given list and profiles, data labelers included, go on exactly as if they had not been merged, and so does the result.",
        ["schedules", "fault_sequences", "histories", "inputs"],
        "every sharding, worker order and worker fault, followed by further batches and merges",
        "Tests merge two and three fixed profiles without faults and look at six statistics.",
        ["dataprofiler/profilers/profiler_utils.py", "dataprofiler/profilers/data_labeler_column_profile.py"],
        [("merge_profile_list", "dataprofiler/profilers/profiler_utils.py")],
        tech="fault",
        observe=["merge_profile_list, then report, update and merge of its inputs and result"],
    ),
    P(
        "P28",
        "Every data format a reader offers holds the file's rows",
        "Data frame, records, JSON and text, asked for in any sequence from one reader of a path, buffer or given data, hold exactly the file's rows (characters) in order, with the configured number per entry, and batches are made of them; "
        "a format that is not offered is refused, a read that fails raises, and neither changes the format or later results.",
        ["histories", "inputs", "configurations", "fault_sequences"],
        "every sequence of format changes, reads and read faults over every file",
        "Tests look at the types and lengths of the formats of a few files.",
        [DR + "structured_mixins.py", DR + "base_data.py", DR + "csv_data.py", DR + "json_data.py", DR + "parquet_data.py", DR + "text_data.py"],
        [("data formats", DR + "structured_mixins.py"), ("data property", DR + "base_data.py")],
        tech="fault",
        observe=["data_format, data, len and get_batch_generator of the reader classes"],
    ),
    P(
        "P29",
        "Validation results are exactly those of the last completed run",
        "After any sequence of validation runs a validator's results hold, for exactly the columns and rules of the last completed run, exactly the rows whose values meet the rule, for pandas and dask frames, "
        "whatever the partitioning, the order in which dask's tasks finish and what was validated before; a run that is refused or meets a failing task raises and leaves the earlier results; data and configuration stay as they were.",
        ["histories", "schedules", "fault_sequences", "inputs"],
        "every sequence of runs, every partitioning and task order, every failing task",
        "Tests validate one frame once per validator.",
        ["dataprofiler/validators/base_validators.py"],
        [("validate and get", "dataprofiler/validators/base_validators.py")],
        tech="fault",
        observe=["Validator.validate, Validator.get"],
    ),
]
