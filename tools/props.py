"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

S="beep/structure/"; F="beep/features/"; PR="beep/protocol/"

p("P01", "Saved objects reload with the state they were saved with",
  "Every object BEEP can save (cycler runs, diagnostic configurations, impedance spectra, featurizers, feature matrices, trained model experiments, prediction datasets and data splitters, Biologic cycle-advancement rules) reloads with each saved item of its state back in the place it came from. No item that the loader restores is missing from the saved form, none is filled from a different item, and an item saved as absent reloads as absent.",
  ["inputs","histories"], "for every state an instance can be in when it is saved, and for every saved item",
  "The round-trip tests reload a few instances whose optional parts are mostly unset (and most structured-run round trips fail here for lack of data files), so a dropped, renamed or crossed item that those instances do not populate goes unnoticed.",
  [S+"base.py", S+"diagnostic.py", S+"base_eis.py", F+"base.py", "beep/model.py", "beep/prediction/beep_data_splitter.py", PR+"maccor_to_biologic_mb.py"],
  [("as_dict/from_dict, json/parse_json pairs", "one writer/reader pair per class"), ("constructors called by the readers", "__init__ of each class")],
  ["to_json_file / from_json_file", "as_dict / from_dict", "dumpfn / loadfn"])

p("P02", "Structuring a run never alters its raw data",
  "Validating, structuring, summarising or interpolating a cycler run, regular or diagnostic, leaves the run's raw measurement table with exactly the rows, columns and values it had before. The same holds for the diagnostic configuration attached to the run.",
  ["inputs","configurations","histories"], "for every run, structuring parameters and sequence of structuring calls",
  "Tests compare structured outputs; none compares the raw table before and after, and a stray column or in-place edit shows only when the same run is validated, restructured or saved again.",
  [S+"base.py", S+"validate.py", S+"diagnostic.py"],
  [("raw_data read through masks, groupby and copies", S+"base.py:BEEPDatapath"), ("validators read-only over the frame", S+"validate.py")],
  ["BEEPDatapath.raw_data after structure()"])

p("P03", "Featurizing a run never alters the run or the hyperparameters given",
  "Checking or creating features leaves the input run (raw data, structured tables, diagnostic data and configuration, metadata) unchanged, so that the features obtained do not depend on which other featurizers ran before on the same run. The hyperparameters the caller passed, and a featurizer's published defaults, are left unchanged as well.",
  ["inputs","histories","configurations"], "for every featurizer, run and order of featurizers applied to that run",
  "Featurizer tests build each featurizer on a freshly loaded run and look only at the features; order effects between featurizers sharing one run, as the command line uses them, are never sampled (and most of these tests cannot run here).",
  [F+"base.py", F+"core.py", F+"featurizer_helpers.py", F+"intracell_losses.py", F+"intracell_losses_v2.py", F+"intracell_analysis.py", F+"intracell_analysis_v2.py"],
  [("create_features/validate methods", F+"core.py, intracell_losses*.py"), ("helper functions over datapath frames", F+"featurizer_helpers.py")],
  ["the datapath object passed to a featurizer", "DEFAULT_HYPERPARAMETERS"])

p("P04", "Training, predicting and splitting never alter the caller's tables",
  "Fitting a model, scoring it, predicting with it or splitting data into train and test sets leaves the feature and target tables passed in with the same columns, rows and values. In particular the same feature matrix can be used for any number of predictions and yields the same result each time.",
  ["inputs","histories"], "for every feature/target matrix and every sequence of train, score, predict and split calls on it",
  "Existing tests call each operation once per freshly loaded matrix; a mutation only matters to the next use of the same matrix.",
  ["beep/model.py", "beep/prediction/beep_data_splitter.py", F+"base.py"],
  [("copies taken before columns are renamed, dropped or scaled", "beep/model.py:train,predict"), ("dataset split on derived frames", "beep/prediction/beep_data_splitter.py")],
  ["BEEPFeatureMatrix.matrix before/after train, predict"])

p("P05", "Results never depend on what else ran earlier in the process",
  "No operation leaves behind a change to shared library state: configuration loaded at import, class-level defaults, default argument values, or templates reused between calls stay as they were. Processing an input after any other inputs therefore gives what it gives in a fresh process.",
  ["histories","inputs"], "for every sequence of library calls in one process",
  "Each test exercises one call on fresh expectations; leakage through a shared dictionary or default argument needs a particular pair of calls in one process.",
  ["beep"],
  [("module-level tables and templates treated as read-only / deep-copied", "beep/**"), ("mutable default arguments never written", "beep/**")],
  ["module-level tables after any call"])

p("P06", "One bad file never stops a batch; halt-on-error stops it with the error",
  "In every batch command line operation, any failure while reading, checking, processing or writing one input is caught and recorded for that input and the remaining inputs are still processed and the status report still written; when halting on errors was requested, the failure propagates instead. A keyboard interrupt ends the command with a failing exit code rather than being recorded as a bad input.",
  ["inputs","fault_sequences"], "for every failure raised at any point of the per-input work, and every position of the failing input",
  "Command line tests cover a few hand-picked bad files and mostly cannot run here; the point at which an input fails is unbounded.",
  ["beep/cmd.py"],
  [("per-input try/except with traceback recording and conditional re-raise", "beep/cmd.py:structure,featurize,train,predict,protocol"), ("status json written after the loop", "beep/cmd.py")],
  ["exit code, status json"])

p("P07", "The batch status report states only what actually happened",
  "In the status report of a command line operation, an input is marked validated, structured, featurized, trained, predicted or generated, and an output path or checksum is given, only if that very step completed and that very file was written; a failed step is reported as not done and carries its traceback. Each input's entry describes that input's own outcome, and every input attempted has an entry.",
  ["inputs","fault_sequences"], "for every combination of failing and succeeding steps and inputs",
  "The report tests look at the all-succeed case and a couple of failures; a flag set one statement too early is wrong only when the next statement fails.",
  ["beep/cmd.py"],
  [("flags initialised false and set after the step", "beep/cmd.py op_result/op_subresult/status_json")],
  ["status json"])

p("P08", "Every command line option reaches the step it documents",
  "Each command line option takes effect on the operation under the meaning it documents: its value arrives unchanged (apart from the documented parsing) at the library parameter of the same meaning, no option is ignored or crossed with another, and options left unset keep the library's defaults. Every library operation the commands call exists and accepts the arguments it is given.",
  ["inputs","configurations"], "for every combination of option values, including 0 and other falsy values",
  "Option combinations are unbounded and the command line tests use a handful; an option passed to a misnamed parameter fails only when that option is used.",
  ["beep/cmd.py", "beep/model.py", S+"base.py"],
  [("click options to function parameters to library keyword arguments", "beep/cmd.py")],
  ["command line"])

p("P09", "Only data that passed validation is structured or featurized by a command",
  "The structuring command writes a structured output only for an input whose validation reported success, and the featurizing command uses a featurizer only after it reported the run as valid; in validation-only mode nothing is structured or written. What validation reported is what decides and what is recorded.",
  ["inputs"], "for every input file and featurizer",
  "Tests run a few valid and invalid files; the guarantee is about every path from loading to writing.",
  ["beep/cmd.py", S+"base.py", F+"base.py"],
  [("validate() result checked before structure()/create_features()", "beep/cmd.py")],
  ["written outputs, status json"])

p("P10", "Every rule a validation schema declares is enforced",
  "A raw data table is accepted by validation only if it satisfies every rule its schema declares for every declared column (presence, type, minimum, maximum, monotonicity and so on, within the declared tolerance); the first violated rule rejects the table with a reason naming that rule and column. Every kind of rule used in the shipped schemas is one the validator enforces.",
  ["inputs","configurations"], "for every schema and every table",
  "Schema tests feed a few broken tables; a rule kind silently skipped for some columns or a violated rule whose rejection is lost is invisible to them.",
  [S+"validate.py", "beep/validation_schemas"],
  [("rule dispatch", S+"validate.py:SimpleValidator"), ("schemas", "beep/validation_schemas/*.yaml")],
  ["BEEPDatapath.validate()"])

p("P11", "Regular and diagnostic cycles never mix in structured results",
  "With a diagnostic configuration set, the regular interpolated data and the regular summary contain no diagnostic cycle, the diagnostic data and the diagnostic summary contain only diagnostic cycles, and each diagnostic cycle carries the type its configuration gives it. Cycles asked to be excluded do not appear in the regular interpolated data.",
  ["inputs","configurations"], "for every run, diagnostic configuration and exclusion list",
  "Tests check two or three stored runs (most unavailable here) with their standard configurations.",
  [S+"base.py", S+"diagnostic.py"],
  [("membership masks on the configuration's cycle indices", S+"base.py:interpolate_cycles,summarize_cycles,interpolate_diagnostic_cycles,summarize_diagnostic"), ("type tables", S+"diagnostic.py:DiagnosticConfig")],
  ["structured_data, structured_summary, diagnostic_data, diagnostic_summary"])

p("P12", "Each summary quantity is the one its name says",
  "In the regular and diagnostic cycle summaries and in the interpolated tables, every column holds the quantity it names, computed from the measurements of that quantity in that cycle: charge figures from charge measurements, discharge figures from discharge measurements, capacity from capacity, energy from energy, minima, maxima and averages from the matching statistic, and charge steps from charging steps.",
  ["inputs"], "for every run",
  "Where charge and discharge values of the sample data are close, or a table is only shape-checked, exchanged quantities pass.",
  [S+"base.py"],
  [("aggregation table paired by position with the summary column names", S+"base.py:BEEPDatapath.__init__"), ("derived columns", S+"base.py:summarize_cycles,summarize_diagnostic,interpolate_diagnostic_cycles"), ("step filters", S+"base.py:iterate_steps_in_cycle, step_is_chg_state")],
  ["structured_summary, diagnostic_summary, structured_data"])

p("P13", "Every cycler format is ingested into the same quantities and units",
  "Whatever the cycler format, a loaded run's standard columns hold the quantity their name says in BEEP's units (volts, amperes, ampere-hours, watt-hours, seconds, charge and discharge kept apart) taken from that quantity's own source column. Formats recorded in milli-units or hours are converted exactly once, by the right factor.",
  ["inputs"], "for every raw file of every supported cycler format",
  "Each loader is tested on one or two files, often only for shape or a mean, and several loaders have no runnable test here.",
  [S+"arbin.py", S+"maccor.py", S+"neware.py", S+"indigo.py", S+"biologic.py", S+"novonix.py", S+"battery_archive.py", "beep/conversion_schemas"],
  [("column maps", "beep/conversion_schemas/*.yaml"), ("scaling statements", "from_file of each loader")],
  ["raw_data columns"])

p("P14", "A raw file is always read by the loader of its own format",
  "Automatic loading sends each raw file whose name matches a supported cycler's naming pattern to that cycler's loader, every supported cycler format is reachable, and a name matching none is refused with an error rather than read as something else. Processed files are recognised as current or legacy by their content and never silently loaded as the other kind.",
  ["inputs"], "for every file name and processed file",
  "Dispatch tests try one name per available sample file.",
  [S+"cli.py", "beep/__init__.py", S+"base.py"],
  [("pattern dispatch", S+"cli.py:auto_load, auto_load_processed")],
  ["auto_load, auto_load_processed"])

p("P15", "Operations refuse objects that are not in the state they need",
  "An operation that needs structured results, raw data, features or a trained model refuses, with an error, an object that does not have them, instead of returning or saving something incomplete: legacy runs cannot be validated, restructured or re-saved, cycle-life queries need a structured run, features can only be read, combined or saved once created, and only a trained model predicts or is saved. A successful structuring, featurization or training is what makes these become available.",
  ["histories"], "for every sequence of operations on an object",
  "Only a few of the forbidden sequences are tested.",
  [S+"base.py", F+"base.py", "beep/model.py"],
  [("guard decorators", S+"base.py:StructuringDecorators"), ("state checks", F+"base.py, beep/model.py")],
  ["raised errors"])

p("P16", "Test data never influences what is learned from training data",
  "When a model is trained on a fraction and scored on the rest, or data are split for prediction, no sample is in both parts, features and targets of each part belong to the same samples, and everything learned (imputation, scaling, feature selection by scaling, model coefficients) is computed from the training part only and then applied to the test part. With grouped data no group is in both parts.",
  ["inputs","configurations"], "for every dataset, fraction and grouping",
  "Leakage or misalignment changes scores slightly on any one dataset; tests check that scores exist.",
  ["beep/model.py", "beep/prediction/beep_data_splitter.py"],
  [("train/test split and scaler fit", "beep/model.py:train_and_score,_train"), ("GroupShuffleSplit/KFold use", "beep/prediction/beep_data_splitter.py")],
  ["train_and_score results, split datasets"])

p("P17", "Predictions use the trained features, cleaning thresholds and targets",
  "A prediction feeds the model exactly the features it was trained on, in training order and with the scaling learned in training, labels the outputs with the targets in training order, keeps each output with its own sample, and reports exactly the samples that were left out. Training drops features and samples by the thresholds documented for each, and missing features make a prediction fail rather than be replaced.",
  ["inputs"], "for every feature matrix presented to a trained model",
  "Tests predict on the training matrix itself, where order, scaling and dropping coincide.",
  ["beep/model.py"],
  [("feature label selection, scaling, dropping", "beep/model.py:predict,train,_split_impute_and_scale")],
  ["predict() output"])

p("P18", "Each protocol parameter lands in the template slot meant for it",
  "When a cycling protocol is generated from a template and a parameter row, every parameter is written only into a template field of its own physical kind (currents scaled by the nominal capacity into current fields, voltages into voltage fields, durations into time fields, repeat counts into loop counts) of the step it describes, and charge parameters go to charge steps and discharge parameters to discharge steps. A template whose step at that place is of another kind is refused rather than written.",
  ["inputs","configurations"], "for every template and every parameter row",
  "Generation tests compare a few rows on the shipped templates; two parameters that are equal in those rows can be crossed unnoticed, and the refusals are not exercised.",
  [PR+"maccor.py", PR+"arbin.py", PR+"biologic.py"],
  [("asserted step kind next to each write", PR+"maccor.py:Procedure, arbin.py:Schedule, biologic.py:Settings")],
  ["generated protocol files"])

p("P19", "Protocol generation accounts for every parameter row",
  "Generating protocols from a parameter table handles every row: each row ends either as a written protocol file that is listed as generated or as a recorded failure, never both or neither, and a row's failure does not affect the other rows. The overall result says error exactly when some row failed, and the command reports the failures as not generated.",
  ["inputs","fault_sequences"], "for every parameter table and every subset of failing rows",
  "Tests use tables with all-good rows and one or two unknown-template rows.",
  [PR+"generate_protocol.py", "beep/cmd.py"],
  [("row loop with success/failure bookkeeping", PR+"generate_protocol.py:generate_protocol_files_from_csv")],
  ["returned lists and result, status json"])

p("P20", "Protocol converters refuse what they cannot express",
  "Converting a protocol between cycler languages (Maccor to Arbin, Maccor to Biologic, Biologic to Maccor) raises an error for every step kind, control mode, limit, end condition, report kind, comparator or unit the conversion does not handle. Nothing in the source protocol is silently dropped or replaced by a default.",
  ["programs"], "for every source protocol",
  "Conversion tests use a few complete protocols made of supported constructs only.",
  [PR+"maccor_to_arbin.py", PR+"maccor_to_biologic_mb.py", PR+"biologic_mb_to_maccor.py"],
  [("exhaustive dispatch ending in raise", "the three converters")],
  ["converter exceptions, converted files"])

p("P21", "Protocol conversion keeps each setting's kind, direction and unit",
  "In a converted protocol every control value, limit, end condition and record condition has the same quantity (current, voltage, time, count), the same direction (charge or discharge, greater or less), and the same magnitude in the target's units as in the source, and is attached to the converted counterpart of the same step and jump target. User-set safety limits all reach the converted protocol.",
  ["programs","configurations"], "for every supported source protocol and converter setting",
  "The tests' protocols do not combine every mode, direction, unit and limit, so a single crossed branch or lost setting is not reached.",
  [PR+"maccor_to_arbin.py", PR+"maccor_to_biologic_mb.py", PR+"biologic_mb_to_maccor.py"],
  [("per-branch field assignments and unit conversions", "the three converters")],
  ["converted files"])

p("P22", "Errors BEEP detects are reported, never swallowed",
  "When BEEP detects that it cannot do what was asked, the caller gets an exception, a recorded failure, or a documented invalid result; no code path detects an error and then carries on as if nothing happened. In particular an error that is constructed is raised, and an exception that is caught is re-raised, recorded, or answered by a documented fallback for that specific exception.",
  ["inputs","fault_sequences"], "for every input that triggers an error path",
  "Error paths are mostly untested.",
  ["beep"],
  [("raise statements and except handlers", "beep/**")],
  ["exceptions, status json"])

p("P23", "BEEP never writes to its inputs, only to the outputs asked for",
  "Reading, validating, structuring, featurizing, training, predicting and converting never modify or delete an input file; files are created only at the output locations requested or documented. Processing a local file uses no network and never executes content of an input file.",
  ["inputs"], "for every input file and operation",
  "No test compares input files before and after or observes other file or network activity.",
  ["beep"],
  [("file opens, dataframe writers, subprocess/network/eval use", "beep/**")],
  ["file system effects"])

p("P24", "Structured tables have the declared columns and types",
  "Every table that structuring produces (interpolated cycles, summary, diagnostic interpolated data, diagnostic summary) is delivered with the column types declared for that very table, and is restored with the same declared types when it is reloaded. Every per-cycle quantity in a summary row belongs to that row's cycle.",
  ["inputs"], "for every run, including those whose cycle numbers do not start at zero or are not contiguous",
  "Type and alignment are checked on sample runs whose cycle numbers are contiguous from zero.",
  [S+"base.py", "beep/conversion_schemas/structure_dtypes.yaml"],
  [("_cast_dtypes with a table key", S+"base.py"), ("index-aligned assignment", S+"base.py:summarize_cycles")],
  ["structured tables"])

p("P25", "Structuring records exactly the parameters it used",
  "After structuring, the recorded structuring parameters are the values that were actually used, parameter by parameter, and each parameter given to structuring reaches the interpolation or summary step it names. Removing the structuring also removes everything it produced.",
  ["configurations"], "for every choice of structuring parameters",
  "Tests structure with one or two parameter sets and do not compare the record with what was used.",
  [S+"base.py"],
  [("structure/unstructure", S+"base.py")],
  ["structuring_parameters"])

p("P26", "Identical requests give identical results",
  "Given the same inputs and parameters, ingestion, structuring, featurization, protocol generation and conversion give the same content every time; any step that uses randomness takes its seed from the caller or a fixed value. Nothing in the results depends on hash or directory order, the clock or the process, other than documented timestamps and default file names.",
  ["histories","configurations"], "for every repeated request, in any process",
  "A test compares one run with stored values; order or seed dependence shows only across processes.",
  ["beep"],
  [("random_state parameters, sorted iteration", "beep/model.py, beep/prediction, beep/**")],
  ["outputs"])

p("P27", "Interpolated values lie on the measured curves",
  "Interpolated tables reproduce the measured curve at the requested points: values between neighbouring measurements, at the requested resolution and within the requested range.",
  ["inputs"], "for every run and interpolation axis",
  "Real-valued behaviour over unbounded data.",
  [S+"base.py"], [("interpolate_df", S+"base.py")], ["structured_data"])

p("P28", "Charging waveforms never exceed the C-rate limits",
  "Every generated rapid-charge waveform stays within the minimum and maximum C-rate, reaches the requested state of charge and takes the same time in smooth and stepped form.",
  ["inputs"], "for every set of charging parameters",
  "Real-valued behaviour of a nonlinear solver.",
  ["beep/utils/waveform.py", PR+"maccor.py"], [("RapidChargeWave, asserts in the waveform writer", "beep/utils/waveform.py, "+PR+"maccor.py")], ["MWF files"])

p("P29", "Cycle numbers recovered from Biologic data match the source protocol",
  "Cycle indices added to Biologic measurement files using the rules written at conversion time are the cycle numbers the original Maccor protocol would have produced.",
  ["programs","histories"], "for every source protocol and every execution trace of the converted one",
  "Needs the semantics of both cyclers over every execution.",
  [PR+"maccor_to_biologic_mb.py", S+"biologic.py"], [("cycle advancement rules", PR+"maccor_to_biologic_mb.py")], ["cycle_index column"])

p("P30", "Degradation features equal their published definitions",
  "Each feature equals the quantity its documentation defines (for example resistances from pulse voltage changes, diffusion coefficients, electrode-matching losses) for the given run.",
  ["inputs"], "for every run", "Numerical results over unbounded data and optimisers.",
  [F+"core.py", F+"featurizer_helpers.py", F+"intracell_losses.py"], [("create_features", F+"core.py")], ["features"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
