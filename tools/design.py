import re,subprocess

T='''# Deciding BEEP's semantic properties by static analysis

## Method

Everything is decided from the source text of `/repo/beep` (tests excluded), re-read and re-analysed on every run.
Nothing of BEEP is imported or executed, no path is enumerated and no solver is involved.  The only data read besides
Python source are the shipped declarations the code is written against: validation schemas, conversion schemas, type
tables, option declarations.

`vfa/` is a value-flow analyser written for this code base on top of `ast`:

* `project.py` indexes modules, imports, classes (with inheritance), functions, decorators.
* `interp.py` makes one structured, flow-sensitive pass over a root function: every expression becomes an interned
  *term*; branches join with gates (`ite`), loops over statically known sequences are expanded, other loops are
  summarised (`elem`, `mu`), and loops that only build a list or dictionary get the normal form of the comprehension
  that builds it.  Calls of BEEP functions, properties, setters, decorators, closures and constructors are inlined, so a
  helper that is extracted, inlined, renamed or reordered gives the same terms.  Spellings of one operation share a
  term: comparisons are oriented (`<`, `<=`), `Series.eq/lt/sub/div` and `numpy.subtract/less/...` are the operators,
  `DataFrame.query("a == @b")` and `df.loc[lambda d: ...]` are the masks they stand for, f-strings, `%`, `format` and
  `+` are one string term.  The pass emits *events* (calls, stores, deletions, raises, asserts, returns, breaks), each
  with the conditions it is under, the try / handler / loop context, and the heap at that point.
* `effects.py` decides which object each store or in-place call reaches (pandas views, shallow and deep copies, row
  selections, in-place keywords).
* `paths.py` is the abstraction of file paths (below which argument a path lies); `regex.py` compares file-name
  patterns as languages (intersection, inclusion, witnesses) for P14.
* `pe.py` is a context-sensitive constant propagation for the protocol converters (P20, P21): the discriminating fields
  of one construct are constants, its magnitudes abstract leaves with intervals; closed containers are exact; a missing
  key, a failed assertion or a refused constant makes the path end in an exception.  It follows the one path the
  constants select; it neither enumerates paths nor solves constraints.
* `checks/` holds one rule set per property.  A rule is a predicate over terms and events (what reaches which sink, under
  which condition, after which other event), never over text, line positions or private helper names.  Rules anchor only
  on public names: classes, public methods, command names, option names, column names, dictionary keys, labels.
  `quant.py`, `tables.py`, `reading.py`, `conv.py`, `preds.py`, `configs.py`, `cli.py` are shared by several checks.

Unknown values never raise an alarm: where a value cannot be followed the check notes it in its evidence.  A public
anchor that vanished, or an obligation count far below what reading the code gives, is an error exit (2), never a silent
pass.  Findings are keyed by rule and construct, not by line.  The tiers do not differ: each analysis is exhaustive over
the source and takes seconds, so `thorough` is `quick`.

What this cannot see, for every property: values that pass through a construct the analyser does not model become
unknown, and an error hidden behind one is missed; and no rule bounds a number computed at run time.

## Per property: rules and how they are decided

'''
HOW={
"P01":("writer/reader agreement. The terms of the saved form (`as_dict`, what goes to `dumpfn`) are composed with the terms of the reader (`from_dict`, `auto_load_processed`): each item of the object must come back from its own key through the inverse codec.","equality of numbers after a round trip through JSON text."),
"P02":("interprocedural effect analysis from every public operation of every run class and of the diagnostic configuration. Every store or in-place call whose base aliases the protected object is a violation; pandas views, shallow copies (`copy(deep=False)`: new columns are private, values are not), `.values`, `inplace=` and numpy in-place functions are modelled.","aliasing that pandas decides at run time (views that happen to be copies count as copies only where documented)."),
"P03":("the same effect analysis, rooted in every featurizer and every function over runs; protected: the run, the hyperparameters given, the published defaults.","as P02."),
"P04":("the same, for the model, prediction and splitter classes; protected: tables passed in, and for `predict` everything a later prediction reads.","as P02."),
"P05":("effect analysis on shared roots over every function of the package: module globals, class attributes, default values, function attributes, memoised results, process-wide settings.","mutation by third-party code that is handed a shared object and not known to mutate."),
"P06":("typestate over the per-input loops of the commands: every call on the input is under a handler inside the loop catching every failure including the classes the called code raises that derive from BaseException; handlers raise exactly when halting was requested; nothing else leaves the loop.","failures outside Python (a killed process)."),
"P07":("dominance and provenance of the status record: each truthy claim is stored after the step completed on every path, each path is the one written, each checksum of that file.","whether the disk holds what was written."),
"P08":("declared click options -> command parameter -> bound argument of the library call, with the identity term demanded in between; signature binding of every resolved call.","meaning of an option inside the library (P25, P31)."),
"P09":("control dependence of structuring/featurizing/writing on the verdict term of the same object.",""),
"P10":("the rule kinds and types occurring in the shipped schemas against the rejecting branches of the validator: each has a reachable rejecting comparison of the right sense, unconditional but for being declared.",""),
"P11":("provenance of row filters: the facts (inside/outside the diagnostic cycles) each produced table's rows carry; labels by position, by key and by interval comparisons are told apart.",""),
"P12":("column provenance: aggregate, source column, formula (read as sum of products), step direction and interpolation axis of each summary or interpolated column.","numerical accuracy (P27)."),
"P13":("replay of each loader on abstract columns: a column is (quantity, scale, side, source headers, type), starting from the header's own unit; restarting totals must restart where the cycle changes; helper columns may not mix quantities.","formats whose unit is only inside the file."),
"P14":("the dispatch is read as a table pattern -> loader; the patterns are compared as regular languages, with a witness name for each violation.",""),
"P15":("typestate: the refusing raise dominates each protected read or save; results are bound to the object only after everything that can fail.",""),
"P16":("information flow from the test part: which split part reaches each `fit`, `predict`, score; index lineage of features and targets; groups.","statistics hidden in a model class not read here."),
"P17":("provenance of the matrix handed to `predict`: columns, order, scaling, index; thresholds relative to their dimension.",""),
"P18":("slot provenance: each template slot a parameter is written into, its kind, unit, scaling, and the step-kind assertions dominating the write; repetitions and completeness per parameter.","whether the template itself is a sensible experiment."),
"P19":("path accounting of one row: every path through the loop body ends as exactly one of listed/failed.",""),
"P20":("specialisation of the converters to one construct at a time (`pe.py`, `conv.py`): constructs the target has no word for must reach no output; everything else must keep one active cell per source entry.","interactions of constructs beyond one step with its ends, limits, records and loops."),
"P21":("the same specialisation; control values, limits, ends, records, loops and settings are read back as linear expressions of the source's magnitudes (`reading.py`) and compared with the table of meanings of the three languages.","rounding done by `{:.2f}` of safety limits is not a finding; ranges are."),
"P22":("error-flow lint over every function: constructed-but-not-raised, swallowing handlers, `finally` discarding, ignored verdicts, lenient parser options, vanished documented refusals, tautological asserts.",""),
"P23":("all file-writing, deleting, network and executing calls of every function, with the provenance of their path (`paths.py`).","what third-party readers write."),
"P24":("type tables reaching each delivered and reloaded table; index alignment of per-cycle columns.",""),
"P25":("parameter flow: recorded value is the value given and the value used; unstructure clears what structuring set.",""),
"P26":("nondeterminism sources (random, clock, set and directory order, identity, zone) followed to results, over every function.","floating-point differences between machines."),
"P33":("symbolic evaluation of the summaries to the rows returned on each path; the path conditions, reduced to the documented criteria, give a truth table that decides when the last row is kept; each row selection between the raw cycles and the table, and each cycle source and size guard of the interpolation loops, is judged.","row selections by values the analysis cannot name."),
"P32":("strong-liveness (faint-variable) analysis on the syntax tree of every function, made interprocedural by a fixpoint over parameters that are dead in the callee; class-wide lookup of the reads of stored settings; default values standing as operands or handed on in place of the argument; series-to-label provenance of the tables filled in a loop.","whether the effect is the right one (other properties); effects on one path only are judged by the `default` and `handed` rules alone."),
"P31":("backward slices (data, containers, conditions) of the features and of the verdict of `validate`: each declared hyperparameter is in the value slice, not only in the labels; step numbers and rows belong to the same diagnostic; each labelled column's measurement, direction, statistic and cycles are compared with its label; changes have their sign and reference.","the numerical results themselves (P30); labels BEEP builds from data."),
}
import os
for pid in sorted(HOW):
    src=open(f'/verif/checks/{pid.lower()}.py').read()
    title=next(__import__('json').loads(l)['title'] for l in open('/verif/properties.jsonl') if f'"id": "{pid}"' in l)
    T+=f'### {pid} {title}\n\nDecided by {HOW[pid][0]}'
    if HOW[pid][1]: T+=f'  Out of reach: {HOW[pid][1]}'
    T+='\n\n'
    for n,t in re.findall(r'c\.rule\("([^"]*)", "([^"]*)"',src):
        T+=f'* `{n}`: {t}\n'
    T+='\n'
T+='''## Not applicable

P27 interpolation accuracy, P28 C-rate limits of waveforms, P29 recovery of cycle numbers, P30 feature numerics: each
quantifies over numerical values computed at run time (curve interpolation, optimisation, replay of a rule machine over
a history, regression); no static argument in reach bounds them.

## Repairs and known findings

`known_findings.txt` lists both.  Each "fixed" line names the commit in /repo; the checks report each of them on the tree
before its commit.  The remaining findings are defects whose repair is not small (a renamed public interface, a redesign
of imputation, outputs the repository's own tests pin).

## False alarms corrected

* P22: a rule that called unreachable `raise` statements defects was dropped: defensive raises are legitimate.
* P25: the statement asked for the parameters of a failed structuring to be absent; reworded to what the code promises.
* P26: `float(date)` of Battery Archive ("clock") was a timestamp of the file, not of the machine; `glob` of exactly one
  expected file and unions of frozen column sets carry no order.
* P23: a command reading back its own output is not overwriting an input; S3 object names are not paths.
* P02/P03: new columns on a shallow copy (`copy(deep=False)`) do not reach the original.
* P21: `{:.2f}` rounding of safety limits and the technique's "nt" times are not findings.
* P31: the throughput a diagnostic is normalised by may come from the regular cycles; only the numerator is judged.
  `ocv` and `v_diff` are documented as earlier minus later: the statement speaks of fractional changes only.

## Robustness

Besides the planted bugs, each check is run against (a) about 25 automatic refactorings of the whole package (extracting,
lifting and delegating functions, renaming locals, inverting and splitting conditions, swapping branches, early returns,
loops to comprehensions and back, chained calls, f-strings to `format`, keyword to positional arguments, dead statements),
(b) several hundred hand-written mutants and neutral edits.  Alarms on (a) and on the neutral ones were removed by
widening what the analyser understands, not by exempting places.

## Planted bugs and which check catches them

All of them pass the stable tests; each is caught by the check of its property.  First missed, and caught after the
check was strengthened: p03-ir-view (row views), p11-type-order (labels by position), p12-cv-window (rows of the segment),
p13-novonix-dis-only (helper columns mixing quantities), p18-storage-end (one step kind per end kind), p25-unstructure
(single-state restructuring), p31-nominal-quantity (rows of a quantity say so), p31-summary-diff-base (fixed references).
Bugs the stable tests caught were discarded.

| planted bug | needs | breaks |
|---|---|---|
'''
import json
for s in sorted(os.listdir('/verif/seeded')):
    d=json.load(open(f'/verif/seeded/{s}/meta.json'))
    T+=f"| {s} ({d['property']}) | {d['needs']} | {d['what_it_breaks']} |\n"
T+='''
## Noticed outside the claimed properties

Recorded for the reader; none is claimed or checked.  `get_hppc_ocv_helper` takes the mean of one point (`iloc[-10].mean()`,
pinned by a test); cycle rules write "Adv Cycle" where Maccor files have "AdvCycle" (P29); the Novonix loader discards the
result of `fillna(0)`; `generate_maccor_waveform_file` changes the caller's table; driving waveform names collide between
rows; an assert of RapidChargeWave cannot fail; `beep structure` of two inputs with the same base name writes one output
over the other; a protocol row's `project_name` may contain `../`; `modify_step_value` ignores a type mismatch;
`set_skip_to_end_diagnostic` skips steps with a single end entry; Biologic test times use the machine's wall clock; the
Maccor to Biologic command writes its file before the cycle rule check can raise; Biologic "Apply I/C = C / N" is not read;
the default `max_iter=1e6` is refused by the installed scikit-learn; a failed retraining leaves the scaler refitted with the
old model; `ExclusionCriteria` compares the first and the second constant-current step by position of the protocol row.
'''
open('/verif/DESIGN.md','w').write(T)
