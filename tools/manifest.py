"""writes MANIFEST.json from the checks present"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "P01": "static writer/reader agreement analysis (terms of as_dict composed with from_dict)",
    "P02": "interprocedural mutation (effect) analysis of the structuring entry points",
    "P03": "interprocedural mutation (effect) analysis of every featurizer",
    "P04": "interprocedural mutation (effect) analysis of model and splitter",
    "P05": "effect analysis on shared roots (globals, class attributes, default arguments) over every function",
    "P06": "exception-flow analysis of the command bodies",
    "P07": "dominance and provenance analysis of the status fields",
    "P08": "option-to-parameter dataflow analysis of the commands",
    "P09": "control-dependence analysis of structuring and featurizing on the validation outcome",
    "P10": "exhaustiveness analysis of validator branches against the shipped schemas",
    "P11": "row-filter provenance (dataflow) analysis",
    "P12": "column provenance (dataflow) analysis",
    "P13": "column and unit provenance analysis of the loaders and conversion schemas",
    "P14": "dispatch-table analysis (pattern to loader)",
    "P15": "typestate analysis: refusing guards dominate protected reads",
    "P16": "information-flow analysis from the test part to the fit",
    "P17": "provenance analysis of the matrix, thresholds and labels used to predict",
    "P18": "slot provenance analysis of the protocol generators",
    "P19": "per-row path accounting analysis",
    "P20": "exhaustiveness and refusal analysis of the converters' dispatch",
    "P21": "mapping-table provenance analysis of the converters",
    "P22": "error-flow analysis over every function",
    "P23": "file-effect and path provenance analysis over every function",
    "P24": "type-table and index-alignment dataflow analysis",
    "P25": "parameter-flow analysis: recorded value is the value used",
    "P26": "nondeterminism-source analysis over every function",
    "P33": "symbolic row-coverage analysis with a truth table over the path conditions",
    "P32": "strong-liveness dataflow analysis of arguments and settings, series provenance of labelled answers",
    "P31": "backward slicing of features and provenance analysis of labelled columns",
}
NOTE = ("Every instance of the rule found in the source is decided on a value-flow abstraction of the whole call tree; loops are "
        "summarised and unknown values never alarm, so a violation hidden behind a value the analysis cannot follow is missed. "
        "Trusted: the analyser (vfa/), the rule table, and the modelled meaning of pandas / numpy / click operations.")
EXTRA = {}
NA = {
    "P27": "interpolated values are numbers computed by scipy at run time from measured curves; no static argument bounds them",
    "P28": "C-rates of waveforms come out of numerical optimisation and random sampling at run time; no static bound is in reach",
    "P29": "the recovered cycle numbers are the result of replaying a rule machine over a measured history; no static argument decides it",
    "P30": "the degradation features are numerical results (fits, derivatives, peak finding) on measured data; statically undecidable here",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
            checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
                           "technique": T[p], "level": "other", "level_note": EXTRA.get(p, "") + NOTE})
        else:
            na.append({"property": p, "reason": NA.get(p, "the static check for this property is not built yet")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only; nothing of BEEP is imported or run. quick and thorough are the same full analysis: it is exhaustive over the source."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
