import ast
import re

from .common import *

EXPLANATION = ("Value-flow analysis of create_features and validate of every featurizer and of the functions over runs they use. "
               "Backward slices (data and control) from the features tell which hyperparameters reach them other than as part of a label; "
               "every protocol lookup is traced to the directory it reads; every step number is traced to the diagnostic it was looked up for, "
               "which must be the one its rows come from; every labelled column is traced to the measurements, step direction, statistic and "
               "cycles it is made of, and compared with what its label says.")
FEAT = "beep.features.base.BEEPFeaturizer"
H = "beep.features.featurizer_helpers."
STEPS = H + "get_step_index"
LOOK = "beep.deprecated.parameters_lookup.get_protocol_parameters"
NX = H + "get_fractional_quantity_remaining_nx"
POSITION = {"diag_pos", "diag_pos_list", "diag_positions"}
DIRS = ("parameters_path", "parameters_dir")


def declared(c, k):
    """the hyperparameters a featurizer publishes: {key: nested keys}"""
    for b in c.P.mro(k):
        d = b.attrs.get("DEFAULT_HYPERPARAMETERS")
        if d is not None:
            if not isinstance(d, ast.Dict):
                return None
            return {x.value: [y.value for y in v.keys if isinstance(y, ast.Constant)] if isinstance(v, ast.Dict) else [] for x, v in zip(d.keys, d.values) if isinstance(x, ast.Constant)}
    return None


def obj(t):
    while t.op in ("sub", "attr", "upd") and t.args[0].op != "param":
        t = t.args[0]
    return t


class Slice:
    """everything a value depends on: the terms it is made of, what is put into the containers it uses, and the conditions of doing so"""

    def __init__(self, evs, st):
        self.by, self.loop, self.held = {}, {}, {}
        for t, v in st.heap.items():
            if isinstance(t, Node) and t.op in ("attr", "sub") and isinstance(v, Node) and t.args[0].op == "new":
                self.held.setdefault(t.args[0], []).append(v)
        for e in evs:
            if e.kind in ("store", "del", "aug"):
                self.by.setdefault(obj(e.base), []).append(e)
            elif e.kind in ("assign", "break", "continue", "return", "ireturn"):
                for z in e.ctx:
                    if z[0] == "loop":
                        self.loop.setdefault(z[1], []).append(e)
            elif e.kind == "call" and e.recv is not None:
                self.by.setdefault(obj(e.recv), []).append(e)

    def of(self, roots, labels=True):
        seen, todo = set(), list(roots)
        while todo:
            for x in walk(todo.pop()):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "new":
                    todo += self.held.get(x, [])
                for e in self.by.get(x, []) + (self.loop.get(x.args[0], []) if x.op == "mu" else []):
                    todo += [y for y in parts(e, labels) if y not in seen]
        return seen


def parts(e, labels=True):
    out = [g for g, _ in e.guards] + [z[2] for z in e.ctx if z[0] == "loop" and isinstance(z[2], Node)]
    if isinstance(getattr(e, "value", None), Node) and (labels or not (e.kind == "store" and e.how == "attr" and cval(e.key) in ("columns", "index"))):
        out.append(e.value)
    if isinstance(getattr(e, "key", None), Node) and (labels or picks(e.key)):
        out.append(e.key)
    if e.kind == "call":
        out += list(e.args) + [v for n, v in (e.kwargs or {}).items() if labels or n not in ("columns", "index")]
    return out


def picks(k):
    """the key selects rows by a condition"""
    return k.op in ("cmp", "bool", "bin", "un", "tuple") and contains(k, lambda x: x.op == "cmp")


def setting(t, hyper):
    """the hyperparameter a term reads"""
    if t.op in ("sub", "get") and t.args[0] is hyper:
        return cval(t.args[1])
    return None


def settings(ts, hyper):
    out = set()
    for t in ts:
        s = setting(t, hyper)
        if s is not None:
            out.add(s)
        if t.op in ("sub", "get"):
            s = setting(t.args[0], hyper)
            if s is not None:
                out.add((s, cval(t.args[1])))
        if t is hyper:
            out.add(None)
    return out


# ------------------------------------------------------------------ hyperparameters

VALIDATED = {"CycleSummaryStats": ["cycle_comp_num"], "DiagnosticSummaryStats": ["diagnostic_cycle_type", "diag_pos_list"], "DeltaQFastCharge": ["init_pred_cycle", "mid_pred_cycle", "final_pred_cycle"],
             "TrajectoryFastCharge": ["thresh_max_cap"], "IntracellCycles": ["diagnostic_cycle_type"], "IntracellFeatures": ["diagnostic_cycle_type"],
             "IntracellCyclesV2": ["diagnostic_cycle_type"], "IntracellFeaturesV2": ["diagnostic_cycle_type"]}


def features_of(evs, me):
    return [e for e in evs if e.kind == "store" and e.how == "attr" and e.base is me and cval(e.key) == "features"]


def bound(c, e):
    """arguments by parameter name; those of a method of the run too"""
    if isinstance(e.bound, dict) and e.target.startswith("beep."):
        return e.bound
    if e.recv is not None and obj_is_run(e.recv):
        g = c.P.find_method(c.cls("beep.structure.base.BEEPDatapath"), e.target.split(".")[-1])
        if g is not None:
            names = [a.arg for a in g.node.args.posonlyargs + g.node.args.args][1:]
            return {**dict(zip(names, e.args)), **{n: v for n, v in (e.kwargs.items() if isinstance(e.kwargs, dict) else e.kwargs or ()) if n}}
    return {}


def obj_is_run(t):
    return t.op == "attr" and t.args[1] == "datapath"


def hyperparameters(c, k, me, hyper):
    keys = declared(c, k)
    f = c.P.find_method(k, "create_features")
    if keys is None or f is None:
        return
    it = c.interp(types={me: k})
    res, st, evs = c.run(it, f, self_node=me, cls=k)
    fin = features_of(evs, me)
    if not fin:
        c.notes.append(f"{k.name}: create_features does not assign features")
        return
    S = Slice(evs, st)
    every = S.of([x for e in fin for x in parts(e)])
    value = S.of([x for e in fin for x in parts(e, False)], False)
    whole = uses_whole(every, hyper)
    have, vals = settings(every, hyper), settings(value, hyper)
    for key, inner in keys.items():
        if whole:
            continue
        c.ob("reaches", f"{k.name}: {key}", key in have, f"the features do not depend on the hyperparameter {key}", f.where())
        if key in have:
            c.ob("reaches", f"{k.name}: {key} in values", key in vals, f"the hyperparameter {key} only labels the features: their values do not depend on it", f.where())
        if key in have:
            for n in inner:
                if any(setting(t, hyper) == key and not any(u.op in ("sub", "get") and u.args[0] is t for u in every) for t in every):
                    continue        # the whole dictionary is handed on
                c.ob("reaches", f"{k.name}: {key}.{n}", (key, n) in vals, f"the features do not depend on {n} of the hyperparameter {key}", f.where())
    # a hyperparameter handed on goes to the parameter of its own name
    for e in evs:
        if e.kind == "call":
            for p, v in bound(c, e).items():
                got = setting(v, hyper) if isinstance(v, Node) else None
                if p in keys and isinstance(got, str) and got in keys and keys[got] == keys[p]:
                    c.ob("reaches", f"{k.name}: {e.target.split('.')[-1]}: {p}", got == p, f"the hyperparameter {got} is given to {e.target.split('.')[-1]} as its {p}", e.where())
    # protocol lookups read the directory given
    dirs = [d for d in DIRS if d in keys]
    if dirs:
        for e in evs:
            if e.kind == "call" and e.target == LOOK:
                p = (e.bound or {}).get("parameters_path")
                if isinstance(p, Node):
                    names = {s for s in settings(walk(p), hyper) if isinstance(s, str)}
                    by = [s.name for s in e.stack if s.name != "create_features"]
                    c.ob("lookup", f"{k.name}: {by[0] if by else 'create_features'} > {by[-1] if by else ''}", bool(names & set(dirs)), f"protocol parameters are looked up in {show(p)[:60]}, not in the {dirs[0]} given", e.where())
    # each part of the features depends on the diagnostic asked for
    for e in fin:
        v = e.value
        if v.op == "call" and v.args[0] == "pandas.concat" and v.args[1] and v.args[1][0].op in ("list", "tuple") and "diag_pos" in keys:
            for i, x in enumerate(v.args[1][0].args):
                d = settings(S.of([x], False), hyper)
                c.ob("position", f"{k.name}: part {i + 1}", "diag_pos" in d or whole, "these features do not depend on the diagnostic asked for (diag_pos)", e.where())
    # validation looks at what creation needs
    g = c.P.find_method(k, "validate")
    if g is not None and k.name in VALIDATED:
        it = c.interp(types={me: k})
        res, st, evs = c.run(it, g, self_node=me, cls=k)
        ts = [x for e in evs if e.kind == "return" for x in [y for y, _ in e.guards] + ([e.value] if isinstance(e.value, Node) else [])]
        if isinstance(res, Node):
            ts.append(res)
        S = Slice(evs, st).of(ts)
        have = settings(S, hyper)
        if not uses_whole(S, hyper):
            for key in VALIDATED[k.name]:
                c.ob("validated", f"{k.name}: {key}", key in have or key not in keys, f"validate does not look at the hyperparameter {key} that the features need", g.where())


def uses_whole(ts, hyper):
    """the hyperparameters are handed on as a whole, or read under computed names"""
    for t in ts:
        for a in t.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                if x is hyper and not (t.op in ("sub", "get") and t.args[0] is hyper and t.args[1].op == "const"):
                    return True
    return False


# ------------------------------------------------------------------ positions

def rows_position(t, d=0):
    """the positions p of the `cycle == cycles[p]` selections that the rows come from"""
    out = []
    while d < 40:
        d += 1
        if t.op == "sub":
            out += cycle_masks(t.args[1])
            t = t.args[0]
        elif t.op in ("attr", "upd", "rowsel"):
            t = t.args[0]
        elif t.op == "meth":
            t = t.args[0]
        elif t.op == "ite":
            return out + rows_position(t.args[1], d)
        else:
            return out
    return out


def cycle_masks(k):
    """positions selected by a mask"""
    out = []
    if k.op == "bin" and k.args[0] == "&" or k.op == "bool" and k.args[0] == "and":
        for x in (k.args[1:] if k.op == "bin" else k.args[1]):
            out += cycle_masks(x)
    if k.op == "tuple" and k.args:
        out += cycle_masks(k.args[0])
    if k.op == "cmp" and k.args[0] == "==":
        for a, b in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
            if column(a) == "cycle_index" and b.op == "sub" and listing(b.args[0]):
                out.append(b.args[1])
            elif column(a) == "cycle_index" and b.op == "sub" and b.args[0].op == "attr" and b.args[0].args[1] == "iloc" and listing(b.args[0].args[0]):
                out.append(b.args[1])
    return out


def column(t):
    if t.op == "attr":
        return t.args[1]
    if t.op == "sub" and t.args[1].op == "const":
        return t.args[1].args[0]
    return None


def listing(t):
    """the cycles of a table, each once"""
    return t.op == "meth" and t.args[1] == "unique" and column(t.args[0]) == "cycle_index" or t.op == "sub" and t.args[1].op != "const" and column(t.args[0]) == "cycle_index" \
        or t.op == "call" and t.args[0] in ("numpy.unique", "pandas.unique", "builtins.list", "builtins.sorted") and t.args[1] and listing_or_column(t.args[1][0])


def listing_or_column(t):
    return listing(t) or column(t) == "cycle_index"


def looked_up(t):
    """(diag_pos, cycle type) of the look-up a step number comes from"""
    if t.op in ("sub", "get") and t.args[0].op == "call" and t.args[0].args[0] == STEPS:
        ar, kw = t.args[0].args[1], dict(t.args[0].args[2])
        p = kw.get("diag_pos", ar[2] if len(ar) > 2 else const(0))
        y = kw.get("cycle_type", ar[1] if len(ar) > 1 else const("hppc"))
        return p, y
    return None


def step_rows(x, outer=()):
    """(rows, step) of the comparisons of a step number with a looked-up one"""
    if x.op == "cmp" and x.args[0] == "==":
        for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if column(a) == "step_index" and looked_up(b):
                yield a.args[0], b


def positions(c, k, f, evs, hyper, fixed):
    seen = set()
    for e in evs:
        for t in terms(e):
            for x in walk(t):
                if x in seen:
                    continue
                seen.add(x)
                sib = []
                if x.op == "sub":
                    for cm in ([x.args[1]] if x.args[1].op == "cmp" else conj(x.args[1])):
                        for rows, step in step_rows(cm):
                            ps = rows_position(rows) + cycle_masks(x.args[1])
                            p, y = looked_up(step)
                            if ps:
                                ok = any(q is p for q in ps)
                                c.ob("position", f"{k}: rows and step of {label(step)} at {show(ps[-1])[-40:]}", ok,
                                     f"rows of the diagnostic at position {show(ps[-1])} are compared with the step number looked up for position {show(p)}", e.where())
                if x.op == "sub" and listing(x.args[0]) and x.args[1].op != "slice":
                    p = x.args[1]
                    ok = p.op == "const" and p.args[0] == 0 or p.op != "const"
                    c.ob("position", f"{k}: diagnostic {show(p)[-40:]}", ok, f"the diagnostic at the fixed position {show(p)} is used", e.where())
                q = looked_up(x)
                if q and q[0].op == "const":
                    c.ob("position", f"{k}: steps of diagnostic {show(q[0])}", q[0].args[0] == 0, f"the steps of the diagnostic at the fixed position {show(q[0])} are used", e.where())


def label(step):
    s = show(step.args[1])
    return s[-30:]


def conj(t):
    if t.op == "bin" and t.args[0] == "&":
        return conj(t.args[1]) + conj(t.args[2])
    if t.op == "bool" and t.args[0] == "and":
        return [y for x in t.args[1] for y in conj(x)]
    return [t]


def terms(e):
    out = []
    for n in ("value", "key", "base", "recv"):
        v = getattr(e, n, None)
        if isinstance(v, Node):
            out.append(v)
    if e.kind == "call":
        out += list(e.args) + list((e.kwargs or {}).values())
    return out


# ------------------------------------------------------------------ columns

MEASURED = {"charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "charge_dQdV", "discharge_dQdV", "voltage", "current", "temperature", "temperature_maximum", "temperature_minimum",
            "temperature_average", "time_temperature_integrated", "dc_internal_resistance", "internal_resistance", "charge_duration", "charge_throughput", "energy_efficiency", "energy_throughput",
            "CV_time", "CV_current", "CV_capacity", "fractional_metric", "paused"}


def measured(t, filters=False):
    """names of the measurements a value is made of (not those its rows are selected by)"""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sub" and column(x) is None and not filters:
            todo.append(x.args[0])
            continue
        n = column(x)
        if n in MEASURED:
            out.add(n)
        for a in x.args:
            todo += [y for y in flat(a)]
    return out


def flat(a):
    if isinstance(a, Node):
        return [a]
    if isinstance(a, (tuple, list)):
        return [y for x in a for y in flat(x)]
    return []


def directions(t):
    """the step types the rows of a value are selected by"""
    out = set()
    for x in walk(t):
        if x.op == "cmp" and x.args[0] == "==":
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if column(a) == "step_type" and b.op == "const" and b.args[0] in ("charge", "discharge"):
                    out.add(b.args[0])
                if column(a) == "step_index" and looked_up(b):
                    s = tail(b.args[1])
                    if s.endswith("_discharge"):
                        out.add("discharge")
                    elif s.endswith("_charge"):
                        out.add("charge")
    return out


def tail(t):
    if t.op == "const":
        return str(t.args[0])
    if t.op == "str":
        p = t.args[0] if isinstance(t.args[0], tuple) else t.args
        return str(p[-1].args[0]) if p and isinstance(p[-1], Node) and p[-1].op == "const" else p[-1] if p and isinstance(p[-1], str) else ""
    return ""


STATS = {"var": "var", "nanvar": "var", "min": "min", "nanmin": "min", "amin": "min", "fmin": "min", "mean": "mean", "nanmean": "mean", "average": "mean", "skew": "skew", "kurtosis": "kurtosis", "kurt": "kurtosis",
         "max": "max", "nanmax": "max", "amax": "max", "median": "median", "nanmedian": "median", "std": "std", "nanstd": "std"}
OUTER = {"log10", "abs", "absolute", "fabs", "float", "round", "asarray", "array"}


def statistic(t):
    """the statistic a value is: its outermost reduction"""
    while True:
        if t.op in ("list", "tuple") and len(t.args) == 1:
            t = t.args[0]
        elif t.op == "call" and t.args[0].split(".")[-1] in OUTER and t.args[1]:
            t = t.args[1][0]
        else:
            break
    if t.op == "call" and t.args[1]:
        n = t.args[0].split(".")[-1]
        if n in ("sum", "nansum"):
            y = t.args[1][0]
            if y.op == "call" and y.args[0].split(".")[-1] in ("absolute", "abs", "fabs"):
                return "sum of absolutes"
            if y.op == "call" and y.args[0].split(".")[-1] == "square" or y.op == "bin" and y.args[0] == "**" and cval(y.args[2]) == 2 or y.op == "bin" and y.args[0] == "*" and y.args[1] is y.args[2]:
                return "sum of squares"
            return "sum"
        return STATS.get(n)
    if t.op == "meth":
        if t.args[1] == "sum":
            return "sum"
        return STATS.get(t.args[1])
    if t.op == "sub" and t.args[0].op == "call" and t.args[0].args[0] == "numpy.polyfit":
        return {0: "slope", 1: "intercept"}.get(cval(t.args[1]))
    return None


def linear(t, leaf):
    """(coefficient, constant) of a term in one hyperparameter"""
    if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return 0, t.args[0]
    if t is leaf:
        return 1, 0
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = linear(t.args[1], leaf), linear(t.args[2], leaf)
        if a is None or b is None:
            return None
        s = 1 if t.args[0] == "+" else -1
        return a[0] + s * b[0], a[1] + s * b[1]
    return None


LABELS = [  # (label, measurement, statistic)
    (r"discharge_capacity_cycle_\d+$", "discharge_capacity", None), (r"max_discharge_capacity_difference", "discharge_capacity", "max"),
    (r"integrated_time_temperature", "time_temperature_integrated", "sum"), (r"charge_time_cycles", "charge_duration", "mean"),
    (r"abs_min_discharge_capacity", "discharge_capacity", "min"), (r"abs_mean_discharge_capacity", "discharge_capacity", "mean"), (r"abs_variance_discharge_capacity", "discharge_capacity", "var"),
    (r"abs_skew_discharge_capacity", "discharge_capacity", "skew"), (r"abs_kurtosis_discharge_capacity", "discharge_capacity", "kurtosis"), (r"abs_first_discharge_capacity", "discharge_capacity", None),
    (r"first_n_cycles_throughput$", "charge_throughput", None), (r"equivalent_full_cycles_at_EOL$", "charge_throughput", None),
    (r"max_temperature", "temperature_maximum", "max"), (r"min_temperature", "temperature_minimum", "min"),
    (r"slope_discharge_capacity", "discharge_capacity", "slope"), (r"intercept_discharge_capacity", "discharge_capacity", "intercept"),
    (r"min_internal_resistance", "dc_internal_resistance", "min"), (r"internal_resistance_", "dc_internal_resistance", None), (r"nominal_capacity_by_median", "discharge_capacity", "median"),
]


def labels_of(t, evs, it, st, width):
    """the labels of a table's columns in order: strings, or (suffix) of a group of as many columns as there are statistics"""
    if t.op in ("list", "tuple"):
        return [cval(x) if x.op == "const" else x for x in t.args]
    if t.op == "bin" and t.args[0] == "+":
        a, b = (labels_of(x, evs, it, st, width) for x in t.args[1:])
        return None if a is None or b is None else a + b
    if t.op == "comp" and t.args[0] == "list" and not t.args[2]:
        out = []
        for x in t.args[1]:
            if x.op not in ("str", "const"):
                return None
            out += [("group", tail(x))] * width
        if len(t.args[1]) > 1 and len(t.args[3]) == 1:          # the statistics are the outer loop
            out = [("group", tail(x)) for x in t.args[1]] * width
        return out
    if t.op == "new" and t.args[0] == "list":
        out, under = [], set()
        for e in evs:
            if e.kind == "aug" and e.base is t and e.value.op in ("list", "tuple") and not any(z[0] == "loop" for z in e.ctx):
                under.add(frozenset(e.guards))
                out += [cval(x) if x.op == "const" else x for x in e.value.args]
            elif e.kind in ("store", "aug", "del") and e.base is t:
                return None
            if e.kind == "call" and e.recv is t:
                n = e.target.split(".")[-1]
                under.add(frozenset(e.guards))
                if n == "append" and not any(z[0] == "loop" for z in e.ctx):
                    out.append(cval(e.args[0]) if e.args[0].op == "const" else e.args[0])
                elif n == "extend" and e.args[0].op in ("list", "tuple") and not any(z[0] == "loop" for z in e.ctx):
                    out += [cval(x) if x.op == "const" else x for x in e.args[0].args]
                elif n not in ("copy", "index", "count"):
                    return None
        return out if len(under) <= 1 else None
    return None


def placed(k, n):
    """the positions a store fills"""
    if k.op == "tuple" and len(k.args) == 2:
        k = k.args[1]
    if k.op == "const" and isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
        return [k.args[0]]
    if k.op == "const" and isinstance(k.args[0], str):
        return k.args[0]
    if k.op == "slice":
        a, b = cval(k.args[0], 0), cval(k.args[1])
        if isinstance(a, int) and isinstance(b, int):
            return ("slice", a, b)
    return None


def columns(c, k, f, evs, it, st, hyper, width):
    """(label, value, event) of the columns of the features"""
    tabs = {}
    for e in evs:
        if e.kind == "store" and e.how == "attr" and cval(e.key) == "columns" and e.fn.name == "create_features":
            tabs[e.base] = labels_of(e.value, evs, it, st, width)
    out = []
    for e in evs:
        if e.kind != "store" or e.how == "attr":
            continue
        b = e.base.args[0] if e.base.op == "attr" and e.base.args[1] in ("loc", "iloc", "at", "iat") else e.base
        names = tabs.get(b)
        p = placed(e.key, None)
        if isinstance(p, str):
            out.append((p, e.value, e))
        elif p is None or names is None:
            continue
        elif isinstance(p, list):
            if p[0] < len(names):
                out.append((names[p[0]], e.value, e))
        else:
            loc = e.base.op == "attr" and e.base.args[1] == "loc"
            got = names[p[1]:p[2] + (1 if loc else 0)]
            if contains(e.value, lambda x: x.op == "call" and x.args[0].endswith(".get_summary_statistics")):
                g = {x[1] for x in got if isinstance(x, tuple)}
                ok = len(g) == 1 and len(got) == width and all(isinstance(x, tuple) for x in got)
                c.ob("column", f"{k.name}: columns {p[1]} to {p[2]}", ok, f"the statistics of one quantity are put into the columns of {', '.join(sorted(map(str, g))) or 'others'}", e.where())
                if ok:
                    out.append((got[0], e.value, e))
            elif e.value.op == "new" and e.value.args[0] == "list":
                vals = [x for x in evs if x.kind == "call" and x.recv is e.value and x.target.split(".")[-1] == "append"]
                if len(vals) == len(got):
                    out += [(n, x.args[0], x) for n, x in zip(got, vals)]
    return out


def names_say(c, k, cols, hyper, keys):
    for lab, v, e in cols:
        if isinstance(lab, tuple):
            m = re.search(r"(discharging|charging)_(capacity|energy|dQdV)$", lab[1])
            if not m:
                continue
            d = {"charging": "charge", "discharging": "discharge"}[m.group(1)]
            arg = next((x.args[1][-1] for x in walk(v) if x.op == "call" and x.args[0].endswith(".get_summary_statistics") and x.args[1]), None)
            if arg is None:
                continue
            name = f"{k.name}: {m.group(0)}"
            ms = measured(arg)
            c.ob("column", name, not ms or ms == {f"{d}_{m.group(2)}"}, f"the features labelled {m.group(0)} are computed from {', '.join(sorted(ms))}", e.where())
            ds = directions(arg)
            c.ob("column", name + ": steps", not ds or ds == {d}, f"the features labelled {m.group(0)} are computed from {', '.join(sorted(ds))} steps", e.where())
            later_minus_earlier(c, name, arg, hyper, e)
            continue
        if isinstance(lab, Node):
            if lab.op == "str" and contains(v, lambda x: x.op == "cmp" and any(column(a) == "cycle_type" for a in x.args[1:])):
                s = tail(lab)
                ty = {b.args[0] for x in walk(v) if x.op == "cmp" and x.args[0] == "==" for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])) if column(a) == "cycle_type" and b.op == "const"}
                ms = measured(v)
                name = f"{k.name}: {s}"
                if len(ms) == 1 and ty:
                    (m,) = ms
                    c.ob("column", name, s.endswith(m) and not (m.startswith("charge") and s.endswith("dis" + m)), f"the feature labelled {s} is computed from {m}", e.where())
                    c.ob("column", name + ": diagnostic", len(ty) == 1 and all(y in s for y in ty), f"the feature labelled {s} is computed from diagnostics of type {', '.join(map(str, ty))}", e.where())
                    later_minus_earlier(c, name, v, hyper, e)
            continue
        if not isinstance(lab, str):
            continue
        name = f"{k.name}: {lab}"
        for rx, m, s in LABELS:
            if re.match(rx, lab):
                if v.op == "ext":
                    break
                ms = measured(v)
                c.ob("column", name, not ms or ms == {m}, f"the feature {lab} is computed from {', '.join(sorted(ms))}", e.where())
                got = statistic(v)
                if s:
                    c.ob("statistic", name, got is None or got == s, f"the feature {lab} is the {got}", e.where())
                if m == "discharge_capacity":
                    ds = directions(v)
                    c.ob("column", name + ": steps", ds <= {"discharge"}, f"the feature {lab} is computed from {', '.join(sorted(ds))} steps", e.where())
                cycles(c, name, lab, v, hyper, e)
                break
        if lab == "equivalent_full_cycles_at_EOL":
            by = [{y for y in (setting(z, hyper) for z in walk(x.args[2])) if y} for x in walk(v) if x.op == "bin" and x.args[0] == "/" and (x.args[1].op == "bv" or "charge_throughput" in measured(x.args[1]))]
            c.ob("column", name + ": per nominal capacity", not any(b - {"parameters_dir"} for b in by), "the cycles are counted in units of a hyperparameter, not of the nominal capacity", e.where())
        m = re.match(r"is_(above|below)_(.*)", lab)
        if m:
            crossing(c, k, m, v, cols, hyper, e)
        m = re.match(r"normalized_(regular|diagnostic)_throughput$", lab)
        if m:
            src = {x.args[1] for x in walk(v) if x.op == "attr" and x.args[1] in ("structured_summary", "diagnostic_summary")}
            rows = [x for x in walk(v) if x.op == "meth" and x.args[1] in ("max", "last") and column_of(x.args[0]) != "cycle_index"]
            main = {x.args[1] for r in rows for x in spine(r) if x.op == "attr" and x.args[1] in ("structured_summary", "diagnostic_summary")}
            want = {"regular": "structured_summary", "diagnostic": "diagnostic_summary"}[m.group(1)]
            if main:
                c.ob("column", name, main == {want}, f"{lab} is the throughput of the {', '.join(sorted(main))}", e.where())
        prefix = re.match(r"(var|min|mean|skew|kurtosis|sum_square|sum)_(ocv|v_diff)$", lab)
        if prefix:
            got = statistic(v)
            want = {"sum": "sum of absolutes", "sum_square": "sum of squares"}.get(prefix.group(1), prefix.group(1))
            c.ob("statistic", name, got is None or got == want, f"the feature {lab} is the {got}", e.where())


def said_of(c, k, evs, it):
    """tables made for a quantity and a type of diagnostic say so"""
    for e in evs:
        if e.kind == "call" and e.target == NX and isinstance(e.bound, dict):
            for s in evs:
                key = cval(s.key.args[-1] if s.kind == "store" and s.key.op == "tuple" else s.key) if s.kind == "store" and s.how != "attr" else None
                want = e.bound.get({"metric": "metric", "cycle_type": "diagnostic_cycle_type"}.get(key))
                if want is not None and isinstance(s.value, Node) and e.result is not None and obj(s.base) is e.result and want.op != "const" and s.value.op != "const":
                    c.ob("column", f"{k.name}: {key}", s.value is want, f"the {key} column of rows of {show(want)[:50]} says {show(s.value)[:60]}", s.where())


def column_of(t):
    if t.op == "attr":
        return t.args[1]
    if t.op in ("sub", "get"):
        return cval(t.args[1])
    return None


def spine(t):
    while True:
        yield t
        if t.op in ("sub", "attr", "meth", "upd", "rowsel"):
            t = t.args[0]
        else:
            return


def later_minus_earlier(c, name, v, hyper, e):
    """a change is the later cycle minus the earlier, relative changes are relative to the earlier"""
    def which(t):
        ks = {cval(x.args[1]) for x in walk(t) if x.op == "sub" and setting(x.args[0], hyper) in ("cycle_comp_num", "diag_pos_list")}
        return ks
    for x in walk(v):
        if x.op == "bin" and x.args[0] == "-":
            a, b = which(x.args[1]), which(x.args[2])
            if a <= {0, 1} and b <= {0, 1} and a and b:
                c.ob("change", name, a == {1} and b == {0}, "the change is not that of the second cycle over the first", e.where())
        if x.op == "bin" and x.args[0] == "/" and x.args[1].op == "bin" and x.args[1].args[0] == "-":
            d = which(x.args[2])
            if d and d <= {0, 1}:
                c.ob("change", name + ": reference", d == {0}, "the change is not relative to the first diagnostic", e.where())
            elif not d and which(x.args[1]) and contains(x.args[2], lambda y: y.op == "sub" and y.args[0].op == "attr" and y.args[0].args[1] == "iloc" and isinstance(cval(y.args[1]), int)):
                c.ob("change", name + ": reference", False, "the change is relative to a fixed diagnostic, not to the first of the two asked for", e.where())


def cycles(c, name, lab, v, hyper, e):
    fin, mid, ini = (sub(hyper, const(x)) for x in ("final_pred_cycle", "mid_pred_cycle", "init_pred_cycle"))
    idx = [x.args[1] for x in walk(v) if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "iloc"]
    eq = [b for x in walk(v) if x.op == "cmp" and x.args[0] == "==" for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])) if column(a) == "cycle_index"]

    def ends(t):
        while t.op == "call" and t.args[0] in ("builtins.list", "numpy.array", "builtins.tuple") and t.args[1]:
            t = t.args[1][0]
        if t.op == "range" or t.op == "call" and t.args[0] == "numpy.arange":
            a = t.args if t.op == "range" else t.args[1]
            return (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
        if t.op == "slice":
            return t.args[0], t.args[1]
        return None
    if lab.endswith("100"):
        ranges = [ends(t) for t in idx if ends(t)]
        single = [t for t in idx if not ends(t)]
        for a, b in ranges:
            ln = linear(b, fin)
            if ln is not None:
                c.ob("cycles", name + ": last cycle", ln == (1, 0), f"the feature {lab} stops at {show(b)}, not at the final_pred_cycle", e.where())
            if lab.endswith("91:100"):
                ln = linear(a, mid)
                if ln is not None:
                    c.ob("cycles", name + ": first cycle", ln == (1, -1), f"the feature {lab} starts at {show(a)}, not at the mid_pred_cycle", e.where())
        if not ranges and not eq and single:
            ln = [linear(t, fin) for t in single]
            if None not in ln:
                c.ob("cycles", name, (1, -1) in ln, f"the feature {lab} does not use the final_pred_cycle", e.where())
        if eq:
            l1, l2 = [linear(t, fin) for t in eq], [linear(t, ini) for t in eq]
            c.ob("cycles", name + ": last cycle", (1, -1) in l1 or all(x is None for x in l1 + l2), f"the feature {lab} does not use the final_pred_cycle", e.where())
            c.ob("cycles", name + ": first cycle", (1, -1) in l2 or all(x is None for x in l2), f"the feature {lab} does not start from the init_pred_cycle", e.where())
    elif lab.endswith("cycle_2"):
        if len(idx) == 1:
            c.ob("cycles", name, idx[0].op != "const" or cval(idx[0]) == 1, f"the feature {lab} is taken from row {show(idx[0])}", e.where())
    if "difference" in lab and len(idx) == 2 and v.op == "bin" and v.args[0] == "-":
        la, lb = linear(idx_of(v.args[1]), fin), linear(idx_of(v.args[2]), fin)
        if la and lb:
            c.ob("change", name, la[0] == 1 and lb[0] == 0, "the difference is not that of the final cycle over the first", e.where())


def idx_of(t):
    x = next((x.args[1] for x in walk(t) if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "iloc"), None)
    return x if x is not None else t


CUTOFF = {"first_n_cycles_throughput": ("throughput_first_n_cycles", "cutoff"), "fractional_capacity_at_EOT": ("EOL_conditions", "threshold"), "equivalent_full_cycles_at_EOL": "equivalent_full_cycles_cutoff"}


def crossing(c, k, m, v, cols, hyper, e):
    """is_above_x / is_below_x compares x with its own cutoff in that direction"""
    what = m.group(2)
    key = CUTOFF.get(what)
    if key is None:
        return
    cut = sub(hyper, const(key)) if isinstance(key, str) else sub(sub(hyper, const(key[0])), const(key[1]))
    name = f"{k.name}: {m.group(0)}"
    cm = [x for x in walk(v) if x.op == "cmp" and x.args[0] in ("<", "<=") and (contains(x, lambda y: setting(y, hyper) is not None) or any(a.op == "bv" for a in x.args[1:]))
          and not contains(x, lambda y: y.op == "attr" and y.args[1] in ("structured_summary", "diagnostic_summary", "iloc"))]
    if not cm:
        return
    above = [x for x in cm if x.args[1] is cut]
    below = [x for x in cm if x.args[2] is cut]
    c.ob("column", name, bool(above if m.group(1) == "above" else below), f"{m.group(0)} does not say whether {what} is {m.group(1)} its cutoff", e.where())


# ------------------------------------------------------------------ functions

def summary_statistics(c):
    """each statistic is computed where it is asked for, and returned in the order asked for"""
    k = c.cls("beep.features.core.CycleSummaryStats")
    f = c.P.find_method(k, "get_summary_statistics")
    if f is None:
        c.notes.append("get_summary_statistics is gone")
        return
    me = mk("param", "self")
    hyper = attr(me, "hyperparameters")
    it = c.interp(types={me: k})
    res, st, evs = c.run(it, f, self_node=me, cls=k)
    WANT = {"abs": "sum of absolutes", "square": "sum of squares"}
    n = 0
    order = []
    for e in evs:
        name = val = None
        if e.kind == "call" and e.recv is not None and e.target.split(".")[-1] == "append" and e.args:
            g = [x for x, p in e.guards if p and x.op == "cmp" and x.args[0] in ("in", "==") and any(a.op == "const" and isinstance(a.args[0], str) for a in x.args[1:3])]
            if g:
                x = g[-1]
                name, val = next(cval(a) for a in x.args[1:3] if a.op == "const"), e.args[0]
                order.append((name, x.args[0] == "in"))
        elif e.kind == "store" and e.how != "attr" and e.key.op == "const" and isinstance(e.key.args[0], str):
            name, val = cval(e.key), e.value
        if name is None:
            continue
        got = statistic(val)
        n += 1
        c.ob("statistic", f"{f.qual}: {name}", got is None or got == WANT.get(name, name), f"the statistic {name} is the {got}", e.where())
        c.ob("statistic", f"{f.qual}: {name} of the values", val.op == "const" or contains(val, lambda x: x is mk("param", f.params[-1])), f"the statistic {name} is not of the values given", e.where())
    fixed = [nm for nm, inn in order if inn]
    if len(fixed) > 1:
        c.ob("column", f"{f.qual}: order", False, "the statistics are returned in a fixed order, the features are labelled in the order the hyperparameter lists them", f.where())
    else:
        c.ob("column", f"{f.qual}: order", True)


def relative(c):
    """normalised changes: of the diagnostic asked for over the first"""
    for n, g in (("get_dr_df", "get_resistance_soc_duration_hppc"), ("get_diffusion_features", "get_diffusion_coeff")):
        f = c.func(H + n)
        it = c.interp(no_inline={H + g})
        res, st, evs = c.run(it, f)
        pos = mk("param", "diag_pos")

        def at(t):
            out = set()
            for x in walk(t):
                if x.op == "call" and x.args[0] == H + g:
                    ar, kw = x.args[1], dict(x.args[2])
                    p = kw.get("diag_pos", ar[1] if len(ar) > 1 else None)
                    if p is not None:
                        out.add("later" if p is pos else cval(p, "?"))
            return out
        for _, x in guarded_alts(res):
            if x.op == "bin" and x.args[0] == "/" and x.args[1].op == "bin" and x.args[1].args[0] == "-":
                a, b, d = at(x.args[1].args[1]), at(x.args[1].args[2]), at(x.args[2])
                c.ob("change", f"{n}", (a, b, d) == ({"later"}, {0}, {0}), f"the change is not that of the diagnostic asked for over, and relative to, the first", f.where())
            else:
                c.ob("change", f"{n}", at(x) == {"later", 0} or not at(x), "the change does not compare the diagnostic asked for with the first", f.where())


def resistances(c):
    """a resistance is a change of voltage over the change of current between the same two steps"""
    f = c.func(H + "res_calc")
    for ty, secs in (("r_c_0s", (0, 1)), ("r_c_3s", (3, 3)), ("r_c_end", None), ("r_d_0s", (0, 1)), ("r_d_3s", (3, 3)), ("r_d_end", None)):
        it = c.interp()
        res, st, evs = c.run(it, f, args={"r_type": const(ty)})
        rets = [(gs, x) for e in evs if e.kind == "return" and isinstance(e.value, Node) for gs, x in guarded_alts(e.value, e.guards)]
        for gs, x in rets:
            if x is NONE:
                continue
            if not (x.op == "bin" and x.args[0] == "/" and all(y.op == "bin" and y.args[0] == "-" for y in x.args[1:])):
                c.notes.append(f"res_calc({ty}): formula not recognised")
                continue
            va, vb = x.args[1].args[1:]
            ia, ib = x.args[2].args[1:]
            ok = measured(va) == measured(vb) == {"voltage"} and measured(ia) == measured(ib) == {"current"}
            c.ob("column", f"res_calc: {ty}", ok, "a resistance is not a voltage change over a current change", f.where())
            ok = counters(va) == counters(ia) and counters(vb) == counters(ib) and counters(va) != counters(vb)
            c.ob("change", f"res_calc: {ty}", ok, "voltage and current changes are not between the same two steps", f.where())
            lim = {cval(b) for y in walk(va) if y.op == "cmp" and y.args[0] in ("<", "<=") and y.args[2].op == "const" for b in [y.args[2]]}
            if secs is None:
                c.ob("statistic", f"res_calc: {ty} time", not lim, f"the resistance at the end of the pulse is taken at {lim}", f.where())
            elif lim:
                c.ob("statistic", f"res_calc: {ty} time", all(isinstance(t, (int, float)) and secs[0] <= t <= secs[1] for t in lim), f"{ty} is taken at {', '.join(map(str, lim))} s", f.where())


def counters(t):
    """the step counters a value's rows are selected by"""
    out = set()
    for x in walk(t):
        if x.op == "cmp" and x.args[0] == "==":
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if column(a) == "step_index_counter":
                    out.add(b)
    return out


def renamed(c, f, evs):
    """a table whose columns are renamed by position keeps each name it had"""
    for e in evs:
        if not (e.kind == "store" and e.how == "attr" and cval(e.key) == "columns" and e.value.op in ("list", "tuple") and all(x.op == "const" for x in e.value.args)):
            continue
        new = [cval(x) for x in e.value.args]
        b = e.base
        old = None
        for t in spine(b):
            if t.op == "sub" and t.args[1].op == "list":
                old = [cval(x, x) for x in t.args[1].args]
                break
        if old is None:
            continue
        for x in evs:
            if x.idx >= e.idx or not same_table(x, b):
                continue
            if x.kind == "store" and x.how != "attr":
                k = x.key.args[1] if x.key.op == "tuple" and len(x.key.args) == 2 else x.key
                if k.op == "const" and isinstance(k.args[0], str):
                    if k.args[0] not in old:
                        old.append(k.args[0])
            elif x.kind == "call" and x.target.split(".")[-1] == "drop":
                d = (x.kwargs or {}).get("columns")
                if d is not None and d.op in ("list", "const"):
                    gone = [cval(y) for y in d.args] if d.op == "list" else [cval(d)]
                    old = [y for y in old if y not in gone]
        if len(old) != len(new):
            c.notes.append(f"{f.qual}: renamed columns not decided")
            continue
        for a, z in zip(old, new):
            if isinstance(a, str):
                c.ob("column", f"{f.qual}: {z}", a == z or z not in old and a not in new, f"the column {a} is renamed {z}", e.where())


def same_table(x, b):
    t = x.base if x.kind == "store" else x.recv
    if t is None:
        return False
    if t.op == "attr" and t.args[1] in ("loc", "iloc"):
        t = t.args[0]
    root = lambda y: next((z for z in spine(y) if z.op == "sub" and z.args[1].op == "list"), None)
    r = root(b)
    return r is not None and root(t) is r


def step_lookup(c):
    """the step look-up reads the diagnostic of the type and position asked for"""
    f = c.func(STEPS)
    it = c.interp(no_inline={LOOK})
    res, st, evs = c.run(it, f)
    ty, pos = mk("param", "cycle_type"), mk("param", "diag_pos")
    seen = set()
    for e in evs:
        for t in terms(e) + [g for g, _ in e.guards]:
            for x in walk(t):
                if x in seen or x.op != "sub" or not listing(x.args[0]):
                    continue
                seen.add(x)
                c.ob("position", "get_step_index: position", x.args[1] is pos, f"the steps of the diagnostic at {show(x.args[1])} are looked up", e.where())
                tys = {b for y in walk(x.args[0]) if y.op == "cmp" and y.args[0] == "==" for a, b in ((y.args[1], y.args[2]), (y.args[2], y.args[1])) if column(a) == "cycle_type"}
                c.ob("position", "get_step_index: type", ty in tys or not tys, "the steps of another type of diagnostic are looked up", e.where())
    # charging steps have a positive current, discharging steps a negative one
    for e in evs:
        if e.kind == "store" and e.how != "attr":
            s = tail(e.key)
            d = "discharge" if "discharge" in s else "charge" if "charge" in s else None
            if d is None:
                continue
            sg = {sign(g, p) for g, p in saturate(e.guards)} - {None}
            if sg:
                c.ob("column", f"get_step_index: {s[-30:]}", sg == {"charge": {1}, "discharge": {-1}}[d], f"a step with {'a positive' if 1 in sg else 'a negative'} current is filed as {s[-30:]}", e.where())


def own_row(c):
    """the protocol parameters of a run are the row of its own sequence number in the table of its own project"""
    f = c.func(LOOK)
    it = c.interp()
    res, st, evs = c.run(it, f)
    if not isinstance(res, Node):
        return
    row = res.args[0] if res.op == "tuple" and res.args else res
    path = mk("param", "filepath")
    leaves = [row]
    while any(x.op == "ite" for x in leaves):
        leaves = [y for x in leaves for y in (x.args[1:3] if x.op == "ite" else (x,))]
    where = f"{f.module.path}:{f.node.lineno}"
    for x in leaves:
        while x.op == "meth" and x.args[1] in ("head", "tail", "copy", "reset_index", "drop_duplicates", "sort_values", "sort_index", "nlargest", "nsmallest") or \
                x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "iloc" and contains(x.args[0].args[0], path) and x.args[0].args[0].op in ("sub", "meth"):
            x = x.args[0] if x.op == "meth" else x.args[0].args[0]
        if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "loc" and x.args[1].op == "cmp":
            x = mk("sub", x.args[0].args[0], x.args[1])
        if x.op != "sub":
            continue
        if x.args[0].op == "attr" and x.args[0].args[1] in ("iloc", "iat"):
            c.ob("own", f"{f.full}:row", not contains(x.args[1], path), f"the parameters of a run are picked by position, {show(x.args[1], maxd=6)}, not by sequence number", where)
            continue
        tests = [y for y in walk(x.args[1]) if y.op == "cmp" and any(column(z) == "seq_num" for z in y.args[1:])]
        if contains(x.args[1], path):
            c.ob("own", f"{f.full}:row", any(y.args[0] == "==" for y in tests), f"the parameters of a run are the rows with {show(x.args[1], maxd=5)}, not the row of its sequence number", where)
        for y in tests:
            k = next((z for z in y.args[1:] if column(z) != "seq_num"), None)
            while k is not None and k.op == "call" and len(k.args[1]) == 1:
                k = k.args[1][0]
            if k is not None and k.op == "sub" and contains(k.args[0], path) and k.args[1].op == "const":
                c.ob("own", f"{f.full}:number", k.args[1].args[0] == 1, f"the sequence number of a run is the second part of its file's name; used is {show(y, maxd=9)}", where)
        for y in walk(x.args[0]):
            if y.op == "str":
                for z in y.args:
                    if isinstance(z, Node) and contains(z, path) and z.op == "sub":
                        c.ob("own", f"{f.full}:table", cval(z.args[1]) == 0, f"the parameter table of a run is that of its project, the first part of its file's name; used is {show(z, maxd=8)}", where)


def sign(g, p):
    """1 / -1: the condition says the current is positive / negative"""
    if not (g.op == "cmp" and g.args[0] in ("<", "<=") and p):
        return None
    a, b = g.args[1:]
    cur = lambda t: contains(t, lambda x: column(x) == "current") and not contains(t, lambda x: column(x) == "test_time") and not (t.op == "call" and t.args[0].split(".")[-1] == "abs")
    num = lambda t: t.op == "const" and isinstance(t.args[0], (int, float)) or t.op == "un" and t.args[0] == "-" and t.args[1].op == "const"
    val = lambda t: t.args[0] if t.op == "const" else -t.args[1].args[0]
    if cur(b) and num(a) and val(a) >= 0:
        return 1
    if cur(a) and num(b) and val(b) <= 0:
        return -1
    return None


def pictures(c, k, evs):
    """names and values appended side by side name the same diagnostic, type, measurement and step"""
    for e in evs:
        if not (e.kind == "call" and e.recv is not None and e.target.split(".")[-1] == "append" and e.args and e.args[0].op == "str"):
            continue
        want = {x for x in walk(e.args[0]) if x.op == "elem"}
        want = {x for x in want if not any(y is not x and contains(y, lambda z: z is x) for y in want)}
        if not want:
            continue
        loops = [z[1] for z in e.ctx if z[0] == "loop"]
        for x in evs:
            if x.kind == "call" and x.recv is not None and x.recv is not e.recv and x.target.split(".")[-1] == "append" and [z[1] for z in x.ctx if z[0] == "loop"] == loops and loops and x.args[0].op != "str":
                got = set(walk(x.args[0])) | {y for g, _ in x.guards for y in walk(g)}
                miss = [w for w in want if w not in got]
                c.ob("column", f"{k.name}: {show(e.args[0])[:30]}", not miss, f"the value does not depend on {show(miss[0]) if miss else ''}, which its label names", x.where())


def check(c):
    c.rule("reaches", "each declared hyperparameter reaches the values of the features, not only their labels")
    c.rule("own", "the protocol parameters of a run are the row of its sequence number in its project's table")
    c.rule("lookup", "protocol parameters are looked up in the directory given")
    c.rule("position", "diagnostics are picked at the positions asked for, and rows are compared with step numbers of their own diagnostic")
    c.rule("validated", "validate looks at the hyperparameters the features need")
    c.rule("column", "each column holds the measurement, step direction and comparison its label names")
    c.rule("statistic", "a column or entry named after a statistic is that statistic")
    c.rule("cycles", "features of particular cycles are taken from the cycles the hyperparameters give")
    c.rule("change", "changes are later minus earlier, relative to the earlier")
    base = c.cls(FEAT)
    me = mk("param", "self")
    hyper = attr(me, "hyperparameters")
    for k in sorted(c.P.subclasses(base), key=lambda s: s.full):
        f = c.P.find_method(k, "create_features")
        if f is None or not k.full.startswith("beep."):
            continue
        hyperparameters(c, k, me, hyper)
        keys = declared(c, k) or {}
        gs = [x.full for x in [c.P.find_method(k, "get_summary_statistics")] if x is not None]
        it = c.interp(types={me: k}, no_inline={STEPS, NX} | set(gs))
        res, st, evs = c.run(it, f, self_node=me, cls=k)
        width = stats_width(c, k)
        names_say(c, k, columns(c, k, f, evs, it, st, hyper, width), hyper, keys)
        positions(c, k.name, f, evs, hyper, None)
        said_of(c, k, evs, it)
        if k.name == "RawInterpolatedData":
            pictures(c, k, evs)
    summary_statistics(c)
    relative(c)
    resistances(c)
    step_lookup(c)
    own_row(c)
    for n in ("get_hppc_ocv", "get_v_diff", "get_diffusion_coeff", "get_fractional_quantity_remaining_nx", "get_fractional_quantity_remaining"):
        f = c.func(H + n)
        it = c.interp(no_inline={STEPS, LOOK})
        res, st, evs = c.run(it, f)
        cols = [(cval(e.key.args[1] if e.key.op == "tuple" and len(e.key.args) == 2 else e.key), e.value, e) for e in evs if e.kind == "store" and e.how != "attr"]
        k = type("F", (), {"name": n})
        names_say(c, k, [x for x in cols if isinstance(x[0], str)], hyper, {})
        positions(c, n, f, evs, hyper, None)
        renamed(c, f, evs)
    c.need("reaches", 30)
    c.need("column", 25)
    c.need("position", 10)


def stats_width(c, k):
    for b in c.P.mro(k):
        d = b.attrs.get("DEFAULT_HYPERPARAMETERS")
        if isinstance(d, ast.Dict):
            for x, v in zip(d.keys, d.values):
                if isinstance(x, ast.Constant) and x.value == "statistics" and isinstance(v, (ast.List, ast.Tuple)):
                    return len(v.elts)
    return 0
