"""P12: every summary and interpolated column holds the quantity its name says."""
import itertools
import math

from .common import *
from .quant import *
from .preds import satisfiable

EXPLANATION = ("Every column of the regular and diagnostic summaries is traced to the measurements and statistics it is computed from (aggregation tables paired with the column names, "
               "arithmetic normal forms of the stored values); the charge/discharge test is evaluated over every ordering of the two capacity changes; "
               "the step filter, the step label and the interpolation axis are shown to speak of the same direction, for every run class.")

DP = "beep.structure.base.BEEPDatapath"
M = "beep.structure.base."
col = lambda n: ("col", n)
STAT = {
    "cycle_index": ("cycle_index", None),
    "discharge_capacity": ("discharge_capacity", {"max"}),
    "charge_capacity": ("charge_capacity", {"max"}),
    "discharge_energy": ("discharge_energy", {"max"}),
    "charge_energy": ("charge_energy", {"max"}),
    "dc_internal_resistance": ("internal_resistance", {"last", "first", "mean", "median", "max", "min"}),
    "temperature_maximum": ("temperature", {"max"}),
    "temperature_average": ("temperature", {"mean"}),
    "temperature_minimum": ("temperature", {"min"}),
    "date_time_iso": ("date_time_iso", {"first", "min"}),
}
since = ("-", col("date_time_iso"), ("first", col("date_time_iso")))
FORM = {
    "energy_efficiency": {("/", col("discharge_energy"), col("charge_energy"))},
    "coulombic_efficiency": {("/", col("discharge_capacity"), col("charge_capacity"))},
    "charge_throughput": {("cumsum", col("charge_capacity"))},
    "energy_throughput": {("cumsum", col("charge_energy"))},
    "charge_duration": {("seconds", ("-", (f, ("reached", col("date_time_iso"))), (g, col("date_time_iso")))) for f in ("first", "min") for g in ("first", "min")},
    "CV_time": {("-", ("last", col("test_time")), ("first", col("test_time"))), ("-", ("max", col("test_time")), ("min", col("test_time")))},
    "CV_current": {("last", col("current"))},
    "CV_capacity": {("-", ("last", col("charge_capacity")), ("first", col("charge_capacity"))), ("-", ("max", col("charge_capacity")), ("min", col("charge_capacity")))},
    "charge_dQdV": {("/", ("diff", col("charge_capacity")), ("diff", col("voltage")))},
    "discharge_dQdV": {("/", ("diff", col("discharge_capacity")), ("diff", col("voltage")))},
    "time_temperature_integrated": {("integral", col("temperature"), col("time_since_cycle_start"))},
    "time_since_cycle_start": {("/", ("seconds", since), ("num", 60.0)), ("seconds", since), since, ("/", ("seconds", col("time_since_cycle_start")), ("num", 60.0))},
}
READS = {
    "energy_efficiency": {"discharge_energy", "charge_energy"},
    "coulombic_efficiency": {"discharge_capacity", "charge_capacity"},
    "charge_throughput": {"charge_capacity"},
    "energy_throughput": {"charge_energy"},
    "charge_duration": {"date_time_iso", "charge_capacity"},
    "CV_time": {"test_time"},
    "CV_current": {"current"},
    "CV_capacity": {"charge_capacity"},
    "paused": {"date_time_iso"},
    "charge_dQdV": {"charge_capacity", "voltage"},
    "discharge_dQdV": {"discharge_capacity", "voltage"},
    "time_temperature_integrated": {"temperature"},
}


def reached(k):
    """row condition: the charge capacity has come up to a bound"""
    for x in walk(k):
        if x.op == "cmp" and x.args[0] in ("<", "<=") and columns_in(x.args[2]) == {"charge_capacity"} and not columns_in(x.args[1]):
            return True
        if x.op == "meth" and x.args[1] in ("ge", "gt") and columns_in(x.args[0]) == {"charge_capacity"}:
            return True
    return False


class Q(Quant):
    def column(self, b, name, depth):
        if name[-2:] in ("_x", "_y"):
            for x in walk(b):
                pair = None
                if x.op == "meth" and x.args[1] == "merge" and x.args[2]:
                    pair = (x.args[0], x.args[2][0])
                elif x.op == "call" and x.args[0] == "pandas.merge" and len(x.args[1]) > 1:
                    pair = x.args[1][:2]
                if pair:
                    return self.q(pair[0 if name[-1] == "x" else 1], depth + 1)
        x = b
        while True:
            if x.op == "sub" and x.args[1].op != "const" and reached(x.args[1]):
                return ("reached", ("col", name))
            if x.op in ("sub", "attr", "meth"):
                x = x.args[0]
            else:
                break
        return ("col", name)


NOIN = {M + "interpolate_df", M + "step_is_chg_state", M + "get_CV_segment_from_charge"}


def check(c):
    c.rule("statistic", "each aggregated column is the named statistic of the named measurement")
    c.rule("formula", "each computed column is computed from the measurements its name says, the right way round")
    c.rule("direction", "a step is a charge step exactly when its charge capacity rises more than its discharge capacity")
    c.rule("label", "rows labelled charge come from charging steps, rows labelled discharge from discharging steps, of the labelled cycle and step")
    c.rule("segment", "the constant-voltage segment is taken from the charge of that cycle")
    c.rule("grid", "interpolated values are read off against the interpolation axis")
    base = c.cls(DP)
    me = mk("param", "self")
    seen = set()
    for k in [base] + sorted(c.P.subclasses(base), key=lambda s: s.full):
        for m in ("summarize_cycles", "summarize_diagnostic", "interpolate_diagnostic_cycles"):
            f = c.P.find_method(k, m)
            init = c.P.find_method(k, "__init__")
            if f is None or (f.full, init.full) in seen:
                continue
            seen.add((f.full, init.full))
            it = c.interp(types={me: k}, no_inline=NOIN)
            res, st, evs = c.run(it, f, self_node=me, cls=k)
            formulas(c, k, f, evs)
            erased(c, f, evs)
            ranges(c, f, evs)
            if m.startswith("summarize"):
                statistics(c, k, f, evs, me)
        f = c.P.find_method(k, "interpolate_cycles")
        g = c.P.find_method(k, "interpolate_step")
        h = c.P.find_method(k, "iterate_steps_in_cycle")
        if (f.full, g.full, h.full) not in seen:
            seen.add((f.full, g.full, h.full))
            labels(c, k, f, g, me)
            it = c.interp(types={me: k}, no_inline=NOIN)
            ranges(c, g, c.run(it, g, self_node=me, cls=k)[2])
    direction(c)
    segment(c)
    grid(c)
    c.need("statistic", 16)
    c.need("formula", 15)
    c.need("direction", 1)
    c.need("label", 8)


# ---------------------------------------------------------------- aggregated columns
def statistics(c, k, f, evs, me):
    it = c.interp(types={me: k})
    _, s0, _ = c.run(it, c.P.find_method(k, "__init__"), self_node=me, cls=k)
    home = lambda t: s0.heap.get(t, t)
    aggs = [e for e in evs if e.kind == "call" and e.target.split(".")[-1] in ("agg", "aggregate") and e.recv is not None]
    pairs = []
    for e in aggs:
        if e.kwargs and not e.args:
            named = {n: v for n, v in e.kwargs.items() if v.op in ("tuple", "list") and len(v.args) == 2 and all(x.op == "const" for x in v.args)}
            for n, v in named.items():
                pairs.append((n, v.args[0].args[0], v.args[1].args[0], e))
            continue
        if not e.args:
            continue
        d = home(e.args[0])
        if d.op != "new" or d.args[0] != "dict":
            continue
        names = [x.value for x in evs if x.kind == "store" and x.how == "attr" and cval(x.key) == "columns" and x.idx > e.idx]
        if not names:
            c.notes.append(f"{f.qual}: columns of the aggregation not set by position")
            continue
        ks = s0.heap.get(mk("keysof", d))
        if ks is None:
            c.notes.append(f"{f.qual}: aggregation not known")
            continue
        for g1, kk in guarded_alts(ks):
            for g2, ll in guarded_alts(home(names[0])):
                if not satisfiable(g1 + g2) or kk.op != "keys" or ll.op not in ("list", "tuple"):
                    continue
                src = []
                for key in kk.args:
                    v = s0.heap.get(sub(d, key), ABSENT)
                    vs = [x for gs, x in guarded_alts(v) if satisfiable(gs + g1 + g2)]
                    if len(vs) != 1:
                        src = None
                        break
                    v = vs[0]
                    if v is ABSENT:
                        continue
                    for y in (v.args if v.op in ("list", "tuple") else (v,)):
                        src.append((cval(key), cval(y)))
                if src is None:
                    continue
                ns = [cval(x) for x in ll.args]
                c.ob("statistic", f"{f.qual}: one name per column", len(ns) == len(src), f"{len(src)} aggregated columns get {len(ns)} names", e.where())
                for n, (s, a) in zip(ns, src):
                    pairs.append((n, s, a, e))
    if not pairs:
        c.notes.append(f"{f.qual}: aggregation not known")
    for n, s, a, e in pairs:
        if n in STAT:
            want, how = STAT[n]
            c.ob("statistic", f"{f.qual}: {n}", s == want and (how is None or a in how), f"{n} is the {a} of {s}", e.where())
    have = {n for n, *_ in pairs}
    for e in aggs:
        by = [x for x in walk(e.recv) if x.op == "meth" and x.args[1] == "groupby"]
        if by and by[0].args[2]:
            c.ob("statistic", f"{f.qual}: per cycle", "cycle_index" in (cval(by[0].args[2][0]),) or "cycle_index" in columns_in(by[0].args[2][0]) or
                 any(cval(y) == "cycle_index" for y in by[0].args[2][0].args if hasattr(y, "op")), f"the statistics are taken per {show(by[0].args[2][0])}, not per cycle", e.where())
    return have


# ---------------------------------------------------------------- computed columns
def values_of(e, evs):
    v = e.value
    if v.op == "new" and v.args[0] == "list":
        return [(x.args[0], x) for x in evs if x.kind == "call" and x.recv is v and x.target.split(".")[-1] == "append" and x.args]
    if v.op == "comp":
        return [(v.args[1][0], e)]
    return [(v, e)]


def formulas(c, k, f, evs):
    for e in evs:
        if e.kind != "store" or e.how == "attr" or cval(e.key) not in (set(FORM) | set(READS)):
            continue
        n = cval(e.key)
        lab = f"{f.qual}: {n}"
        for v, at in values_of(e, evs):
            for gs, leaf in guarded_alts(v):
                if leaf is NONE or leaf.op == "ext" or leaf in (UNDEF, ABSENT):
                    continue
                inner = leaf
                q = Q().q(inner)
                if not unknown(q):
                    if n in FORM:
                        c.ob("formula", lab, q in FORM[n], f"{n} is {text(q)}", at.where())
                elif n in READS:
                    got = columns_in(strip_segment(inner)) - {"cycle_index", "time_since_cycle_start", "date_time_iso_x", "date_time_iso_y", "step_index"}
                    c.ob("formula", lab, got == READS[n], f"{n} is computed from {sorted(got)}", at.where())
                if n == "charge_duration":
                    bs = [x for x in walk(inner) if x.op == "cmp" and x.args[0] in ("<", "<=") and columns_in(x.args[2]) == {"charge_capacity"}]
                    for b in bs:
                        ps = {y.args[0] for y in walk(b.args[1]) if y.op == "param"}
                        c.ob("formula", lab + ": threshold", {"nominal_capacity", "full_fast_charge"} <= ps and any(y.op == "bin" and y.args[0] == "*" for y in walk(b.args[1])),
                             f"charging ends at {show(b.args[1])}, not at the full fast charge fraction of the nominal capacity", at.where())
                if n == "paused":
                    for x in walk(inner):
                        if x.op == "lam":
                            for g2, y in guarded_alts(x.args[1]):
                                for g, p in g2:
                                    if g.op == "cmp" and g.args[0] in ("<", "<=") and y.op != "const" and contains(y, lambda z: z.op == "meth" and z.args[1] == "diff"):
                                        c.ob("formula", lab + ": longest gap", p and g.args[2] is y, "the pause reported is not the gap that exceeds the threshold", at.where())
        if n.startswith("CV_"):
            for v, at in values_of(e, evs):
                for x in walk(v):
                    if x.op == "call" and x.args[0] == M + "get_CV_segment_from_charge" and x.args[1]:
                        charge_of_cycle(c, lab, x.args[1][0], at)


def erased(c, f, evs):
    """values marked as errors are those beyond the threshold"""
    for e in evs:
        if e.kind != "store" or e.how == "attr" or not (e.value.op == "ext" and e.value.args[0].lower().endswith("nan")):
            continue
        if e.key.op == "tuple" and len(e.key.args) == 2 and e.key.args[1].op == "const" and isinstance(cval(e.key.args[1]), str) and e.key.args[0].op not in ("slice", "const"):
            mask, own = e.key.args
            vs = [x.value for x in evs if x.kind == "store" and x.idx < e.idx and x.how != "attr" and x.key is own and x.value is not None]
            reads = columns_in(mask)
            if reads:
                tested = [x.args[1][0] for x in walk(mask) if x.op == "call" and x.args[0].split(".")[-1] in ("isfinite", "isinf", "isnan", "isna", "isnull") and x.args[1]]
                others = {cval(x.key) for x in evs if x.kind == "store" and x.idx < e.idx and x.how != "attr" and x.key.op == "const" and any(x.value is t for t in tested)}
                ok = not (others and cval(own) not in others) and (any(contains(mask, v) for v in vs) or contains(mask, lambda z: z.op == "sub" and z.args[1] is own) or cval(own) in reads)
                c.ob("formula", f"{f.qual}: blanked {cval(own)}", ok, f"{cval(own)} is blanked where {show(mask, 5)[-90:]}, whatever its own value", e.where())
        for x in walk(e.key):
            if x.op == "cmp" and x.args[0] in ("<", "<="):
                a, b = (contains(y, lambda z: z.op == "param" and z.args[0] == "error_threshold") for y in x.args[1:])
                if a != b:
                    c.ob("formula", f"{f.qual}: errors", a, f"values are blanked where {show(x)[-70:]}", e.where())


def strip_segment(t):
    """the term with the selection of the segment's rows left out"""
    import functools

    def rec(x):
        if x.op == "call" and x.args[0] == M + "get_CV_segment_from_charge":
            return mk("param", "segment")
        return x
    # replace bottom-up where the call is the base of an attribute chain
    memo = {}

    def go(a):
        if isinstance(a, tuple):
            return tuple(go(y) for y in a)
        if not hasattr(a, "op"):
            return a
        if a in memo:
            return memo[a]
        r = rec(a)
        if r is a:
            new = tuple(go(y) for y in a.args)
            r = mk(a.op, *new) if any(x is not y for x, y in zip(new, a.args)) else a
        memo[a] = r
        return r
    return go(t)


def tops(k):
    """the conditions a row selection is made of"""
    if k.op == "bin" and k.args[0] in ("&", "|"):
        yield from tops(k.args[1])
        yield from tops(k.args[2])
    elif k.op == "bool":
        for x in k.args[1]:
            yield from tops(x)
    else:
        yield k


def signed(k, pos=True):
    """the comparisons a row selection is made of, with their sign"""
    if k.op == "bin" and k.args[0] in ("&", "|"):
        yield from signed(k.args[1], pos)
        yield from signed(k.args[2], pos)
    elif k.op == "bool":
        for x in k.args[1]:
            yield from signed(x, pos)
    elif k.op == "not":
        yield from signed(k.args[0], not pos)
    elif k.op == "un" and k.args[0] in ("~", "not"):
        yield from signed(k.args[1], not pos)
    elif k.op == "cmp":
        yield (mk("cmp", "==", *k.args[1:]), not pos) if k.args[0] == "!=" else (k, pos)


def charge_of_cycle(c, lab, rows, at):
    """the rows handed to the segment search are charge rows of one cycle"""
    conds = []
    x = rows
    while x.op in ("sub", "attr", "meth"):
        if x.op == "sub" and x.args[1].op != "const":
            conds.append(x.args[1])
        x = x.args[0]
    flat = [y for k in conds for y in walk(k) if y.op == "cmp"]
    cyc = [y for y in flat if y.args[0] == "==" and "cycle_index" in columns_in(y)]
    if flat:
        c.ob("segment", lab + ": one cycle", bool(cyc) and all(contains(y, lambda z: z.op in ("elem", "param", "bv")) for y in cyc), "the segment is not taken from the rows of one cycle", at.where())
    for k in conds:
        for y, pos in signed(k):
            if not pos and y.args[0] == "==" and "step_index" in columns_in(y) and contains(y, lambda z: z.op == "meth" and z.args[1] in ("min", "first")):
                c.ob("segment", lab + ": first step", False, "the segment is searched outside the first step", at.where())
            elif not pos and y.args[0] == "==" and "cycle_index" in columns_in(y) and "step_index" not in columns_in(y):
                c.ob("segment", lab + ": one cycle", False, "the segment is taken from the rows of the other cycles", at.where())
    cur = [y for y in flat if y.args[0] in ("<", "<=") and col("current") in (Q().q(y.args[1]), Q().q(y.args[2]))]
    for y in cur:
        ok = Q().q(y.args[2]) == col("current") and (y.args[1].op != "const" or y.args[1].args[0] >= 0)
        # cmp_ keeps the smaller side on the left: 0 < current
        c.ob("segment", lab + ": charge", ok, f"the segment is searched where {show(y)[-60:]}", at.where())
        for k in conds:
            if contains(k, lambda z: z.op == "un" and z.args[0] == "~" and contains(z, lambda w: w is y)):
                c.ob("segment", lab + ": charge", False, "the segment is searched outside the charge", at.where())
    only_cmp = all(z.op in ("cmp", "bin", "bool") for k in conds for z in tops(k))
    if cyc and only_cmp and not cur:
        named = set().union(*[columns_in(y) for y in flat])
        ok = bool(named & {"step_index", "step_type", "state", "current", "step_index_counter"}) or not named <= {"cycle_index", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "voltage",
                                                                                                                "test_time", "step_time", "temperature", "internal_resistance"}
        c.ob("segment", lab + ": charge", ok, f"the segment is searched in rows selected by {sorted(named)}, which includes rows that are not of the charge", at.where())
    stp = [y for y in flat if y.args[0] == "==" and "step_index" in columns_in(y) and not cur]
    for y in stp:
        ok = contains(y, lambda z: z.op == "meth" and z.args[1] in ("min", "first") or z.op == "sub" and cval(z.args[1]) == 0 and type(cval(z.args[1])) is int)
        c.ob("segment", lab + ": first step", ok, f"the segment is searched in {show(y)[-60:]}, not in the first step", at.where())


# ---------------------------------------------------------------- labels
def chg_calls(evs):
    return [e for e in evs if e.kind == "call" and e.target == M + "step_is_chg_state" and e.bound and "chg" in e.bound]


def labels(c, k, f, g, me):
    for kind in ("charge", "discharge"):
        it = c.interp(types={me: k}, no_inline=NOIN)
        res, st, evs = c.run(it, g, self_node=me, cls=k, args={"step_type": const(kind)})
        calls = chg_calls(evs)
        if not calls:
            c.notes.append(f"{g.qual}: the step filter is not recognised")
        for e in calls:
            v = e.bound["chg"]
            if v.op == "const":
                c.ob("label", f"{g.qual}: {kind} filter", v.args[0] is (kind == "charge"), f"{kind} steps are those with chg={v.args[0]}", e.where())
        # the filter keeps, not drops
        for x in {y for e in evs for v in (e.recv,) if v is not None for y in walk(v) if y.op == "meth" and y.args[1] == "filter" and y.args[2] and y.args[2][0].op == "lam"}:
            b = x.args[2][0].args[1]
            c.ob("label", f"{g.qual}: {kind} kept", not (b.op == "not" or b.op == "un" and b.args[0] in ("~", "not")), f"{kind} steps are dropped instead of kept", g.where())
        frames = [e for e in evs if e.kind == "call" and e.target == M + "interpolate_df"]
        for e in evs:
            if e.kind != "store" or e.how == "attr" or e.key.op != "const":
                continue
            if not any(e.base is x.result or contains(e.base, lambda y: y is x.result) for x in frames):
                continue
            n, v = e.key.args[0], e.value
            if v.op == "meth" and v.args[1] in ("astype", "round"):
                continue
            if n == "step_type":
                c.ob("label", f"{g.qual}: {kind} label", cval(v) == kind, f"{kind} steps are labelled {show(v)[:40]}", e.where())
            if n == "cycle_index" and v.op == "elem":
                fr = [x for x in frames if x.result is e.base or contains(e.base, lambda y: y is x.result)]
                off = [y for x in fr for y in walk(x.bound["dataframe"]) if y.op == "cmp" and y.args[0] in ("<", "<=", "!=") and v in y.args[1:] and "cycle_index" in columns_in(y)]
                c.ob("label", f"{g.qual}: cycle", not off, f"rows of several cycles ({show(off[0])[-50:] if off else ''}) are labelled with one cycle", e.where())
                conds = [y for x in fr for y in walk(x.bound["dataframe"]) if y.op == "cmp" and y.args[0] == "==" and "cycle_index" in columns_in(y)]
                c.ob("label", f"{g.qual}: cycle", not conds or any(contains(y, lambda z: z is v) for y in conds), "rows are labelled with a cycle other than the one they are taken from", e.where())
            if n == "step_index":
                fr = [x for x in frames if x.result is e.base]
                src = [x for x in walk(v) if x.op in ("attr", "sub") and (x.args[1] == "step_index" or hasattr(x.args[1], "op") and cval(x.args[1]) == "step_index")]
                if fr and src:
                    c.ob("label", f"{g.qual}: step", any(contains(x.bound["dataframe"], lambda y: y is src[0].args[0]) for x in fr), "rows are labelled with a step other than the one they are taken from", e.where())
    # the waveform test that changes an axis speaks of that direction
    it = c.interp(types={me: k}, no_inline=NOIN | {g.full})
    res, st, evs = c.run(it, f, self_node=me, cls=k)
    calls = [e for e in evs if e.kind == "call" and (e.target == g.full or e.target.split(".")[-1] == g.name) and e.bound]
    kinds = set()
    for e in calls:
        kind = cval(e.bound.get("step_type", NONE))
        kinds.add(kind)
        ax = e.bound.get("axis")
        for gs, leaf in guarded_alts(ax) if ax is not None else []:
            if cval(leaf) == "test_time":
                for gg, p in gs:
                    for x in walk(gg):
                        if x.op == "call" and x.args[0] == M + "step_is_chg_state" and len(x.args[1]) > 1:
                            c.ob("label", f"{f.qual}: {kind} waveform", x.args[1][1].op != "const" or x.args[1][1].args[0] is (kind == "charge") , f"the {kind} axis follows waveforms of the other direction", e.where())
    if calls:
        c.ob("label", f"{f.qual}: both directions", kinds == {"charge", "discharge"}, f"interpolated directions: {sorted(map(str, kinds))}", f.where())
        for e in calls:
            c.ob("label", f"{f.qual}: {cval(e.bound.get('step_type', NONE))} delivered", contains(res, lambda y: y is e.result) or not e.result.op == "call" and not e.result.op == "meth", "the interpolated steps are not part of the result", e.where())


# ---------------------------------------------------------------- direction
class Undecided(Exception):
    pass


def evaluate(t, leaf):
    """value of a term under a valuation of its leaves"""
    v = leaf(t)
    if v is not Undecided:
        return v
    r = lambda x: evaluate(x, leaf)
    if t.op == "const":
        return t.args[0]
    if t.op == "ite":
        return r(t.args[1]) if r(t.args[0]) else r(t.args[2])
    if t.op == "not":
        return not r(t.args[0])
    if t.op == "bool":
        out = None
        for x in t.args[1]:
            out = r(x)
            if t.args[0] == "and" and not out or t.args[0] == "or" and out:
                return out
        return out
    if t.op == "cmp":
        op, a, b = t.args[0], r(t.args[1]), r(t.args[2])
        try:
            return {"<": lambda: a < b, "<=": lambda: a <= b, "==": lambda: a == b, "!=": lambda: a != b, "is": lambda: a is b, "is not": lambda: a is not b}[op]()
        except (KeyError, TypeError):
            raise Undecided
    if t.op == "call" and t.args[0] in ("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull") and t.args[1]:
        a = r(t.args[1][0])
        return isinstance(a, float) and math.isnan(a)
    if t.op == "call" and t.args[0] in ("builtins.max", "builtins.min") and len(t.args[1]) > 1:
        return (max if t.args[0].endswith("max") else min)(*[r(x) for x in t.args[1]])
    if t.op == "call" and t.args[0] in ("builtins.bool", "builtins.float") and t.args[1]:
        return (bool if t.args[0].endswith("bool") else float)(r(t.args[1][0]))
    if t.op == "un" and t.args[0] == "-":
        return -r(t.args[1])
    if t.op == "bin":
        a, b = r(t.args[1]), r(t.args[2])
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "&": lambda: a & b, "|": lambda: a | b}[t.args[0]]()
        except (KeyError, TypeError, ZeroDivisionError):
            raise Undecided
    raise Undecided


def direction(c):
    f = c.func(M + "step_is_chg_state")
    it = c.interp()
    res, st, evs = c.run(it, f)
    ps = [p for p in f.params] if hasattr(f, "params") else []
    nan = float("nan")
    cases = []
    for x, y in itertools.product((nan, -2.0, -1.0, 0.0, 1.0, 2.0), repeat=2):
        if math.isnan(x) and math.isnan(y):
            want = None
        elif math.isnan(x):
            want = False if y > 0 else "any"
        elif math.isnan(y):
            want = True if x > 0 else "any"
        elif x > y and x > 0:
            want = True
        elif y > x and y > 0:
            want = False
        elif x == y:
            want = None
        else:
            want = "any"
        cases.append((x, y, want))
    bad = neg_diff(res)
    c.ob("direction", "step_is_chg_state: change", bad is None, f"the change in capacity is taken backwards ({bad})", f.where())
    try:
        for x, y, want in cases:
            if want == "any":
                continue
            for chg, ind in itertools.product((True, False), repeat=2):
                def leaf(t):
                    if t.op == "param":
                        if t.args[0] == "chg":
                            return chg
                        if t.args[0] == "indeterminate_step_charge":
                            return ind
                    if t.op in ("sub", "attr"):
                        n = t.args[1] if isinstance(t.args[1], str) else cval(t.args[1])
                        if n == "charge_capacity":
                            return x
                        if n == "discharge_capacity":
                            return y
                    if t.op == "meth" and t.args[1] in ("mean", "sum", "median", "item") and columns_in(t) in ({"charge_capacity"}, {"discharge_capacity"}):
                        return x if "charge_capacity" in columns_in(t) else y
                    return Undecided
                got = evaluate(res, leaf)
                exp = chg == (ind if want is None else want)
                what = {True: "charging", False: "discharging", None: "indeterminate"}[want]
                c.ob("direction", f"step_is_chg_state: charge change {x:g}, discharge change {y:g}", bool(got) == exp,
                     f"asked chg={chg} (indeterminate counts as charge={ind}) of a step that is {what}, it answers {bool(got)}", f.where())
    except Undecided:
        c.notes.append("step_is_chg_state: not decided")
    for n, want in (("step_is_chg", True), ("step_is_dchg", False)):
        try:
            g = c.func(M + n)
        except AnalysisError:
            continue
        it = c.interp(no_inline={f.full})
        r, _, ev = c.run(it, g)
        for e in chg_calls(ev):
            v = e.bound["chg"]
            c.ob("direction", n, v.op != "const" or v.args[0] is want, f"{n} asks for chg={show(v)}", e.where())


def neg_diff(t):
    for x in walk(t):
        if x.op == "meth" and x.args[1] in ("diff", "shift") and x.args[2]:
            p = x.args[2][0]
            if p.op == "const" and isinstance(p.args[0], int) and p.args[0] < 0 or p.op == "un" and p.args[0] == "-":
                return show(p)
    return None


# ---------------------------------------------------------------- the constant-voltage segment
def segment(c):
    f = c.func(M + "get_CV_segment_from_charge")
    it = c.interp()
    res, st, evs = c.run(it, f)
    p = mk("param", "charge")
    for x in walk(res):
        if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] in ("iat", "iloc") or x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "values":
            i = x.args[1]
            if i.op == "bin" and i.args[0] in ("-", "+") and i.args[1].op in ("phi", "mu"):
                n = cval(i.args[2])
                if not isinstance(n, int):
                    continue
                n = n if i.args[0] == "+" else -n
                lows = [cval(y) for y in walk(i.args[1]) if y.op == "const" and isinstance(cval(y), int) and y in alts_of(i.args[1])]
                for lo in lows:
                    c.ob("segment", "get_CV_segment_from_charge: start", lo + n >= 0, f"when the constant voltage starts at row {lo}, the row taken is number {lo + n}, counted from the end", f.where())
    # the search stops where the voltage is steady and the current still falls
    tests = [(e.value, e) for e in evs if e.kind == "test"]
    breaks = [e for e in evs if e.kind == "break"]
    tols = ("dt_tol", "dVdt_tol", "dIdt_tol")
    mentions = lambda t, n: contains(t, lambda y: y.op == "param" and y.args[0] == n)
    stop = None
    for t, e in tests:
        if any(mentions(t, n) for n in tols):
            stop = (lambda leaf, t=t: not evaluate(t, leaf)), e
    if stop is None:
        bs = [e for e in breaks if any(mentions(g, n) for g, _ in e.guards for n in tols)]
        if bs:
            stop = (lambda leaf: any(all(bool(evaluate(g, leaf)) == p for g, p in e.guards) for e in bs)), bs[0]
    if stop is None:
        c.notes.append("get_CV_segment_from_charge: the search is not recognised")
        return
    try:
        for dv, di, dt in itertools.product((0.0, 2.0), repeat=3):
            def leaf(t):
                if t.op == "param" and t.args[0] in tols:
                    return 1.0
                if t.op == "attr" and t.args[1] == "empty":
                    return False
                if t.op in ("phi", "mu"):
                    return 0
                if t.op == "call" and t.args[0] == "builtins.len" or t.op == "attr" and t.args[1] == "size":
                    return 9
                if t.op == "bin" and t.args[0] == "/" or t.op == "call" and t.args[0] in ("builtins.abs", "numpy.abs"):
                    cs = columns_in(t) & {"voltage", "current"}
                    if cs == {"voltage"}:
                        return dv
                    if cs == {"current"}:
                        return di
                if t.op == "sub" and columns_in(t) == {"test_time"}:
                    return dt
                return Undecided
            want = dv < 1 and di > 1 and dt > 1
            got = stop[0](leaf)
            c.ob("segment", "get_CV_segment_from_charge: begins", got == want,
                 f"the constant-voltage segment {'begins' if got else 'does not begin'} where the voltage {'is steady' if dv < 1 else 'changes'}, the current "
                 f"{'changes' if di > 1 else 'is steady'} and the time step is {'long enough' if dt > 1 else 'too short'}", stop[1].where())
    except Undecided:
        c.notes.append("get_CV_segment_from_charge: not decided")


def alts_of(t):
    return [y for _, y in guarded_alts(t)]


# ---------------------------------------------------------------- interpolation
def decide(t, name, val):
    """a condition when the parameter name is val: True, False or None (not known)"""
    if t.op == "not":
        r = decide(t.args[0], name, val)
        return None if r is None else not r
    if t.op == "bool":
        rs = [decide(x, name, val) for x in t.args[1]]
        if t.args[0] == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    isp = lambda x: x.op == "param" and x.args[0] == name
    if t.op == "cmp" and t.args[0] in ("==", "in", "!="):
        a, b = t.args[1:]
        if t.args[0] != "in" and isp(b):
            a, b = b, a
        if isp(a) and t.args[0] == "in" and b.op in ("list", "tuple", "set") and all(x.op == "const" for x in b.args):
            return val in [cval(x) for x in b.args]
        if isp(a) and t.args[0] != "in" and b.op == "const":
            return (val == cval(b)) == (t.args[0] == "==")
    return None


def ranges(c, f, evs):
    """the range an interpolation covers is that of the quantity it runs over"""
    for e in evs:
        if e.kind != "call" or e.target != M + "interpolate_df" or not e.bound:
            continue
        field, fr = e.bound.get("field_name"), e.bound.get("field_range")
        if field is None or fr is None:
            continue
        if field.op == "const":
            cases = [(None, cval(field))]
        elif field.op == "param":
            names = {cval(x) for g, _ in list(e.guards) + [y for gs, _ in guarded_alts(fr) for y in gs] for x in walk(g) if x.op == "const" and isinstance(cval(x), str)}
            cases = [(field.args[0], v) for v in sorted(names & {"charge_capacity", "discharge_capacity", "test_time", "voltage"})]
        else:
            continue
        for name, val in cases:
            live = lambda gs: name is None or all(decide(g, name, val) in (None, p) for g, p in gs)
            if not live(e.guards):
                continue
            for gs, r in guarded_alts(fr):
                if not live(gs):
                    continue
                lab = f"{f.qual}: range of {val}"
                if r.op == "param" and r.args[0].startswith("v_"):
                    c.ob("grid", lab, val == "voltage", f"the range given for the voltage is used for {val}", e.where())
                    continue
                if r.op not in ("list", "tuple") or len(r.args) != 2:
                    continue
                ends = [(x.args[1], x.args[0]) if x.op == "meth" and x.args[1] in ("min", "max") else None for x in r.args]
                if None in ends:
                    continue
                c.ob("grid", lab, {ends[0][0], ends[1][0]} == {"min", "max"}, f"the interpolation over {val} runs from the {ends[0][0]} to the {ends[1][0]}", e.where())
                for _, x in ends:
                    q = x.args[1] if x.op in ("sub", "attr") else None
                    q = val if q is field else q if isinstance(q, str) else cval(q) if isinstance(q, Node) and q.op == "const" else None
                    if q is not None:
                        c.ob("grid", lab + ": quantity", q == val, f"the interpolation over {val} runs over the range of {q}", e.where())


def grid(c):
    f = c.func(M + "interpolate_df")
    it = c.interp()
    res, st, evs = c.run(it, f)
    field = mk("param", "field_name")
    for e in evs:
        if e.kind != "call":
            continue
        t = e.target.split(".")[-1]
        if t == "interpolate":
            m = e.args[0] if e.args else (e.kwargs or {}).get("method", const("linear"))
            c.ob("grid", "interpolate_df: by the axis", cval(m) in ("index", "values", "slinear", "time") or m.op != "const", f"values are interpolated by {show(m)}, not by the axis value", e.where())
            idx = [x for x in walk(e.recv) if x.op == "meth" and x.args[1] == "set_index"]
            if idx and idx[0].args[2]:
                c.ob("grid", "interpolate_df: axis", idx[0].args[2][0] is field, "the values are not indexed by the interpolation axis", e.where())
        if t == "linspace" and len(e.args) >= 1:
            a = e.args[0]
            bad = [x for x in walk(a) if x.op in ("min", "max")]
            c.ob("grid", "interpolate_df: points", len(e.args) < 2 or not columns_in(e.args[-1]), "the number of points is taken from the data", e.where())
