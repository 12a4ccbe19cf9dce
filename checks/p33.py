"""P33: structured tables cover every cycle; a summary leaves out only an incomplete last cycle"""
import itertools

from .common import *
from .quant import *
from .p12 import DP, M, NOIN, signed

EXPLANATION = ("Symbolic evaluation of the summaries, for every datapath class, down to the rows of the table returned on each path: the conditions of the path are reduced to the "
               "documented criteria of a complete cycle and their truth table decides when the last row is kept; every row selection on the way from the raw cycles to the table is checked "
               "to be one of the regular or diagnostic cycles; and the cycles and steps interpolated are traced to all cycles of the raw data.")
PICK = {"dropna", "head", "tail", "sample", "query", "nlargest", "nsmallest", "drop", "truncate", "drop_duplicates", "filter"}
CRIT = {"cycle_complete_vmin": "low", "cycle_complete_vmax": "high", "cycle_complete_discharge_ratio": "ratio"}


def check(c):
    c.rule("complete", "the last cycle is left out of the regular summary exactly when it is incomplete by the criteria given")
    c.rule("every-cycle", "no other cycle is left out of a summary")
    c.rule("interpolated", "every cycle of its kind and every step with two or more points is interpolated")
    base = c.cls(DP)
    me = mk("param", "self")
    seen = set()
    for k in [base] + sorted(c.P.subclasses(base), key=lambda s: s.full):
        for m in ("summarize_cycles", "summarize_diagnostic", "interpolate_step", "interpolate_diagnostic_cycles"):
            f = c.P.find_method(k, m)
            if f is None or f.full in seen:
                continue
            seen.add(f.full)
            res, st, evs = c.run(c.interp(types={me: k}, no_inline=NOIN), f, self_node=me, cls=k)
            if m.startswith("summarize"):
                summary(c, f, res, m == "summarize_cycles")
            else:
                interpolated(c, f, evs)
    c.need("every-cycle", 2)


def short(x):
    """(table, which rows are left out) of a positional cut"""
    if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "iloc" or x.op == "sub" and x.args[1].op == "slice":
        t = x.args[0].args[0] if x.args[0].op == "attr" and x.args[0].args[1] == "iloc" else x.args[0]
        if x.args[1].op == "slice":
            lo, hi, step = (cval(y) if isinstance(y, Node) and y.op == "const" else y for y in x.args[1].args)
            if isinstance(hi, Node) and hi.op == "bin" and hi.args[0] in ("-", "+") and hi.args[2].op == "const" and contains(hi.args[1], lambda z: z.op == "call" and z.args[0] == "builtins.len" or z.op == "attr" and z.args[1] == "shape"):
                hi = {("-", 1): -1, ("+", -1): -1}.get((hi.args[0], cval(hi.args[2])), hi)
            if step in (None, 1) and lo in (None, 0) and hi in (-1, None):
                return t, "last" if hi == -1 else None
            return t, "other" if all(not isinstance(y, Node) for y in (lo, hi, step)) else "?"
        return t, "other" if x.args[1].op == "const" else "?"
    if x.op == "meth" and x.args[1] == "head" and x.args[2] and cval(x.args[2][0]) == -1:
        return x.args[0], "last"
    if x.op == "meth" and x.args[1] == "drop" and any(y.op == "sub" and cval(y.args[1]) == -1 for z in list(x.args[2]) + [v for _, v in x.args[3]] for y in walk(z)):
        return x.args[0], "last"
    return None


def down(x):
    """the table with steps that keep rows left out"""
    while x.op == "meth" and x.args[1] in ("astype", "copy", "reset_index", "set_index", "rename", "round", "sort_index", "fillna", "replace", "infer_objects"):
        x = x.args[0]
    return x


def summary(c, f, res, regular):
    leaves = guarded_alts(res)
    kinds = []
    for gs, x in leaves:
        x = down(x)
        cut = short(x)
        if cut is None:
            kinds.append((gs, "all"))
        else:
            if cut[1] == "other":
                c.ob("every-cycle", f"{f.qual}: rows returned", False, f"rows are cut from the summary by position: {show(x.args[1] if x.op == 'sub' else x, 4)[:80]}", f.where())
            kinds.append((gs, "last" if cut[1] == "last" else "all" if cut[1] is None else "?"))
            x = down(cut[0])
        rows_kept(c, f, x)
    if not regular:
        c.ob("every-cycle", f"{f.qual}: last row", all(k != "last" for _, k in kinds), "the last diagnostic cycle is left out", f.where())
        return
    if any(k == "?" for _, k in kinds):
        return
    # the truth table over the criteria
    unknown = []
    vals = list(itertools.product((True, False), repeat=4))
    for single, low, high, ratio in vals:
        env = {"single": single, "low": low, "high": high, "ratio": ratio}
        got = set()
        for gs, k in kinds:
            rs = [truth(c, f, g, env, unknown) for g, _ in gs]
            if any(r is not None and r != p for r, (_, p) in zip(rs, gs)):
                continue
            got.add(k)
        if unknown:
            c.notes.append(f"{f.qual}: condition {show(unknown[0], 5)[:120]} not decided")
            return
        want = "all" if single or low and high and ratio else "last"
        says = ("its voltage reaches the minimum" if low else "its voltage stays above the minimum", "reaches the maximum" if high else "stays below the maximum",
                "it is discharged by the ratio" if ratio else "it is not discharged by the ratio")
        if not c.ob("complete", f"{f.qual}: last cycle", got == {want}, ("a run's only cycle" if single else "the last cycle") + f" is {'kept' if 'all' in got else 'left out'} when " + ", ".join(says), f.where()):
            break


def truth(c, f, t, env, unknown):
    if t.op == "not":
        r = truth(c, f, t.args[0], env, unknown)
        return None if r is None else not r
    if t.op == "bool":
        rs = [truth(c, f, x, env, unknown) for x in t.args[1]]
        if t.args[0] == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if t.op == "bin" and t.args[0] in ("&", "|"):
        a, b = (truth(c, f, x, env, unknown) for x in t.args[1:])
        if None in (a, b):
            return None
        return a and b if t.args[0] == "&" else a or b
    if t.op == "cmp":
        ps = {x.args[0] for x in walk(t) if x.op == "param" and x.args[0] in CRIT}
        if len(ps) == 1 and t.args[0] in ("<", "<="):
            p = ps.pop()
            a, b = t.args[1:]
            left = contains(a, lambda x: x.op == "param" and x.args[0] == p)
            criterion(c, f, p, b if left else a, a if left else b)
            # "low": measured < limit; "high": limit < measured; "ratio": ratio * charge < discharge
            return env[CRIT[p]] == (left == (CRIT[p] != "low"))
        n = [cval(x) for x in t.args[1:] if x.op == "const" and type(cval(x)) is int]
        if len(n) == 1 and any(x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and cval(x.args[1]) == 0 or x.op == "call" and x.args[0] == "builtins.len" for x in t.args[1:]):
            const_left = t.args[1].op == "const"
            holds = {True: [], False: []}
            for size in (1, 2, 5):
                a, b = (n[0], size) if const_left else (size, n[0])
                holds[size == 1].append({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b}.get(t.args[0]))
            v = set(holds[env["single"]])
            if len(v) == 1 and None not in v:
                return v.pop()
            if None not in v:
                c.ob("complete", f"{f.qual}: only cycle", False, f"{show(t, 4)[-60:]} does not tell a run of one cycle", f.where())
                return None
    if not any(x is t for x in unknown):
        unknown.append(t)
    return None


def criterion(c, f, p, measured, limit):
    """what is compared with a limit is that of the last cycle"""
    kind = CRIT[p]
    if kind in ("low", "high"):
        stats = [x.args[1] for x in walk(measured) if x.op == "meth" and x.args[1] in ("min", "max", "mean", "median") and "voltage" in last_cols(x.args[0])]
        want = "min" if kind == "low" else "max"
        if stats:
            c.ob("complete", f"{f.qual}: {p} statistic", stats[0] == want, f"the {stats[0]} of the voltage is compared with {p}", f.where())
        for x in walk(measured):
            if x.op == "sub":
                for y, pos in signed(x.args[1]):
                    if y.args[0] != "==" or "cycle_index" not in columns_in(y):
                        continue
                    c.ob("complete", f"{f.qual}: {p} cycle", pos, f"{p} is compared with the voltages of all cycles but one", f.where())
                    ends = [z.args[1] for z in walk(y) if z.op == "meth" and z.args[1] in ("min", "max")] + \
                        [{0: "min", -1: "max"}[cval(z.args[1])] for z in walk(y) if z.op == "sub" and z.args[1].op == "const" and type(cval(z.args[1])) is int and cval(z.args[1]) in (0, -1)]
                    if len(set(ends)) == 1:
                        c.ob("complete", f"{f.qual}: {p} last", ends[0] == "max", f"{p} is compared with the voltages of the first cycle", f.where())
    else:
        if measured.op == "bin" and measured.args[0] == "/" and limit.op == "param":
            measured, limit = measured.args[1:]
        for side, name, t in (("measured", "discharge_capacity", measured), ("limit", "charge_capacity", limit)):
            cs = [cval(x.args[1]) if x.op == "sub" else x.args[1] for x in reading(t)]
            if cs:
                c.ob("complete", f"{f.qual}: ratio {side}", cs[0] == name, f"the {'ratio is applied to' if side == 'limit' else 'ratio is tested on'} {cs[0]}", f.where())
            pos = position(t)
            if pos is not None:
                c.ob("complete", f"{f.qual}: ratio {side} row", pos == -1, f"the {name} tested is that of row {pos} of the summary, not of the last cycle", f.where())


def last_cols(x):
    return {cval(x.args[1])} if x.op == "sub" and x.args[1].op == "const" else {x.args[1]} if x.op == "attr" else set()


def reading(t):
    """the outermost columns read in t"""
    out, stk = [], [t]
    while stk:
        x = stk.pop()
        if x.op in ("sub", "attr"):
            n = cval(x.args[1]) if x.op == "sub" and x.args[1].op == "const" else x.args[1] if x.op == "attr" else None
            if n in ("charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "voltage", "current"):
                out.append(x)
                continue
            stk.append(x.args[0])
        elif x.op == "bin":
            stk += list(x.args[1:])
        elif x.op == "meth":
            stk.append(x.args[0])
        elif x.op == "call":
            stk += list(x.args[1])
    return out


def position(t):
    """the row of the table the value is read from: the innermost pick by position"""
    picks, stk = [], [t]
    while stk:
        x = stk.pop()
        if x.op == "bin":
            stk += list(x.args[1:])
        elif x.op == "sub":
            i = x.args[1]
            if x.args[0].op == "attr" and x.args[0].args[1] in ("iloc", "values", "iat"):
                if i.op == "tuple" and i.args:
                    i = i.args[0]
                if i.op == "list" and len(i.args) == 1:
                    i = i.args[0]
                if i.op == "const" and type(cval(i)) is int:
                    picks.append(cval(i))
            stk.append(x.args[0])
        elif x.op in ("attr", "meth"):
            stk.append(x.args[0])
    return picks[-1] if picks else None


def rows_kept(c, f, x):
    """selections from the grouped raw data to the table"""
    n = 0
    while n < 60:
        n += 1
        x = down(x)
        cut = short(x)
        if cut is not None:
            if cut[1] in ("last", "other"):
                c.ob("every-cycle", f"{f.qual}: rows", False, "rows are cut from the summary by position", f.where())
            x = cut[0]
            continue
        if x.op == "meth" and x.args[1] in PICK and not dict(x.args[3]).get("columns") and not (x.args[1] in ("drop", "dropna") and cval(dict(x.args[3]).get("axis", NONE)) in (1, "columns")):
            c.ob("every-cycle", f"{f.qual}: rows", False, f"cycles are left out of the summary by {x.args[1]}()", f.where())
            x = x.args[0]
        elif x.op == "sub" and x.args[1].op != "const" or x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] in ("loc", "iloc"):
            key = x.args[1]
            ok, stk = [], [key]
            while stk:
                y = stk.pop()
                if y.op == "meth" and y.args[1] in ("isin", "intersection"):
                    ok.append(y)
                elif y.op in ("bin", "un"):
                    stk += list(y.args[1:])
                elif y.op == "not" or y.op == "attr":
                    stk.append(y.args[0])
            if ok:
                for y in ok:
                    for z in y.args[2]:
                        part = [w for w in walk(z) if w.op == "sub" and w.args[1].op == "slice" and any(isinstance(q, Node) and q.op == "const" and cval(q) not in (None, 0) for q in w.args[1].args[:2])]
                        c.ob("every-cycle", f"{f.qual}: cycles", not part, "only some of the cycles are asked for", f.where())
            else:
                cmps = [y for y, _ in signed(key)]
                if any(columns_in(y) - {"cycle_index"} or y.op == "cmp" and any(z.op == "const" for z in y.args[1:]) for y in cmps):
                    c.ob("every-cycle", f"{f.qual}: rows", False, f"cycles are left out of the summary where {show(key, 4)[:80]} does not hold", f.where())
            x = x.args[0].args[0] if x.args[0].op == "attr" and x.args[0].args[1] in ("loc", "iloc") else x.args[0]
        elif x.op == "meth" and x.args[1] in ("agg", "aggregate", "apply"):
            c.ob("every-cycle", f"{f.qual}: grouped", True)
            y = x.args[0]
            while y.op in ("meth", "sub", "attr"):
                if y.op == "meth" and y.args[1] == "groupby":
                    by = list(y.args[2][:1]) + [v for n_, v in y.args[3] if n_ == "by"]
                    if by and by[0].op == "const":
                        c.ob("every-cycle", f"{f.qual}: by cycle", cval(by[0]) == "cycle_index", f"the summary has a row per {cval(by[0])}", f.where())
                if y.op == "meth" and y.args[1] in PICK or y.op == "sub" and y.args[0].op == "attr" and y.args[0].args[1] == "iloc":
                    c.ob("every-cycle", f"{f.qual}: measurements", False, "measurements are left out before the cycles are summarised", f.where())
                y = y.args[0]
            return
        else:
            return


def interpolated(c, f, evs):
    for e in evs:
        if e.kind != "call" or e.target != M + "interpolate_df" or not e.bound:
            continue
        c.ob("interpolated", f"{f.qual}: reached", True)
        df = e.bound.get("dataframe")
        if df is None:
            continue
        # steps skipped for their size have fewer than two rows
        for g, p in e.guards:
            for y in [g] if g.op == "cmp" else [z for z in walk(g) if z.op == "cmp"] if g.op == "bool" else []:
                size = next((z for z in y.args[1:] if z.op == "sub" and z.args[0].op == "attr" and z.args[0].args[1] == "shape" and z.args[0].args[0] is df and cval(z.args[1]) == 0
                             or z.op == "call" and z.args[0] == "builtins.len" and len(z.args[1]) == 1 and (z.args[1][0] is df or z.args[1][0].op == "attr" and z.args[1][0].args[1] == "index" and z.args[1][0].args[0] is df)), None)
                n = next((cval(z) for z in y.args[1:] if z.op == "const" and type(cval(z)) is int), None)
                if size is None or n is None or g.op == "bool" or y.args[0] not in ("<", "<=", "=="):
                    continue
                sizes = [s for s in range(2, 60) if ({"<": s < n, "<=": s <= n, "==": s == n} if y.args[1] is size else {"<": n < s, "<=": n <= s, "==": s == n})[y.args[0]] != p]
                c.ob("interpolated", f"{f.qual}: size", not sizes, f"steps of {sizes[0] if sizes else ''} points are skipped", e.where())
        # the cycles gone through are all of them
        for x in e.ctx:
            if x[0] != "loop" or len(x) < 3 or not isinstance(x[2], Node):
                continue
            src = x[2]
            if not contains(src, lambda z: z.op == "meth" and z.args[1] in ("unique", "groupby")):
                continue
            part = [w for w in walk(src) if w.op == "sub" and w.args[1].op == "slice" and any(isinstance(q, Node) and q.op == "const" and cval(q) not in (None, 0) for q in w.args[1].args[:2])
                    or w.op == "meth" and w.args[1] in ("head", "tail", "sample")]
            c.ob("interpolated", f"{f.qual}: cycles", not part, f"only a part of the cycles is interpolated: {show(part[0], 4)[:80] if part else ''}", e.where())
