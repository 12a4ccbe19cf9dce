import os
import re
from .preds import *
from .cli import exit_guard

EXPLANATION = ("Every return of SimpleValidator.validate is split into rejecting and accepting cases with their conditions. For every rule kind "
               "the shipped schemas use there is a rejecting case whose test is that rule's comparison on that column (right statistic, direction, "
               "strictness, quantifier) and is subject to nothing but the presence of the rule; acceptance only after the whole loop over the schema; "
               "the reason names the column and the rule; BEEPDatapath.validate applies it to its raw data with its own schema.")

V = "beep.structure.validate.SimpleValidator"
EXPECT = {  # kind -> acceptable (aggregate, quantifiers, relation column-vs-limit)
    "max": [(None, ("exists",), ">"), ("max", None, ">")],
    "min": [(None, ("exists",), "<"), ("min", None, "<")],
    "max_at_least": [("max", None, "<"), (None, ("forall",), "<")],
    "min_is_below": [("min", None, ">"), (None, ("forall",), ">")],
}
WEAK = {"mean", "median", "quantile", "abs", "round", "head", "tail", "sample", "diff", "astype", "clip", "rolling", "first", "last", "fillna", "shift", "cumsum", "mode",
        "drop_duplicates", "unique", "iloc", "loc", "sum", "std", "nlargest", "nsmallest", "query", "where", "mask", "interpolate"}
DTYPES = {"float": {"floating"}, "numeric": {"number"}, "string": {"object_", "unicode_", "str_", "object", "character"}}
IS_DTYPE = {"is_float_dtype": "float", "is_numeric_dtype": "numeric", "is_string_dtype": "string", "is_object_dtype": "string", "is_integer_dtype": "integer"}


def load_yaml(path):
    import yaml
    with open(path) as f:
        return yaml.safe_load(f)


def cases(evs, root):
    """(guards, verdict, reason, event) of each return of the root function"""
    mine = [e for e in evs if e.kind == "return" and isinstance(e.value, Node) and e.fn.full == root]
    raw = [frozenset(e.guards) for e in evs if e.kind == "raise" and e.guards]
    for e in mine:
        v = e.value.args[0] if e.value.op == "tuple" and len(e.value.args) == 2 else None
        if v is FALSE or v is not None and any(x is v and not p for x, p in e.guards):
            raw.append(frozenset(e.guards))
    for e in mine:
        if e.value.op == "ite":    # several verdicts handed on by one return
            for gs, val in guarded_alts(e.value, e.guards):
                flat = frozenset(l for x, p in gs for l in split_guard(x, p))
                if val.op == "tuple" and len(val.args) == 2 and (val.args[0] is FALSE or (val.args[0], False) in flat):
                    raw.append(flat)
    for e in mine:
        for gs, val in guarded_alts(e.value, e.guards):
            gs = tuple(x for x in gs if not exit_guard(x, raw, gs))
            if val.op == "tuple" and len(val.args) == 2:
                own = [p for x, p in gs if x is val.args[0]]
                rest = tuple((x, p) for x, p in gs if x is not val.args[0]) if val.args[0].op == "ite" else tuple(gs)
                for gs2, v in guarded_alts(val.args[0], rest):
                    if own and truthiness(v) is not None and truthiness(v) != own[0]:
                        continue
                    for g3 in expand(gs2):
                        if consistent(g3):
                            yield simplify(g3), v, val.args[1], e
            else:
                for g3 in expand(gs):
                    yield simplify(g3), sub(val, const(0)), sub(val, const(1)), e


def rejecting(g, v):
    if v is FALSE:
        return True
    return any(x is v and not p for x, p in g)


def accepting(g, v):
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    if any(x is v and not p for x, p in g):
        return False
    return None


def rule_term(n, kinds):
    """(kind, rule dictionary) if n reads a rule of the column's schema"""
    if n.op == "get" and is_str(n.args[1]) and n.args[1].args[0] in kinds:
        return n.args[1].args[0]
    if n.op == "sub" and is_str(n.args[1]) and n.args[1].args[0] in kinds and contains(n.args[0], is_schema):
        return n.args[1].args[0]
    return None


def is_schema(x):
    return x.op == "attr" and x.args[1] == "schema" and x.args[0].op == "param"


def is_key(n):
    return n.op in ("keyof", "elem") and contains(n, is_schema)


def column(n):
    """'ok' if n is the column under test of the whole table, a complaint, or None"""
    n = unwrap(n)
    if n.op == "meth" and n.args[1] in WEAK:
        return f"it is tested on {n.args[1]}() of the column"
    if n.op == "sub" and n.args[0].op == "attr" and n.args[0].args[1] in ("iloc", "loc"):
        if n.args[0].args[1] == "loc" and n.args[1].op == "tuple" and len(n.args[1].args) == 2 and n.args[1].args[0].op == "slice" and is_key(n.args[1].args[1]):
            n = sub(n.args[0].args[0], n.args[1].args[1])
        else:
            return "it is tested on part of the column only"
    if n.op == "call" and n.args[0].split(".")[-1] in ("abs", "mean", "median", "round", "diff", "percentile", "nanmean", "nanmedian"):
        return f"it is tested on {n.args[0]} of the column"
    if n.op == "bin" and contains(n, is_key):
        return "the column is altered before it is tested"
    if n.op != "sub" or not is_key(n.args[1]):
        return None
    f = n.args[0]
    while True:
        if f.op == "meth" and f.args[1] in ("rename", "copy", "set_axis"):
            f = f.args[0]
        elif f.op == "meth" and f.args[1] in WEAK | {"dropna"}:
            return f"rows are left out by {f.args[1]}() before testing"
        elif f.op == "sub" and f.args[0].op == "attr" and f.args[0].args[1] in ("iloc", "loc"):
            return "rows are left out before testing"
        else:
            break
    return "ok" if f.op == "param" else None


def check(c):
    P = c.P
    c.rule("enforced", "each rule kind used in a shipped schema has a rejecting case with the rule's own comparison")
    c.rule("unconditional", "a rule is subject to nothing but being declared")
    c.rule("type", "each declared type has a rejecting test of that type; unknown types are refused")
    c.rule("accept", "a table is accepted only after every column of the schema was tested")
    c.rule("reason", "the reason names the column and the violated rule")
    c.rule("schemas", "shipped schemas use only rule kinds and types the validator knows; project tables name schemas that exist")
    c.rule("applied", "a run is validated as a whole, against its own schema, and the verdict is returned unchanged")
    d = os.path.join(P.repo, "beep", "validation_schemas")
    used, types, monos = {}, {}, {}
    files = sorted(os.listdir(d)) if os.path.isdir(d) else []
    if not files:
        raise AnalysisError("no validation schemas found")
    for f in files:
        if not f.endswith((".yaml", ".yml")):
            continue
        y = load_yaml(os.path.join(d, f)) or {}
        if f == "schema-projects.yaml":
            for proj, t in y.items():
                for cyc, name in (t or {}).items():
                    c.ob("schemas", f"{f}: {proj}.{cyc}", name in files, f"schema {name} of project {proj} does not exist")
                    c.ob("schemas", f"{f}: {proj}.{cyc} cycler", cyc in str(name), f"project {proj}: {cyc} data is validated with {name}")
            continue
        for col, v in y.items():
            s = v.get("schema") if isinstance(v, dict) else None
            c.ob("schemas", f"{f}: {col}", isinstance(s, dict), f"column {col} of {f} declares no rules under 'schema'")
            c.ob("schemas", f"{f}: {col} lower case", col == col.lower(), f"column {col} can never be present: names are lowered before validation")
            for k, r in (s or {}).items():
                used.setdefault(k, []).append(f"{f}:{col}")
                if k == "type":
                    types.setdefault(r, []).append(f"{f}:{col}")
                if k == "monotonic":
                    monos.setdefault(r, []).append(f"{f}:{col}")
    kinds = set(used)
    f = c.func(V + ".validate")
    it = c.interp()
    res, st, evs = c.run(it, f)
    data = mk("param", f.params[1])
    cs = list(cases(evs, f.full))
    if not cs:
        raise AnalysisError("SimpleValidator.validate: no (verdict, reason) return found")
    exits = [frozenset(e.guards) for e in evs if e.kind in ("raise",) and e.guards] + [frozenset(g) for g, v, r, e in cs if rejecting(g, v)]
    rules = {}
    for g, v, r, e in cs:
        for t, _ in g:
            for x in walk(t):
                k = rule_term(x, kinds)
                if k:
                    rules.setdefault(k, set()).add(x)
    opaque_reject = any(x.op in ("top", "unk") for g, v, r, e in cs for t, _ in g for x in walk(t))
    for k in sorted(kinds):
        terms = rules.get(k, set())
        mine = [(g, v, r, e) for g, v, r, e in cs if rejecting(g, v) and any(tests(t, R) for t, p in g for R in terms)]
        if k == "type":
            types_check(c, types, mine, terms, evs, exits)
            continue
        if not mine:
            c.ob("enforced", k, opaque_reject, f"rule '{k}' ({used[k][0]}, {len(used[k])} uses) never rejects a table")
            continue
        good, why = False, ""
        best = None
        for g, v, r, e in mine:
            ok, msg = judge(k, g, terms, monos)
            if ok:
                good, best = True, (g, v, r, e)
            elif ok is None:
                good, best = True, best or (g, v, r, e)
            elif not why:
                why = msg
        c.ob("enforced", k, good, f"rule '{k}': {why}", mine[0][3].where())
        if best:
            g, v, r, e = best
            extra = [x for x in g if not permitted(x, terms, data) and not exit_guard(x, exits)]
            truthy = [x for x, p in g if x in terms and p]
            if k == "monotonic":
                truthy = []
            c.ob("unconditional", k, not extra and not truthy, f"rule '{k}' is not enforced " + (f"when its limit is 0" if truthy else f"unless {show(extra[0][0]) if extra else ''} is {extra[0][1] if extra else ''}"), e.where())
            c.ob("reason", f"{k} column", mentions(r, is_key), f"the reason for '{k}' does not name the column", e.where())
            if k != "monotonic":
                others = {o for kk, ts in rules.items() if kk != k for o in ts}
                inr = {x for x in walk(r)}
                c.ob("reason", f"{k} rule", not (inr & others) or bool(inr & terms), f"the reason for '{k}' names another rule", e.where())
    # acceptance
    for g, v, r, e in cs:
        a = accepting(g, v)
        if a is None and v.op != "const":
            continue
        if a:
            c.ob("accept", e.where().split(" in ")[-1] + " accept", not any(x[0] == "loop" for x in e.ctx), "a table is accepted before every column was tested", e.where())
            bad = [x for x in g if not exit_guard(x, exits)]
            c.ob("accept", "unconditional accept" if not bad else "early accept", not bad, f"a table is accepted untested when {show(bad[0][0]) if bad else ''}", e.where())
    for e in evs:
        if e.kind in ("break", "continue") and any(x[0] == "loop" and isinstance(x[2], Node) and contains(x[2], is_schema) for x in e.ctx):
            own = [x for x in e.guards]
            rej = any(frozenset(own) <= x for x in exits)
            if e.kind == "break":
                c.ob("accept", "loop", False, "the loop over the schema ends early", e.where())
            else:
                absent = [show(t) for t, p in own if contains(t, data)]
                c.ob("accept", "loop", not absent, f"a declared column is skipped when {absent[0] if absent else ''}", e.where())
    loops = {x[2] for e in evs for x in e.ctx if x[0] == "loop" and isinstance(x[2], Node) and contains(x[2], is_schema)}
    for l in loops:
        b = l
        while b.op in ("items", "keysview", "valuesview", "enum") or b.op == "call" and b.args[0] in ("builtins.list", "builtins.sorted", "builtins.tuple", "tqdm.tqdm") and b.args[1]:
            b = b.args[0] if b.op != "call" else b.args[1][0]
        if b.op == "sub" or b.op == "call" and str(b.args[0]).endswith("islice"):
            c.ob("accept", "whole schema", False, f"only {show(l)} is tested")
        elif is_schema(b):
            c.ob("accept", "whole schema", True)
    applied(c)
    c.need("enforced", 4)
    c.need("schemas", 20)


def tests(t, R):
    """the guard involves R beyond a test for presence"""
    if t.op == "cmp" and t.args[0] == "is" and t.args[1] is R:
        return False
    if t is R:
        return False
    return contains(t, R)


def mentions(r, pred):
    return contains(r, pred)


def permitted(x, terms, data):
    t, p = x
    if t.op == "cmp" and t.args[0] == "is" and t.args[1] in terms and t.args[2] is NONE and not p:
        return True
    if t.op == "cmp" and t.args[0] == "in" and is_str(t.args[1]) and p and contains(t.args[2], is_schema):
        return True
    if any(contains(t, R) for R in terms):
        return True
    # a test on the very column that derives from the rule (monotonicity: the guard on the rule and the test on the data are apart)
    if contains(t, is_key) and contains(t, data) and not (t.op == "cmp" and t.args[0] == "in"):
        return any(R.op and R.args[1] is const("monotonic") for R in terms)
    return False


def judge(k, g, terms, monos):
    """(True | False | None unknown, why)"""
    if k == "monotonic":
        vals = {t.args[2].args[0] for t, p in g if p and t.op == "cmp" and t.args[0] == "==" and t.args[1] in terms and is_str(t.args[2])}
        missing = set(monos) - vals
        if vals and missing and len(monos) == 1:
            return False, f"value {sorted(missing)[0]!r} is not enforced"
        for t, p in g:
            if contains(t, is_key):
                for x in walk(t):
                    if x.op == "attr" and x.args[1] in ("is_monotonic_increasing", "is_monotonic"):
                        return (not p), "increasing data is rejected"
                    if x.op == "attr" and x.args[1] == "is_monotonic_decreasing":
                        return False, "it tests for decreasing data"
                for cm, pol, q in leaves(t, p):
                    op, a, b = relation(cm, pol)
                    if b.op == "const" and b.args[0] == 0 or a.op == "const" and a.args[0] == 0:
                        col, lim = (a, b) if b.op == "const" else (b, a)
                        o = op if b.op == "const" else FLIP.get(op)
                        if not any(y.op in ("meth", "call") and "diff" in str(y.args[1] if y.op == "meth" else y.args[0]) for y in walk(col)):
                            continue
                        bad = undiff(col)
                        if bad:
                            return False, bad
                        if o == "<" and q == "exists":
                            return True, ""
                        return False, f"a decrease is tested as 'difference {o} 0', {q}"
        return None, ""
    seen = None
    for t, p in g:
        if t.op == "cmp" and t.args[0] == "is":
            continue
        if not any(contains(t, R) for R in terms):
            continue
        for cm, pol, q in leaves(t, p):
            op, a, b = relation(cm, pol)
            if op is None:
                continue
            if any(contains(b, R) for R in terms):
                lim, col, o = b, a, op
            elif any(contains(a, R) for R in terms):
                lim, col, o = a, b, FLIP[op]
            else:
                continue
            lim = unwrap(lim)
            if lim not in terms:
                if lim.op == "bin":
                    seen = "the limit is altered before the comparison"
                    continue
                return None, ""
            base, agg = aggregate(col)
            st = column(base)
            if agg is not None and agg not in ("max", "min"):
                seen = f"it is tested on {agg}() of the column"
                continue
            if st is None:
                if contains(base, is_key):
                    return None, ""
                seen = f"it is not tested on the column ({show(base)})"
                continue
            if st != "ok":
                seen = st
                continue
            for a2, qs, rel in EXPECT.get(k, []):
                if agg == a2 and o == rel and (qs is None or q in qs):
                    return True, ""
            if k in EXPECT:
                seen = f"it rejects when {q or ''} {agg or 'value'} {o} limit"
            else:
                return None, ""
    if seen is None:
        return None, ""
    return False, seen


def types_check(c, types, mine, terms, evs, exits):
    for T, where in sorted(types.items()):
        sel = []
        for g, v, r, e in mine:
            for t, p in g:
                if p and t.op == "cmp" and t.args[0] == "==" and t.args[1] in terms and cval(t.args[2]) == T:
                    sel.append((g, v, r, e))
                elif p and t.op == "cmp" and t.args[0] == "in" and t.args[1] in terms and t.args[2].op in ("list", "tuple", "set") and const(T) in t.args[2].args and len(t.args[2].args) == 1:
                    sel.append((g, v, r, e))
        if not sel:
            # dispatch through a table is opaque here
            opaque = any(x.op in ("top", "unk") or x.op == "sub" and x.args[1] in terms for g, v, r, e in mine for t, _ in g for x in walk(t))
            c.ob("type", T, opaque, f"type '{T}' ({where[0]}) is declared but never rejects a table")
            continue
        ok, why = None, ""
        for g, v, r, e in sel:
            o, w = type_test(T, g, terms)
            if o:
                ok = True
            elif o is False and ok is None:
                ok, why = False, w
            c.ob("reason", f"type {T}", mentions(r, is_key), "the reason for a type mismatch does not name the column", e.where())
            extra = [x for x in g if not (contains_any(x[0], terms) or contains(x[0], is_key)) and not exit_guard(x, exits)]
            c.ob("unconditional", f"type {T}", not extra, f"type '{T}' is not enforced unless {show(extra[0][0]) if extra else ''}", e.where())
            truthy = [x for x, p in g if x in terms and p]
        c.ob("type", T, ok is not False, f"type '{T}': {why}", sel[0][3].where())
    # unknown types
    raises = [e for e in evs if e.kind == "raise" and any(contains_any(t, terms) for t, _ in e.guards)]
    neg_reject = [g for g, v, r, e in mine if all(not p for t, p in g if t.op == "cmp" and t.args[0] in ("==", "in") and t.args[1] in terms)]
    c.ob("type", "unknown types", bool(raises) or bool(neg_reject), "a type the validator does not know is accepted")


def undiff(col):
    """why the differences in col are not those of neighbouring rows, or None"""
    for y in walk(col):
        if y.op == "meth" and y.args[1] == "diff" or y.op == "call" and y.args[0].split(".")[-1] == "diff":
            m = y.op == "meth"
            args = list(y.args[2]) if m else list(y.args[1])[1:]
            kw = dict(y.args[3] if m else y.args[2])
            n = args[0] if args else kw.get("periods", kw.get("n"))
            if n is not None and n.op == "const" and cval(n) != 1:
                return f"rows {cval(n)} apart are compared" if m else "higher differences are compared"
            src = y.args[0] if m else y.args[1][0]
            for z in walk(src):
                if z.op == "meth" and z.args[1] in ("sort_values", "sort_index", "drop_duplicates", "unique", "cummax", "cummin", "rolling", "sample", "nlargest", "nsmallest") or \
                        z.op == "call" and z.args[0].split(".")[-1] in ("sort", "sorted", "unique", "maximum.accumulate"):
                    return f"{z.args[1] if z.op == 'meth' else z.args[0]}() comes before the differences, which hides decreases"
                if z.op == "sub" and z.args[1].op == "slice" and any(x is not None and isinstance(x, Node) and x.op == "const" and cval(x) not in (None, 0, 1) or False for x in z.args[1].args):
                    return "part of the rows is left out before the differences"
                if z.op == "sub" and z.args[1].op == "slice" and isinstance(z.args[1].args[0], Node) and z.args[1].args[0].op == "const" and cval(z.args[1].args[0]) not in (None, 0):
                    return "the first rows are left out before the differences"
    return None


def contains_any(t, terms):
    return any(contains(t, R) for R in terms)


def type_test(T, g, terms):
    tests_ = [(t, p) for t, p in g if contains(t, is_key) and not (t.op == "cmp" and t.args[1] in terms)]
    if not tests_:
        return False, "no test of the data"
    for t, p in tests_:
        st = None
        if T == "integer":
            for cm, pol, q in leaves(t, p):
                op, a, b = relation(cm, pol)
                if any("round" in str(y.args[1] if y.op == "meth" else y.args[0]) for x in (a, b) for y in walk(x) if y.op in ("meth", "call")) or any(y.op == "bin" and y.args[0] == "%" for x in (a, b) for y in walk(x)):
                    tol = [cval(x) for x in (a, b) if x.op == "const" and type(cval(x)) in (int, float)]
                    if op in (">", "<", ">=", "<=") and q == "exists" and any(x > 0.01 for x in tol):
                        return False, f"values up to {max(tol)} away from an integer pass"
                    if op == "!=" and q == "exists" or op in (">", "<") and q == "exists":
                        return True, ""
                    return False, f"rejects when rounding {op} value, {q}"
        else:
            names = set()
            pols = set()
            for x in [t] + [y for y in walk(t) if y.op == "bool" or y.op == "not"]:
                pass
            for x, pp in flat(t, p):
                if x.op == "call" and x.args[0].split(".")[-1] == "issubdtype":
                    names.add(str(x.args[1][1].args[-1]).split(".")[-1])
                    pols.add(pp)
                elif x.op == "call" and x.args[0].split(".")[-1] in IS_DTYPE:
                    return (IS_DTYPE[x.args[0].split(".")[-1]] == T and not pp), "another type is tested"
            if names:
                if pols == {True}:
                    return False, "data of the declared type is rejected instead"
                return names <= DTYPES.get(T, names), f"data is tested for {sorted(names)}"
    return None, ""


def flat(t, p):
    if t.op == "not":
        yield from flat(t.args[0], not p)
    elif t.op == "bool":
        for x in t.args[1]:
            yield from flat(x, p)
    else:
        yield t, p


def applied(c):
    P = c.P
    base = c.cls("beep.structure.base.BEEPDatapath")
    me = mk("param", "self")
    sv = c.cls(V)
    for k in [base] + P.subclasses(base):
        m = k.methods.get("validate")
        if m is None:
            continue
        it = c.interp(inline_pred=lambda f: f.cls is not sv)
        res, st, evs = c.run(it, m)
        vs = [e for e in evs if e.kind == "call" and str(e.target).endswith("SimpleValidator.validate")]
        c.ob("applied", f"{k.name}: validates", bool(vs), f"{k.name}.validate does not apply the validator")
        for e in vs:
            a = (e.bound or {}).get("dataframe") or (e.args[-1] if e.args else None)
            raw = attr(me, "raw_data")
            c.ob("applied", f"{k.name}: data", a is None or strip_copy(a) is raw, f"{k.name}.validate tests {show(a) if a is not None else ''}, not the raw data", e.where())
        rs = {x for e in vs if e.result is not None for x in (e.result, sub(e.result, const(0)))}
        for e in evs:
            if e.kind == "return" and e.fn.full == m.full and isinstance(e.value, Node):
                for gs, val in guarded_alts(e.value, e.guards):
                    v0 = val.args[0] if val.op == "tuple" and val.args else val
                    for gs2, v in guarded_alts(v0, gs):
                        if v in rs or v in (FALSE,):
                            continue
                        if v.op == "const" and v.args[0]:
                            okp = any(p and t in rs and t.op == "sub" for t, p in gs2)
                            c.ob("applied", f"{k.name}: verdict", okp, f"{k.name}.validate reports {show(v)} whatever the validator found", e.where())
                c.ob("applied", f"{k.name}: returns", True)
        # schema
        for e in evs:
            if e.kind == "call" and str(e.target).endswith(("SimpleValidator", "SimpleValidator.__init__")):
                s = (e.kwargs or {}).get("schema_filename") or (e.bound or {}).get("schema_filename")
                own = attr(me, "schema")
                if s is None or not contains(s, own):
                    g = set(e.guards)
                    okg = (own, False) in g or (mk("cmp", "is", own, NONE), True) in g
                    c.ob("applied", f"{k.name}: schema", okg, "the run's own schema is not used", e.where())
                else:
                    c.ob("applied", f"{k.name}: schema", True)
    # the schema a loader picks for its own cycler
    for modname, cyc in (("arbin", "arbin"), ("maccor", "maccor")):
        for k in P.subclasses(base):
            if k.module.name != f"beep.structure.{modname}" or "from_file" not in k.methods:
                continue
            it = c.interp()
            res, st, evs = c.run(it, k.methods["from_file"])
            for e in evs:
                if e.kind == "call" and e.bound and "schema" in e.bound and str(e.target).endswith("__init__"):
                    s = e.bound["schema"]
                    gets = {cval(x.args[1]) for x in walk(s) if x.op in ("get", "sub") and cval(x.args[1]) in ("arbin", "maccor")}
                    if gets:
                        c.ob("applied", f"{k.name}: project schema", gets == {cyc}, f"{k.name} takes the schema of {sorted(gets)}", e.where())
                    for x in walk(s):
                        if is_str(x) and x.args[0].endswith(".yaml") and x.args[0].startswith("schema-") and x.args[0] != "schema-projects.yaml":
                            c.ob("applied", f"{k.name}: default schema", cyc in x.args[0], f"{k.name} is validated with {x.args[0]}", e.where())


def strip_copy(n):
    while n.op == "meth" and n.args[1] == "copy":
        n = n.args[0]
    return n
