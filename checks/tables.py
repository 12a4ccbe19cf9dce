"""row and column provenance of table terms"""
from .common import *

# operations that keep the rows (and their order), possibly changing columns or values
KEEP_ROWS = {"replace", "fillna", "copy", "astype", "rename", "apply", "round", "assign", "to_frame", "infer_objects", "interpolate", "ffill", "bfill", "clip", "add", "sub", "mul",
             "div", "rename_axis", "filter", "to_numpy", "shift", "abs", "applymap", "transform", "mask", "where"}
# operations that keep the columns (and their order)
KEEP_COLS = {"replace", "fillna", "copy", "astype", "apply", "round", "dropna", "sort_index", "sort_values", "head", "tail", "sample", "infer_objects", "interpolate", "ffill",
             "bfill", "clip", "query", "drop_duplicates", "truncate", "reset_index", "applymap", "mask", "where", "abs"}


def given(n):
    """x if x is not None else d  ->  x for a value that is known to be given"""
    while n.op == "ite" and n.args[0].op == "cmp" and n.args[0].args[0] == "is" and n.args[0].args[2] is NONE:
        x = n.args[0].args[1]
        if n.args[2] is x:
            n = x
        elif n.args[1] is x:
            n = n.args[2]
        else:
            break
    return n


def rows(n, d=0):
    """canonical term for the row set of a table term"""
    if d > 60:
        return n
    o, a = n.op, n.args
    if o == "attr" and a[1] in ("values",):
        return rows(a[0], d + 1)
    if o == "call" and a[0] in ("numpy.asarray", "numpy.array") and a[1]:
        return rows(a[1][0], d + 1)
    if o == "meth" and a[1] in ("transform", "fit_transform", "inverse_transform") and a[2] and a[2][0].op not in ("lam", "const", "func", "ext"):
        return rows(a[2][0], d + 1)      # an estimator's transform keeps the samples
    if o == "meth":
        if a[1] in KEEP_ROWS and not (a[1] == "filter" and dict(a[3]).get("axis", const(1)) in (const(0), const("index"))):
            return rows(a[0], d + 1)
        if a[1] in ("dropna", "drop") and axis_of(n) == 1:
            return rows(a[0], d + 1)
        if a[1] == "reindex" and (a[2] or "index" in dict(a[3])):
            i = a[2][0] if a[2] else dict(a[3])["index"]
            return rows_of_index(i, d + 1)
        if a[1] == "reindex" and "columns" in dict(a[3]):
            return rows(a[0], d + 1)
    if o == "call" and a[0] in ("copy.deepcopy", "copy.copy") and a[1]:
        return rows(a[1][0], d + 1)
    if o == "call" and a[0] == "pandas.DataFrame":
        kw = dict(a[2])
        if "index" in kw:
            return rows_of_index(kw["index"], d + 1)
        x = kw.get("data") or (a[1][0] if a[1] else None)
        if x is not None and x.op == "meth":
            return rows(x, d + 1)
    if o == "sub":
        b, k = a
        if b.op == "attr" and b.args[1] == "loc":
            if k.op == "tuple" and len(k.args) == 2:
                r = k.args[0]
                if r.op == "slice" and all(x is NONE for x in r.args):
                    return rows(b.args[0], d + 1)
                if is_index(r):
                    return rows_of_index(r, d + 1)
            elif is_index(k):
                return rows_of_index(k, d + 1)
            return n
        if b.op == "attr" and b.args[1] in ("iloc", "at", "iat"):
            return mk("rowpick", rows(b.args[0], d + 1), k)
        if k.op in ("list", "comp", "param", "attr") or is_str(k) or k.op == "sub":
            return rows(b, d + 1)     # column selection
        if k.op in ("cmp", "not", "bin", "un", "bool") or k.op == "meth" and k.args[1] in ("isin", "notna", "isna", "between", "any", "all"):
            return mk("rowpick", rows(b, d + 1), k)
    if o == "ite":
        x, y = rows(a[1], d + 1), rows(a[2], d + 1)
        return x if x is y else ite(a[0], x, y)
    if o == "phi":
        return phi([rows(x, d + 1) for x in a])
    if o in ("upd", "rowsel"):
        return rows(a[0], d + 1) if o == "upd" else n
    return n


def is_index(i):
    return all(x.op == "attr" and x.args[1] == "index" or x.op == "sub" and is_index(x.args[0]) or x.op == "meth" and x.args[1] in ("copy", "tolist", "to_list") and is_index(x.args[0]) or
               x.op == "call" and x.args[0] == "builtins.list" and x.args[1] and is_index(x.args[1][0]) for x in alts(i))


def rows_of_index(i, d=0):
    if i.op == "ite":
        x, y = rows_of_index(i.args[1], d + 1), rows_of_index(i.args[2], d + 1)
        return ite(i.args[0], x, y)
    if i.op == "phi":
        return phi([rows_of_index(x, d + 1) for x in i.args])
    if i.op == "attr" and i.args[1] == "index":
        return rows(i.args[0], d + 1)
    if i.op == "sub":
        return mk("rowpick", rows_of_index(i.args[0], d + 1), i.args[1])
    if i.op == "meth" and i.args[1] in ("copy", "tolist", "to_list", "to_numpy") or i.op == "call" and i.args[0] in ("builtins.list",) and i.args[1]:
        return rows_of_index(i.args[0] if i.op == "meth" else i.args[1][0], d + 1)
    return i


def axis_of(n):
    """axis of a dropna/drop call: 0, 1 or None (unknown)"""
    kw = dict(n.args[3])
    if "columns" in kw:
        return 1
    if "index" in kw or "labels" in kw and "axis" not in kw:
        return 0
    v = kw.get("axis")
    if v is None:
        v = n.args[2][0] if n.args[1] == "dropna" and n.args[2] else (n.args[2][1] if n.args[1] == "drop" and len(n.args[2]) > 1 else const(0))
    return {0: 0, 1: 1, "index": 0, "rows": 0, "columns": 1}.get(cval(v), None)


def columns(n, d=0):
    """('sel', key, base) the innermost column selection | ('root', term) | ('?', term): which columns, in which order, a table term has"""
    if d > 60:
        return [("?", n)]
    o, a = n.op, n.args
    if o == "meth":
        kw = dict(a[3])
        if a[1] in ("dropna",) and axis_of(n) == 0 or a[1] in KEEP_COLS and a[1] != "dropna":
            return columns(a[0], d + 1)
        if a[1] == "reindex" and "columns" in kw:
            return [("reindex", kw["columns"], a[0])]
        if a[1] == "filter":
            return [("filter", kw.get("items") or (a[2][0] if a[2] else NONE), a[0])]
        if a[1] in ("drop", "dropna"):
            return [("drop", n, b) for b in columns(a[0], d + 1)]
        if a[1] == "to_numpy":
            return columns(a[0], d + 1)
        return [("?", n)]
    if o == "attr" and a[1] == "values":
        return columns(a[0], d + 1)
    if o == "call" and a[0] in ("copy.deepcopy", "copy.copy", "numpy.asarray", "numpy.array") and a[1]:
        return columns(a[1][0], d + 1)
    if o == "sub":
        b, k = a
        if b.op == "attr" and b.args[1] in ("loc",):
            if k.op == "tuple" and len(k.args) == 2 and not k.args[1].op == "slice":
                return [("sel", k.args[1], b.args[0])]
            return columns(b.args[0], d + 1)
        if b.op == "attr" and b.args[1] == "iloc" and k.op != "tuple":
            return columns(b.args[0], d + 1)
        if k.op in ("cmp", "not", "bin", "un", "bool", "slice") or k.op == "meth" and k.args[1] in ("isin", "notna", "isna", "between", "any", "all"):
            return columns(b, d + 1)
        if b.op in ("meth", "sub", "param", "ite", "attr", "call", "phi") and (k.op in ("list", "comp", "attr", "param", "call", "bin", "ite", "global", "meth") or is_str(k)):
            return [("sel", k, b)]
        return [("?", n)]
    if o == "ite":
        return columns(a[1], d + 1) + columns(a[2], d + 1)
    if o == "phi":
        return [x for y in a for x in columns(y, d + 1)]
    if o in ("param", "attr", "global"):
        return [("root", n)]
    return [("?", n)]


def vwalk(n):
    """sub-terms the values of a table term are computed from (row selectors and branch conditions left out)"""
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        if x.op == "sub":
            st.append(x.args[0])
        elif x.op == "ite":
            st += [x.args[1], x.args[2]]
        elif x.op == "meth" and x.args[1] in ("reindex", "isin", "query"):
            st.append(x.args[0])
        else:
            st.extend(x.kids())
