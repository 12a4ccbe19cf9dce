"""P24: structured tables have the declared columns and types; per-cycle quantities belong to their row."""
from .probe import *
from .configs import yaml_globals, global_name
from .preds import consistent

EXPLANATION = ("Interprocedural value-flow analysis of the table-producing methods, structure() and the loader, for every run class: every table delivered ends in a cast "
               "whose type table is the one declared (structured_dtypes.yaml) for that very table, nothing is added after it, and the loader casts each table by the same "
               "declaration; produced and declared columns are compared; each column stored into a summary is shown to be aligned with the rows by index or by one entry per row.")

DP = "beep.structure.base.BEEPDatapath"
INTERP = "beep.structure.base.interpolate_df"
STATE = "beep.structure.base.step_is_chg_state"
TABLES = {      # attribute: (declared table, method that makes it)
    "structured_data": ("cycles_interpolated", "interpolate_cycles"),
    "structured_summary": ("summary", "summarize_cycles"),
    "diagnostic_summary": ("diagnostic_summary", "summarize_diagnostic"),
    "diagnostic_data": ("diagnostic_interpolated", "interpolate_diagnostic_cycles"),
}
DTYPES = {"object", "category", "bool", "float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "datetime64[ns]", "str", "string"}
SELECT_M = {"copy", "head", "tail", "sort_values", "sort_index", "reset_index", "dropna", "query", "drop_duplicates", "set_index", "rename_axis", "pipe"}
SELECT_A = {"iloc", "loc"}
CONFIG = "STRUCTURE_DTYPES"


def origin(t):
    """the table a selection of rows is taken from"""
    while True:
        if t.op == "sub":
            t = t.args[0]
        elif t.op == "attr" and t.args[1] in SELECT_A:
            t = t.args[0]
        elif t.op == "meth" and t.args[1] in SELECT_M:
            t = t.args[0]
        elif t.op == "upd":
            t = t.args[0]
        else:
            return t


def declared_keys(t, evs):
    """the declared tables a term takes types from"""
    out = set()
    seen = set()

    def rec(x):
        if x in seen:
            return
        seen.add(x)
        for y in walk(x):
            if y.op == "sub" and global_name(y.args[0]) == CONFIG:
                out.add(cval(y.args[1]) if y.args[1].op == "const" else "?")
            elif y.op in ("get",) and global_name(y.args[0]) == CONFIG:
                out.add(cval(y.args[1]))
            elif y.op == "new" and ("open", y) not in seen:
                seen.add(("open", y))
                for e in evs:
                    if e.kind == "store" and e.base is y:
                        rec(e.value)
                        rec(e.key)
                    elif e.kind == "call" and e.recv is y and e.target.split(".")[-1] in ("update", "setdefault"):
                        for a in e.args:
                            rec(a)
    rec(t)
    return out


def presence(g):
    """the guard only asks whether something is there"""
    if g.op == "not":
        return presence(g.args[0])
    if g.op == "bool":
        return all(presence(x) for x in g.args[1])
    if g.op == "cmp" and g.args[0] in ("in", "is", "not in", "is not"):
        return True
    if g.op in ("get", "sub", "param", "attr"):
        return True
    return False


def casts(c, rule, label, t, evs, key, where):
    """the value is a table cast by the declaration of `key`"""
    for gs, leaf in guarded_alts(t):
        if leaf in (NONE, UNDEF, ABSENT):
            continue
        o = origin(leaf)
        if o.op == "meth" and o.args[1] == "astype":
            d = o.args[2][0] if o.args[2] else dict(o.args[3]).get("dtype")
            ks = declared_keys(d, evs)
            if not c.ob(rule, label, ks == {key}, f"delivered with the types of {sorted(map(str, ks)) or 'no declared table'}, not of {key}", where):
                continue
            # which columns are cast
            for e in evs:
                if e.kind == "store" and e.base is d:
                    c.ob(rule, label + ": declared type", contains(e.value, lambda x: global_name(x) == CONFIG), f"a column is given the type {show(e.value)[:60]}, which is not the declared one", e.where())
                    own = [g for g, p in e.guards]
                    bad = [g for g in own if not presence(g) and contains(g, lambda x: global_name(x) == CONFIG)]
                    c.ob(rule, label + ": all columns", not bad, f"a declared column is cast only when {show(bad[0]) if bad else ''}", e.where())
            for x in walk(d):
                if x.op == "comp" and x.args[0] == "dict":
                    pair = x.args[1][0].args if len(x.args[1]) == 1 and x.args[1][0].op == "tuple" else x.args[1]
                    pair = pair[0] if pair and isinstance(pair[0], tuple) else pair
                    c.ob(rule, label + ": declared type", len(pair) < 2 or contains(pair[1], lambda y: global_name(y) == CONFIG), "a column is given a type which is not the declared one", where)
                    bad = [g for g in x.args[2] if not presence(g)]
                    c.ob(rule, label + ": all columns", not bad, f"a declared column is cast only when {show(bad[0]) if bad else ''}", where)
            late = [e for e in evs if e.kind == "store" and e.how != "attr" and origin(e.base) is o]
            c.ob(rule, label + ": final", not late, f"column {show(late[0].key) if late else ''} is set after the types were applied", late[0].where() if late else where)
        else:
            # column by column: table[c] = table[c].astype(declared[c])
            st = [e for e in evs if e.kind == "store" and origin(e.base) is o and declared_keys(e.value, evs)]
            ks = set()
            for e in st:
                ks |= declared_keys(e.value, evs)
            c.ob(rule, label, ks == {key}, f"delivered with the types of {sorted(map(str, ks)) or 'no declared table'}, not of {key}", where)


def check(c):
    c.rule("typed", "every structured table is delivered with the types declared for that table")
    c.rule("restored", "every structured table is reloaded with the types declared for that table")
    c.rule("columns", "the columns produced are the columns declared")
    c.rule("declared", "each declaration names a table BEEP makes and a valid type")
    c.rule("aligned", "each per-cycle quantity of a summary is put in the row of its own cycle")
    conf = yaml_globals(c)
    if CONFIG not in conf:
        raise AnalysisError(f"{CONFIG} is not loaded from a yaml file")
    decl = conf[CONFIG][1]
    for t, cols in decl.items():
        c.ob("declared", t, t in {k for k, _ in TABLES.values()}, f"types are declared for a table {t} that is not made", conf[CONFIG][0])
        for col, ty in (cols or {}).items():
            c.ob("declared", f"{t}.{col}", ty in DTYPES, f"{ty!r} is not a type", conf[CONFIG][0])
    for key, _ in TABLES.values():
        c.ob("declared", key + " present", bool(decl.get(key)), "no types are declared for this table", conf[CONFIG][0])
    base = c.cls(DP)
    me = mk("param", "self")
    done = set()
    for k in [base] + sorted(c.P.subclasses(base), key=lambda s: s.full):
        f = c.P.find_method(k, "structure")
        it = c.interp(types={me: k}, no_inline={INTERP, STATE})
        res, st, evs = c.run(it, f, self_node=me, cls=k)
        for a, (key, m) in TABLES.items():
            v = st.heap.get(attr(me, a))
            if v is None:
                c.ob("typed", f"{k.name}.{a}", False, "structuring does not set it", f.where())
                continue
            casts(c, "typed", f"{k.name}.{a}", v, evs, key, f.where())
        for a, (key, m) in TABLES.items():
            g = c.P.find_method(k, m)
            if g is None:
                c.notes.append(f"{k.name}.{m} not found")
                continue
            it = c.interp(types={me: k}, no_inline={INTERP, STATE})
            res, st, evs = c.run(it, g, self_node=me, cls=k)
            casts(c, "typed", f"{k.name}.{m}", res, evs, key, g.where())
            if g.full in done:
                continue
            done.add(g.full)
            columns(c, k, g, key, decl.get(key) or {}, evs, st)
            if "summar" in m:
                aligned(c, g, evs)
        f = c.P.find_method(k, "from_dict")
        if f and f.full not in done:
            done.add(f.full)
            restored(c, k, f)
    c.need("typed", 60)
    c.need("restored", 4)
    c.need("columns", 40)
    c.need("aligned", 15)


# ---------------------------------------------------------------- columns
def strs(t):
    if t is None:
        return None
    if t.op in ("list", "tuple"):
        xs = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args
        if all(x.op == "const" for x in xs):
            return [x.args[0] for x in xs]
    if t.op == "const" and isinstance(t.args[0], (list, tuple)):
        return list(t.args[0])
    return None


def columns(c, k, g, key, decl, evs, st):
    prod = set()
    known = False
    for e in evs:
        if e.kind == "call" and e.target == INTERP and e.bound:
            for x in [y for _, y in guarded_alts(e.bound.get("columns", NONE))]:
                s = strs(x) or (new_list(x, evs))
                if s:
                    prod |= set(s)
                    known = True
        elif e.kind == "store" and e.how == "attr" and cval(e.key) == "columns":
            known = True
            it = c.interp(types={mk("param", "self"): k})
            _, s0, _ = c.run(it, c.P.find_method(k, "__init__"), self_node=mk("param", "self"), cls=k)
            v = e.value
            if v.op == "attr" and v.args[0] is mk("param", "self"):
                v = s0.heap.get(v, v)
            for _, x in guarded_alts(v):
                s = strs(x) or new_list(x, evs)
                if s is None:
                    c.notes.append(f"{g.qual}: column names not known")
                    return
                prod |= set(s)
        elif e.kind == "store" and e.how != "attr" and e.key.op == "const" and isinstance(e.key.args[0], str):
            o = origin(e.base)
            # columns of helper tables made from a copy of the raw data do not count
            if not (o.op == "meth" and o.args[1] == "copy") and not raw_copy(o):
                prod.add(e.key.args[0])
    if not known:
        c.notes.append(f"{g.qual}: columns not known")
        return
    for col in sorted(prod):
        if "capacity" in col or col in decl or True:
            c.ob("columns", f"{key}: {col}", col in decl or col in HELPER, f"{col} is produced without a declared type", g.where())
    for col in sorted(decl):
        c.ob("columns", f"{key}: {col} produced", col in prod, f"the declared column {col} is never produced", g.where())


HELPER = {"interpolated"}


def raw_copy(o):
    return o.op == "attr" and o.args[1] == "raw_data" or o.op == "meth" and o.args[1] in ("copy",) and raw_copy(o.args[0])


def new_list(x, evs):
    return None


# ---------------------------------------------------------------- restored
def restored(c, k, f):
    it = c.interp()
    res, st, evs = c.run(it, f, cls=k)
    casts_at = []
    for e in evs:
        if e.kind == "store" and contains(e.value, lambda x: global_name(x) == CONFIG):
            v = e.value
            if not (v.op == "call" and dict(v.args[2]).get("dtype") is not None or v.op == "meth" and v.args[1] == "astype"):
                continue
            casts_at.append(e)
    for a, (key, m) in TABLES.items():
        v = st.heap.get(attr(res, a))
        if v is None:
            c.ob("restored", f"{k.name}.{a}", False, "the loader does not restore it", f.where())
            continue
        for gs, leaf in guarded_alts(v):
            if leaf is NONE or leaf.op == "get" and any(g.op == "cmp" and g.args[0] == "is" and g.args[1] is leaf for g, p in gs) or leaf.op == "sub" and any(g.op == "cmp" and g.args[1] is leaf for g, p in gs):
                continue
            o = origin(leaf)
            keys = {cval(x.args[1]) for x in walk(o) if x.op in ("sub", "get") and x.args[0].op == "param" and x.args[1].op == "const"}
            c.ob("restored", f"{k.name}.{a}: source", keys == {key}, f"restored from {sorted(map(str, keys))}, declared types are those of {key}", f.where())
            if o.op == "meth" and o.args[1] == "astype":
                ks = declared_keys(o.args[2][0] if o.args[2] else o, evs)
                c.ob("restored", f"{k.name}.{a}", ks == {key}, f"restored with the types of {sorted(map(str, ks))}", f.where())
                continue
            sts = [e for e in evs if e.kind == "store" and e.how == "attr" and e.base is res and cval(e.key) == a and contains(e.value, lambda x: x is leaf)]
            ok = False
            why = "restored without the declared types"
            for e in casts_at:
                at, ty = row_of(e)
                if at is None or not (at == "*" or at == key):
                    continue
                if ty != at:
                    why = f"restored with the types of {ty}"
                    continue
                bad = [g for g, p in e.guards if not presence(g)]
                if bad:
                    why = f"restored with the declared types only when {show(bad[0])}"
                    continue
                if sts and e.idx > sts[0].idx:
                    why = "the declared types are applied after the table was built"
                    continue
                ok = True
            c.ob("restored", f"{k.name}.{a}", ok, why, f.where())


def row_of(e):
    """(table whose column is replaced, table whose types are used); '*' = every declared table by the loop over the declarations"""
    b = e.base
    loopkey = lambda x: "*" if x.op in ("keyof", "elem") and contains(x, lambda y: global_name(y) == CONFIG) else cval(x) if x.op == "const" else None
    at = None
    if b.op in ("sub", "get"):
        at = loopkey(b.args[1])
    ty = None
    for x in walk(e.value):
        if x.op == "sub" and x.args[0].op == "sub" and global_name(x.args[0].args[0]) == CONFIG:
            ty = loopkey(x.args[0].args[1])
            # type of the very column
            if x.args[1] is not e.key:
                return at, "another column"
        elif x.op == "sub" and x.args[0].op == "elem" and contains(x.args[0], lambda y: global_name(y) == CONFIG):
            ty = "*"
    # the column itself
    return at, ty


# ---------------------------------------------------------------- alignment
POS = {"values", "array"}
POS_M = {"to_numpy", "tolist", "to_list", "ravel", "flatten"}
POS_C = {"builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.sorted", "numpy.concatenate"}


def index_of(t, table, pos=False):
    """what the rows of a value are labelled with: own (the table's rows), cycle, range, rows, positional, scalar, None (unknown)"""
    o = origin_own(t, table)
    if o:
        return "own"
    if t.op == "const" or t.op == "ext":
        return "scalar"
    if t.op == "meth":
        n, r = t.args[1], t.args[0]
        if n == "set_index":
            k = t.args[2][0] if t.args[2] else dict(t.args[3]).get("keys")
            return "cycle" if k is not None and (cval(k) == "cycle_index" or strs(k) == ["cycle_index"]) else "other"
        if n == "reset_index" or n == "merge":
            return "range"
        if n in POS_M:
            i = index_of(r, table)
            return "positional" if i != "own" else "own"
        if n == "transform":
            return "rows"
        if n == "reindex":
            return "own" if contains(t, lambda x: origin_own(x, table)) else None
        if n == "map" and index_of(r, table) == "own":
            return "own"
        g = groupby_of(t)
        if g is not None:
            return g
        if n in ("unique",):
            return "positional"
        return combine([index_of(r, table)])
    if t.op == "attr":
        if t.args[1] in POS:
            i = index_of(t.args[0], table)
            return "positional" if i != "own" else "own"
        if t.args[1] == "raw_data":
            return "rows"
        return index_of(t.args[0], table)
    if t.op == "sub":
        g = groupby_of(t)
        if g is not None:
            return g
        return index_of(t.args[0], table)
    if t.op == "call":
        if t.args[0] in POS_C:
            i = index_of(t.args[1][0], table) if t.args[1] else None
            return "own" if i == "own" else "positional" if i else None
        if t.args[0].startswith(("numpy.", "pandas.to_", "builtins.round", "builtins.abs")):
            return combine([index_of(a, table) for a in t.args[1]])
        return None
    if t.op in ("bin", "cmp", "un"):
        return combine([index_of(a, table) for a in t.args if hasattr(a, "op")])
    if t.op in ("ite", "phi"):
        return combine([index_of(x, table) for _, x in guarded_alts(t)])
    return None


def combine(xs):
    xs = [x for x in xs if x not in ("scalar",)]
    if not xs:
        return "scalar"
    for bad in ("positional", "range", "rows", "other"):
        if bad in xs:
            return bad
    if None in xs:
        return None
    return "cycle" if "cycle" in xs else "own"


def groupby_of(t):
    """the labels a grouped aggregation carries"""
    x = t
    while True:
        if x.op == "meth" and x.args[1] == "groupby":
            by = x.args[2][0] if x.args[2] else dict(x.args[3]).get("by")
            kw = dict(x.args[3])
            if kw.get("as_index") is FALSE:
                return "range"
            if by is not None and (cval(by) == "cycle_index" or strs(by) == ["cycle_index"]):
                return "cycle"
            if by is not None and by.op == "attr" and by.args[1] == "cycle_index" or by is not None and by.op == "sub" and cval(by.args[1]) == "cycle_index":
                return "cycle"
            return "other"
        if x.op == "meth" and x.args[1] in ("merge", "reset_index", "set_index", "join"):
            return None
        if x.op in ("meth", "attr", "sub"):
            x = x.args[0]
            continue
        return None


def origin_own(t, table):
    x = t
    while True:
        if x is table:
            return True
        if x.op in ("sub", "attr", "upd") or x.op == "meth" and x.args[1] not in ("groupby", "merge", "unique"):
            x = x.args[0]
            continue
        return False


def aligned(c, g, evs):
    stores = [e for e in evs if e.kind == "store" and e.how != "attr" and e.fn.full == g.full and e.key.op == "const" and isinstance(e.key.args[0], str)]
    if not stores:
        stores = [e for e in evs if e.kind == "store" and e.how != "attr" and e.key.op == "const" and isinstance(e.key.args[0], str)]
    for e in stores:
        table = e.base
        if raw_copy(origin(table)) or origin(table).op == "new" and origin(table).args[0] == "dict":
            continue
        o = origin(table)
        lab = f"{g.qual}: {e.key.args[0]}"
        reset = [x for x in evs if x.kind == "call" and x.idx < e.idx and x.target.split(".")[-1] == "reset_index" and x.recv is not None and origin(x.recv) is o]
        v = e.value
        while v.op == "call" and v.args[0] in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray") and len(v.args[1]) == 1:
            v = v.args[1][0]
        if v.op == "new" and v.args[0] == "list":
            one_per_row(c, lab, v, e, evs, o)
            continue
        if v.op == "comp" and v.args[0] in ("list", "set", "gen"):
            ok = v.args[0] == "list" and len(v.args[3]) == 1 and not v.args[2] and own_rows(v.args[3][0], o)
            dep = contains(v.args[1][0], lambda x: x.op in ("elem", "keyof"))
            c.ob("aligned", lab, ok and dep, "the values are not computed row by row of the table" if not ok else "the same value is given to every row", e.where())
            continue
        why = mixed(v, table, evs, o)
        if why:
            c.ob("aligned", lab, False, why, e.where())
            continue
        i = index_of(v, table)
        if i is None:
            c.notes.append(f"{lab}: alignment not decided")
            continue
        tab = "range" if reset else "cycle"
        ok = i in ("own", "scalar") or i == tab
        c.ob("aligned", lab, ok, f"values labelled by {i} are put into rows labelled by {tab}", e.where())


REDUCE = {"max", "min", "mean", "sum", "median", "std", "any", "all", "mode", "item", "nunique", "first_valid_index"}
REDUCE_C = {"builtins.max", "builtins.min", "builtins.sum", "numpy.max", "numpy.min", "numpy.mean", "numpy.sum", "numpy.median", "numpy.nanmax", "numpy.nanmin", "numpy.nanmean", "numpy.std", "builtins.any", "builtins.all"}
ORDER_C = {"builtins.sorted", "builtins.reversed", "numpy.sort", "numpy.flip", "numpy.unique", "numpy.random.permutation", "builtins.set"}


def per_cycle(t, table, evs, o):
    """one value per row or per cycle"""
    if t.op == "new" and t.args[0] == "list":
        return any(x.kind == "call" and x.recv is t and x.target.split(".")[-1] == "append" for x in evs)
    if t.op == "comp":
        return any(own_rows(s, o) for s in t.args[3])
    return index_of(t, table) in ("own", "cycle")


def mixed(v, table, evs, o):
    """a column that is not the cycles' own values: one value taken over all cycles, or their values in another order"""
    for _, x in guarded_alts(v):
        while x.op == "call" and x.args[0] in ("builtins.list", "numpy.array", "numpy.asarray", "builtins.float", "builtins.int", "numpy.round") and x.args[1] or x.op == "meth" and x.args[1] in ("round", "astype", "tolist"):
            x = x.args[1][0] if x.op == "call" else x.args[0]
        if x.op == "meth" and x.args[1] in REDUCE and x.args[0].op == "meth" and x.args[0].args[1] == "groupby":
            continue
        if x.op == "meth" and x.args[1] in REDUCE and not_grouped(x.args[0]) and per_cycle(x.args[0], table, evs, o):
            return f"one value, the {x.args[1]} over all cycles, is given to every row"
        if x.op == "call" and x.args[0] in REDUCE_C and len(x.args[1]) == 1 and per_cycle(x.args[1][0], table, evs, o):
            return "one value taken over all cycles is given to every row"
        if x.op == "call" and x.args[0] in ORDER_C and x.args[1] and per_cycle(x.args[1][0], table, evs, o):
            return f"the cycles' values are put into the rows in another order ({x.args[0].split('.')[-1]})"
        if x.op == "sub" and x.args[1].op == "slice" and cval(x.args[1].args[2]) == -1 and per_cycle(x.args[0], table, evs, o):
            return "the cycles' values are put into the rows in reverse order"
    return None


def not_grouped(t):
    """a finished grouped aggregation, not a grouping still waiting for one"""
    while t.op in ("sub", "attr"):
        t = t.args[0]
    return not (t.op == "meth" and t.args[1] == "groupby")


def own_rows(src, o):
    """the source is the cycle column (or index) of the table itself"""
    x = src
    if x.op == "comp" and x.args[0] == "list" and len(x.args[3]) == 1 and not x.args[2]:
        return own_rows(x.args[3][0], o)
    if x.op == "call" and x.args[0] in ("builtins.list", "builtins.iter", "tqdm.tqdm") and x.args[1]:
        x = x.args[1][0]
    if x.op == "meth" and x.args[1] in ("tolist", "to_numpy", "to_list") and not x.args[2]:
        x = x.args[0]
    if x.op == "attr" and x.args[1] == "values":
        x = x.args[0]
    if x.op == "attr" and x.args[1] in ("cycle_index", "index") or x.op == "sub" and cval(x.args[1]) == "cycle_index":
        return origin(x.args[0]) is o
    return False


def one_per_row(c, lab, lst, e, evs, o):
    adds = [x for x in evs if x.kind == "call" and x.recv is lst and x.target.split(".")[-1] in ("append", "extend", "insert", "pop", "remove", "sort", "reverse") and x.idx < e.idx]
    if not adds:
        c.notes.append(f"{lab}: the list is not filled by append")
        return
    loops = {x.ctx[-1][1] if x.ctx and x.ctx[-1][0] == "loop" else None for x in adds}
    other = [x for x in adds if x.target.split(".")[-1] != "append"]
    lp = [z for x in adds for z in x.ctx if z[0] == "loop"]
    ids = {z[1] for z in lp}
    if other or len(ids) != 1 or any(sum(1 for z in x.ctx if z[0] == "loop") != 1 for x in adds):
        c.ob("aligned", lab, False, "the list of values does not get one entry per row", e.where())
        return
    src = lp[0][2]
    c.ob("aligned", lab, own_rows(src, o), f"the values are computed for {show(src)}, not for the rows of the table", adds[0].where())
    # exactly one append on every path through the loop body
    outer = set(e.guards)
    gl = [tuple((g, p) for g, p in x.guards if (g, p) not in outer) for x in adds]
    atoms = []
    for gs in gl:
        for g, _ in gs:
            if g not in atoms:
                atoms.append(g)
    if len(atoms) <= 8:
        import itertools
        for vals in itertools.product((True, False), repeat=len(atoms)):
            env = dict(zip(atoms, vals))
            n = sum(all(env[g] == p for g, p in gs) for gs in gl)
            if not c.ob("aligned", lab + ": one per row", n == 1, f"a row gets {n} entries when " + ", ".join(f"{show(a)[:60]} is {v}" for a, v in env.items()), adds[0].where()):
                break
    for x in adds:
        for _, v in guarded_alts(x.args[0] if x.args else NONE):
            if v.op in ("const", "ext"):
                continue
            dep = contains(v, lambda y: y.op == "elem" and (y.args[0] is src or own_rows(y.args[0], o)))
            c.ob("aligned", lab + ": own cycle", dep, "the value does not depend on the row's cycle", x.where())
