"""P11: regular and diagnostic cycles never mix in structured results."""
import itertools

from .common import *
from .quant import columns_in
from .preds import truthiness

EXPLANATION = ("A row-membership analysis of every structuring method, for every run class: each table term is given the facts known of all its rows (diagnostic, not diagnostic, not excluded), "
               "derived from the masks, cycle lists and loops it is selected by; the labels and index sets of the diagnostic configuration are checked at their construction.")

DP = "beep.structure.base.BEEPDatapath"
DC = "beep.structure.diagnostic.DiagnosticConfig"
M = "beep.structure.base."
SAME = {"copy", "astype", "round", "reset_index", "set_index", "sort_values", "sort_index", "rename", "fillna", "dropna", "head", "tail", "drop", "drop_duplicates", "assign", "groupby", "agg", "aggregate",
        "apply", "filter", "first", "last", "merge", "join", "interpolate", "reindex", "where", "mask", "iterrows", "itertuples", "items", "to_numpy", "tolist", "unique", "squeeze", "transform", "pipe",
        "max", "min", "mean", "to_list", "ffill", "bfill", "drop_duplicates", "to_frame", "nunique", "diff", "get_group"}
ATTRS = {"loc", "iloc", "values", "index", "cycle_index", "array", "T", "step_index", "groups", "iat", "at"}
ALL = frozenset({"reg", "diag", "kept"})
NEG = {"reg": "diag", "diag": "reg"}


class Rows:
    """facts(t) -> (facts known of every row / element, is anything about them unknown)"""

    def __init__(self, evs, excl):
        self.evs, self.excl, self.memo, self.assume = evs, excl, {}, ()

    def facts(self, t):
        key = (t, self.assume)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (ALL, False)          # a cycle of list / phi terms
        f, u = self._facts(t)
        for g, p in self.assume:
            m, v = self.mask(g, p, only=t)
            f, u = f | m, u or v and t.op == "elem"
        self.memo[key] = f, u
        return f, u

    def under(self, e):
        """what is known to hold where the event happens: its guards and the conditions of the loops it is in"""
        out = list(e.guards)
        for z in e.ctx:
            if z[0] == "loop" and hasattr(z[2], "op"):
                for x in spine(z[2]):
                    if x.op == "comp":
                        out += [(k, True) for k in x.args[2]]
        return tuple(out)

    def join(self, xs):
        xs = list(xs)
        f, u = ALL, False
        for a, b in xs:
            f, u = f & a, u or b
        return f, u

    def _facts(self, t):
        o, a = t.op, t.args
        if t is self.excl:
            return frozenset(), False
        if o == "attr":
            if a[1] == "raw_data":
                return frozenset(), False
            if a[1] == "all_ix":
                return frozenset({"diag"}), False
            if a[1] in ("hppc_ix", "rpt_ix", "reset_ix"):
                return frozenset({"diag"}), False
            if a[1] in ATTRS:
                return self.facts(a[0])
            if a[1] in ("type_by_ix", "cycle_ix_to_cycle_type"):
                return frozenset({"diag"}), False
            return frozenset(), True
        if o == "sub":
            b, k = a
            x = self.facts(b)
            if k.op in ("list", "tuple") and k.op == "tuple" and len(k.args) == 2 and b.op == "attr" and b.args[1] == "loc":
                k = k.args[0]
            if k.op in ("const", "slice") or k.op == "list":
                return x
            m, u = self.mask(k, True)
            return x[0] | m, x[1] or u
        if o == "meth":
            b, n, ar, kw = a
            if n == "query":
                return self.facts(b)[0], True
            if n == "isin":
                return frozenset(), False
            if n == "difference" and ar:
                x = self.facts(b)
                return x[0] | self.outside(ar[0]), x[1]
            if n == "intersection" and ar:
                x, y = self.facts(b), self.facts(ar[0])
                return x[0] | y[0], x[1] or y[1]
            if n in SAME:
                return self.facts(b)
            return frozenset(), True
        if o == "call":
            f, ar, kw = a
            if f == M + "interpolate_df":
                return self.facts(ar[0] if ar else dict(kw)["dataframe"])
            if f in ("pandas.concat",) and ar:
                return self.facts(ar[0])
            if f == "pandas.merge" and ar:
                return self.facts(ar[0])
            if f == "pandas.DataFrame" and not ar and not kw:
                return ALL, False
            if f in ("builtins.sorted", "builtins.list", "builtins.set", "builtins.frozenset", "builtins.tuple", "numpy.sort", "numpy.unique", "numpy.array", "numpy.asarray", "tqdm.tqdm", "tqdm.auto.tqdm",
                     "builtins.iter", "builtins.enumerate", "builtins.reversed", "pandas.DataFrame", "pandas.Series", "copy.deepcopy", "copy.copy", "pandas.unique") and ar:
                return self.facts(ar[0])
            if f in ("builtins.range", "numpy.arange"):
                return frozenset(), False       # every number in between, whichever cycles they are
            if f in ("numpy.setdiff1d",) and len(ar) == 2:
                x = self.facts(ar[0])
                return x[0] | self.outside(ar[1]), x[1]
            if f in ("numpy.intersect1d",) and len(ar) == 2:
                x, y = self.facts(ar[0]), self.facts(ar[1])
                return x[0] | y[0], x[1] or y[1]
            return frozenset(), True
        if o == "range":
            return frozenset(), False
        if o in ("elem", "keyof", "items", "keysview", "valuesview"):
            return self.facts(a[0])
        if o == "comp":
            kind, elts, conds, srcs = a
            fs, u = self.facts(elts[0])
            for k in conds:
                m, v = self.mask(k, True)
                fs, u = fs | m, u or v
            return fs, u
        if o == "bin" and a[0] in ("-", "&", "|", "+"):
            x = self.facts(a[1])
            if a[0] == "-":
                return x[0] | self.outside(a[2]), x[1]
            y = self.facts(a[2])
            return (x[0] | y[0] if a[0] == "&" else x[0] & y[0]), x[1] or y[1]
        if o in ("upd", "rowsel", "star"):
            return self.facts(a[0])
        if o == "ite":
            g = self.choose(a[0])
            if g is not None:
                return self.facts(a[1] if g else a[2])
            return self.join([self.facts(a[1]), self.facts(a[2])])
        if o == "phi":
            return self.join([self.facts(x) for x in a])
        if o in ("list", "tuple"):
            return self.join([self.facts(x) for x in a]) if a else (ALL, False)
        if o == "new" and a[0] in ("list", "set"):
            adds = [e for e in self.evs if e.kind == "call" and e.recv is t and e.target.split(".")[-1] in ("append", "add", "extend", "update", "insert")]
            out = []
            for e in adds:
                old, self.assume = self.assume, self.under(e)
                out.append(self.facts(e.args[-1]))
                self.assume = old
            return self.join(out)
        if o == "const":
            return (ALL, False) if t is NONE else (frozenset(), False)
        return frozenset(), True

    def choose(self, g):
        """the configuration is set"""
        if g.op == "attr" and g.args[1] in ("_diagnostic", "diagnostic"):
            return self.diag
        if g.op == "cmp" and g.args[0] == "is" and g.args[2] is NONE and g.args[1].op == "attr" and g.args[1].args[1] in ("_diagnostic", "diagnostic"):
            return not self.diag
        if g.op == "not":
            x = self.choose(g.args[0])
            return None if x is None else not x
        return None

    diag = True

    def outside(self, t):
        """facts of what is not in a collection"""
        if self.is_excl(t):
            return frozenset({"kept"})
        if self.whole_diag(t):
            return frozenset({"reg"})
        return frozenset()

    def is_excl(self, t):
        return all(x is self.excl or x.op in ("list", "tuple", "new") and not x.args[1:] and x.op != "new" or x.op == "new" or x is NONE or x.op == "call" and x.args[0] in ("builtins.set", "builtins.list") and
                   (not x.args[1] or self.is_excl(x.args[1][0])) for _, x in guarded_alts(t)) and contains(t, lambda x: x is self.excl)

    def whole_diag(self, t):
        while t.op == "call" and t.args[0] in ("builtins.set", "builtins.list", "builtins.frozenset", "builtins.sorted") and t.args[1]:
            t = t.args[1][0]
        return t.op == "attr" and t.args[1] in ("all_ix", "type_by_ix", "cycle_ix_to_cycle_type")

    def mask(self, k, pol, only=None):
        """facts of the rows where the condition has the given truth"""
        o, a = k.op, k.args
        if o == "not" or o == "un" and a[0] in ("~", "not", "-"):
            return self.mask(a[-1], not pol, only)
        if o == "bool" or o == "bin" and a[0] in ("&", "|"):
            op = a[0]
            items = a[1] if o == "bool" else a[1:]
            xs = [self.mask(x, pol, only) for x in items]
            both = (op in ("and", "&")) == pol
            f = frozenset().union(*[x for x, _ in xs]) if both else frozenset(ALL).intersection(*[x for x, _ in xs])
            return f, any(u for _, u in xs)
        if o == "meth" and a[1] == "isin" and a[2] or o == "call" and a[0] in ("numpy.isin", "numpy.in1d") and len(a[1]) > 1:
            coll = a[2][0] if o == "meth" else a[1][1]
            base = a[0] if o == "meth" else a[1][0]
            if not cyc(base):
                return frozenset(), False
            return (self.facts(coll) if pol else (self.outside(coll), False))
        if only is not None and o == "cmp" and not (a[0] == "in" and a[1] is only):
            return frozenset(), False
        if only is not None and o in ("meth", "call", "elem", "attr", "sub", "comp", "new", "param"):
            return frozenset(), False
        if o == "cmp" and a[0] == "in":
            return (self.facts(a[2]) if pol else (self.outside(a[2]), False))
        if o == "cmp" and a[0] in ("<", "<=") or o == "meth" and a[1] in ("between", "lt", "le", "gt", "ge"):
            return frozenset(), False           # an interval of cycles says nothing about which they are
        if o == "cmp" and a[0] == "==" and pol and (cyc(a[1]) or cyc(a[2])):
            x = a[2] if cyc(a[1]) and not (a[1].op == "elem") else a[1]
            return self.facts(x)
        if o == "ite":
            g = self.choose(a[0])
            if g is not None:
                return self.mask(a[1] if g else a[2], pol, only)
            xs = [self.mask(a[1], pol, only), self.mask(a[2], pol, only)]
            return xs[0][0] & xs[1][0], xs[0][1] or xs[1][1]
        if o == "call" and a[0] == "pandas.Series":
            return (ALL if a[1] and a[1][0].op == "const" and bool(a[1][0].args[0]) is not pol else frozenset()), False
        if o == "attr" and a[1] in ("index", "values"):
            return self.mask(a[0], pol, only) if a[0].op in ("meth", "cmp", "un") else self.facts(a[0])
        if o in ("elem", "call", "attr", "sub", "comp", "new", "param"):
            # rows picked by label: what is known of the labels
            u = contains(k, lambda x: x.op == "attr" and x.args[1] in ("all_ix", "type_by_ix", "hppc_ix")) or contains(k, lambda x: x is self.excl)
            if o in ("elem", "attr", "sub") and not u:
                return frozenset(), False
            return frozenset(), u
        u = contains(k, lambda x: x.op == "attr" and x.args[1] in ("all_ix", "type_by_ix")) or contains(k, lambda x: x is self.excl)
        return frozenset(), u


def spine(t):
    while True:
        yield t
        if t.op == "call" and t.args[1]:
            t = t.args[1][0]
        elif t.op in ("meth", "enum", "items"):
            t = t.args[0]
        else:
            return


def cyc(t):
    """a term that stands for cycle indices"""
    x = t
    while True:
        if x.op == "attr" and x.args[1] in ("cycle_index", "index") or x.op == "sub" and cval(x.args[1]) == "cycle_index":
            return True
        if x.op == "elem":
            return True
        if x.op == "meth" and x.args[1] in ("round", "astype", "to_numpy", "unique", "copy"):
            x = x.args[0]
        elif x.op == "attr" and x.args[1] == "values":
            x = x.args[0]
        else:
            return False


WANT = {"interpolate_cycles": ("reg", "a diagnostic cycle can be in the regular interpolated data"),
        "summarize_cycles": ("reg", "a diagnostic cycle can be in the regular summary"),
        "interpolate_diagnostic_cycles": ("diag", "a regular cycle can be in the diagnostic data"),
        "summarize_diagnostic": ("diag", "a regular cycle can be in the diagnostic summary")}


def check(c):
    c.rule("apart", "regular tables hold only cycles outside the diagnostic configuration, diagnostic tables only cycles inside it")
    c.rule("excluded", "cycles asked to be excluded are not in the regular interpolated data")
    c.rule("type", "each diagnostic cycle carries the type its configuration gives it")
    c.rule("config", "the configuration's index sets and type map say the same, and each cycle has one type")
    c.rule("matching", "a cycle found by its step numbers is filed under the type whose pattern it matches")
    base = c.cls(DP)
    me = mk("param", "self")
    seen = set()
    excl = mk("param", "exclude_cycles")
    for k in [base] + sorted(c.P.subclasses(base), key=lambda s: s.full):
        for m, (want, msg) in WANT.items():
            f = c.P.find_method(k, m)
            if f is None or (f.full, tuple(c.P.find_method(k, x).full for x in ("interpolate_step", "iterate_steps_in_cycle"))) in seen:
                continue
            seen.add((f.full, tuple(c.P.find_method(k, x).full for x in ("interpolate_step", "iterate_steps_in_cycle"))))
            it = c.interp(types={me: k}, no_inline={M + "interpolate_df", M + "step_is_chg_state", M + "get_CV_segment_from_charge", M + "get_max_paused_over_threshold"})
            res, st, evs = c.run(it, f, self_node=me, cls=k)
            R = Rows(evs, excl)
            for gs, leaf in guarded_alts(res):
                if any(R.choose(g) is (not p) for g, p in gs):
                    continue
                fs, u = R.facts(leaf)
                if want not in fs and u:
                    c.notes.append(f"{f.qual}: rows not decided")
                else:
                    c.ob("apart", f.qual, want in fs, msg, f.where())
                if m == "interpolate_cycles":
                    if "kept" not in fs and u:
                        c.notes.append(f"{f.qual}: exclusion not decided")
                    else:
                        c.ob("excluded", f.qual, "kept" in fs, "a cycle asked to be excluded can be in the interpolated data", f.where())
                if want == "reg" and m != "x":
                    R2 = Rows(evs, excl)
                    R2.diag = False
                    f2, u2 = R2.facts(leaf)
                    if not u2 and f2:
                        c.ob("apart", f.qual + ": no configuration", not ({"reg", "diag"} & f2) or f2 == ALL and False, "without a configuration, cycles are still left out", f.where())
            types(c, f, evs)
    # the tables of structure() are those of these methods
    config(c)
    matching(c)
    c.need("type", 2)
    c.need("config", 4)


# ---------------------------------------------------------------- types
def config_order(t):
    """a sequence that runs over the configuration's own map"""
    while True:
        if t.op == "comp" and t.args[0] == "list" and len(t.args[3]) == 1:
            t = t.args[3][0]
        elif t.op in ("items", "valuesview", "enum"):
            t = t.args[0]
        elif t.op == "meth" and t.args[1] in ("items", "values", "to_list", "tolist"):
            t = t.args[0]
        elif t.op == "call" and t.args[0] in ("builtins.list", "builtins.tuple", "pandas.Series", "numpy.array", "numpy.asarray", "builtins.enumerate") and t.args[1]:
            t = t.args[1][0]
        else:
            return t.op == "attr" and t.args[1] in ("type_by_ix", "cycle_ix_to_cycle_type", "cycle_type_to_cycle_ix", "cycles")


def types(c, f, evs):
    for e in evs:
        if e.kind != "store" or e.how == "attr" or cval(e.key) != "cycle_type":
            continue
        v = e.value
        lab = f"{f.qual}: cycle_type"
        if config_order(v):
            c.ob("type", lab + ": own cycle", False, f"the types come in the order of the configuration ({show(v)[:80]}), not in that of the rows", e.where())
            continue
        if v.op == "comp" and len(v.args[3]) == 1:
            elt, src = v.args[1][0], v.args[3][0]
            want = lambda x: x.op == "elem" and x.args[0] is src
            if not (src.op in ("attr", "sub") and (src.args[1] in ("cycle_index", "index") or hasattr(src.args[1], "op") and cval(src.args[1]) == "cycle_index")):
                c.notes.append(lab + ": rows not recognised")
                continue
        elif v.op == "meth" and v.args[1] in ("map", "apply", "replace") and v.args[2]:
            d = v.args[2][0]
            if d.op == "attr":
                c.ob("type", lab, d.args[1] in ("type_by_ix", "cycle_ix_to_cycle_type") and cyc(v.args[0]), f"the type is {show(v)[:80]}", e.where())
            else:
                c.notes.append(lab + ": not recognised")
            continue
        else:
            elt = v
            own = [x.value for x in evs if x.kind == "store" and x.base is e.base and cval(x.key) == "cycle_index"]
            want = lambda x: x in own
            if not own:
                c.notes.append(lab + ": the row's cycle is not recognised")
                continue
        if elt.op in ("sub", "get") and elt.args[0].op == "attr":
            m, key = elt.args[0].args[1], elt.args[1]
            c.ob("type", lab, m in ("type_by_ix", "cycle_ix_to_cycle_type"), f"the type is looked up in {m}", e.where())
            c.ob("type", lab + ": own cycle", want(key), f"the type is that of {show(key)[:80]}, not of the row's cycle", e.where())
        elif elt.op == "const":
            c.ob("type", lab, False, f"every cycle is given the type {show(elt)}", e.where())
        else:
            c.notes.append(lab + ": not recognised")


# ---------------------------------------------------------------- configuration
def config(c):
    k = c.cls(DC)
    me = mk("param", "self")
    f = c.P.find_method(k, "__init__")
    it = c.interp(types={me: k})
    res, st, evs = c.run(it, f, self_node=me, cls=k)
    get = lambda n: st.heap.get(attr(me, n))
    given = mk("param", "diagnostic_config")

    def ident(t):
        """the collections of the argument, type by type"""
        if t is given:
            return True
        if t.op == "comp" and t.args[0] == "dict" and not t.args[2]:
            key, val = t.args[1][0].args if len(t.args[1]) == 1 else t.args[1]
            return key.op == "keyof" and contains(val, lambda x: x.op == "sub" and x.args[0] is key.args[0] and x.args[1] is key)
        if t.op == "new" and t.args[0] == "dict":
            sts = [e for e in evs if e.kind == "store" and e.base is t]
            return bool(sts) and all(contains(e.value, lambda x: x.op == "sub" and x.args[1] is e.key) for e in sts)
        return False
    byname = get("cycles")
    if byname is not None:
        c.ob("config", "cycles", ident(byname) or not known_shape(byname), "the cycles of a type are not those given for it", f.where())
    m = get("type_by_ix")
    pairs = []
    if m is not None and m.op == "new":
        for e in evs:
            if e.kind == "store" and e.base is m:
                pairs.append((e.key, e.value, e))
            if e.kind == "call" and e.recv is m and e.target.split(".")[-1] == "update":
                for x in e.args:
                    if x.op == "comp":
                        kv = x.args[1][0].args if len(x.args[1]) == 1 else x.args[1]
                        pairs.append((kv[0], kv[1], e))
    elif m is not None and m.op == "comp":
        kv = m.args[1][0].args if len(m.args[1]) == 1 else m.args[1]
        pairs.append((kv[0], kv[1], None))
    elif m is not None and m.op == "call" and m.args[0] == "builtins.dict.fromkeys":
        pass
    if not pairs:
        c.notes.append("type_by_ix: not recognised")
    for key, val, e in pairs:
        ok = val.op == "keyof" and contains(key, lambda x: x.op == "sub" and x.args[1] is val)
        c.ob("config", "type_by_ix", ok, f"a cycle is given the type {show(val)[:60]}, which is not the one it is listed under", e.where() if e else f.where())
        refused = {x.guards[-1][0] for x in evs if x.kind == "raise" and x.guards}
        for g, p in (e.guards if e else ()):
            if g not in refused and (contains(g, lambda x: x is key) or contains(g, lambda x: x is val)):
                c.ob("config", "type_by_ix: every cycle", False, f"a cycle has a type only when {show(g)[:80]}", e.where())
    a = get("all_ix")
    if a is not None:
        whole = lambda t: t is m or t.op in ("keysview",) and t.args[0] is m or t.op == "call" and t.args[0] in ("builtins.frozenset", "builtins.set", "builtins.list") and t.args[1] and whole(t.args[1][0]) \
            or t.op == "call" and t.args[0].endswith(("frozenset.union", "set.union")) and contains(t, lambda x: x.op == "valuesview" and (x.args[0] is byname or ident(x.args[0]))) \
            or t.op == "meth" and t.args[1] == "union" and contains(t, lambda x: x.op == "valuesview")
        c.ob("config", "all_ix", whole(a) or not restricted(a), "the set of all diagnostic cycles is not that of the cycles that have a type", f.where())
    else:
        c.ob("config", "all_ix", False, "the set of all diagnostic cycles is not set", f.where())
    for n in ("hppc", "rpt", "reset"):
        v = get(n + "_ix")
        if v is None:
            c.notes.append(f"{n}_ix: not recognised")
            continue
        words = {cval(x.args[1]) for x in walk(v) if x.op == "cmp" and x.args[0] == "in" and x.args[1].op == "const"}
        words |= {x.args[1].args[0] for x in walk(v) if x.op == "cmp" and x.args[0] == "in" and x.args[1].op == "const" and isinstance(x.args[1].args[0], str)}
        words |= {cval(x.args[2][0]) for x in walk(v) if x.op == "meth" and x.args[1] in ("startswith", "find", "count") and x.args[2]}
        words.discard(None)
        if words:
            c.ob("config", n + "_ix", words == {n}, f"{n} cycles are recognised by {sorted(words)}", f.where())
            for x in walk(v):
                if x.op == "comp":
                    for cond in x.args[2]:
                        c.ob("config", n + "_ix: polarity", not (cond.op == "not" and contains(cond, lambda y: y.op == "cmp" and y.args[0] == "in")), f"{n} cycles are those not named so", f.where())
    # overlapping types are refused before the map is complete
    rs = [e for e in evs if e.kind == "raise"]
    def counts(g):
        return contains(g, lambda x: x.op == "call" and x.args[0] in ("builtins.sum", "builtins.len")) or contains(g, lambda x: x.op == "meth" and x.args[1] in ("isdisjoint", "intersection")) or \
            contains(g, lambda x: x.op == "cmp" and x.args[0] == "in" and x.args[2] is m) or contains(g, lambda x: x.op == "bin" and x.args[0] == "&")
    over = [(g, p, e) for e in rs for g, p in e.guards[-1:] if counts(g) and not any(y.op == "call" and y.args[0] == "builtins.isinstance" for y in walk(g))]
    c.ob("config", "one type per cycle", bool(over), "a cycle given two types is not refused", f.where())
    for g, p, e in over:
        if g.op == "cmp" and g.args[0] == "==":
            c.ob("config", "one type per cycle", not p, "a configuration without overlap is refused", e.where())
        sides = []
        if g.op == "cmp":
            for x in g.args[1:]:
                sides.append("sum" if contains(x, lambda y: y.op == "call" and y.args[0] == "builtins.sum") else "len" if contains(x, lambda y: y.op == "call" and y.args[0] == "builtins.len") else "?")
        if g.op == "cmp" and g.args[0] in ("<", "<=") and set(sides) == {"sum", "len"}:
            # sum of sizes > size of union means overlap
            lt_sum = sides[0] == "len"        # len < sum
            ok = (g.args[0] == "<" and lt_sum and p) or (g.args[0] == "<=" and not lt_sum and not p)
            c.ob("config", "one type per cycle", ok, f"refused when {show(g)[:80]} is {p}", e.where())


def restricted(t):
    """certainly a part only"""
    return contains(t, lambda x: x.op == "comp" and len(x.args[2]) > 0) or t.op == "const" or t.op == "call" and t.args[0] in ("builtins.frozenset", "builtins.set") and not t.args[1]


def known_shape(t):
    return t.op in ("comp", "new", "attr", "param", "call")


# ---------------------------------------------------------------- matching by step numbers
def matching(c):
    k = c.cls(DC)
    f = c.P.find_method(k, "from_step_numbers")
    if f is None:
        c.notes.append("from_step_numbers not found")
        return
    it = c.interp(no_inline={DC + ".__init__"})
    res, st, evs = c.run(it, f, cls=k)
    crit = mk("param", "matching_criteria")
    adds = [e for e in evs if e.kind == "call" and e.recv is not None and e.target.split(".")[-1] in ("add", "append") and e.args and cyc(e.args[0])]
    if not adds:
        c.notes.append("from_step_numbers: not recognised")
    name = None
    for e in adds:
        cix = e.args[0]
        to = None
        r = e.recv
        if r.op in ("sub", "get"):
            to = r.args[1]
        own = [x for g, p in e.guards for x in walk(g) if x.op == "sub" and x.args[0] is crit]
        keys = {x.args[1] for x in own}
        if to is not None and keys:
            c.ob("matching", "from_step_numbers: type", keys == {to}, f"a cycle matched by the pattern of one type is filed under {show(to)[:60]}", e.where())
        pats = [g for g, p in e.guards if contains(g, lambda x: x is crit) and contains(g, lambda x: x is cix)]
        c.ob("matching", "from_step_numbers: pattern", bool(pats) or not keys, "a cycle is filed without its steps being compared with the pattern", e.where())
        for g in pats:
            for x in walk(g):
                if x.op == "cmp" and x.args[0] == "in" and contains(x.args[2], lambda y: y is cix):
                    cols = {y.args[1] if isinstance(y.args[1], str) else cval(y.args[1]) for y in walk(x.args[2]) if y.op in ("attr", "sub") and (isinstance(y.args[1], str) or y.args[1].op == "const")}
                    c.ob("matching", "from_step_numbers: steps", "step_index" in cols, f"the pattern is compared with {sorted(map(str, cols))}", e.where())
    # decided over the two rules: contains needs all steps present; exact needs that and nothing else
    if adds:
        from .p12 import evaluate, Undecided
        try:
            for rule, all_in, same in itertools.product(("contains", "exact"), (True, False), (True, False)):
                def leaf(t):
                    if t.op == "sub" and t.args[0].op == "sub" and t.args[0].args[0] is crit and cval(t.args[1]) == 0:
                        return rule
                    if t.op == "call" and t.args[0] == "builtins.all":
                        return all_in
                    if t.op == "meth" and t.args[1] == "issubset":
                        return all_in
                    if t.op == "cmp" and t.args[0] == "==" and contains(t, lambda x: x.op == "call" and x.args[0] == "builtins.len"):
                        return same
                    if t.op == "cmp" and t.args[0] == "in" and t.args[1].op == "const":
                        return True
                    if t.op == "cmp" and t.args[0] == "in" and contains(t.args[1], lambda x: x is crit):
                        return True
                    if t.op == "sub" and t.args[0].op == "sub" and t.args[0].args[0] is crit and cval(t.args[1]) == 1:
                        return True
                    return Undecided
                got = any(all(bool(evaluate(g, leaf)) == p for g, p in e.guards) for e in adds)
                want = all_in and (rule == "contains" or same)
                if rule == "exact" and not all_in and same:
                    pass
                c.ob("matching", f"from_step_numbers: {rule}", got == want,
                     f"a cycle with {'all' if all_in else 'not all'} of the pattern's steps and {'no other' if same else 'other'} steps {'is' if got else 'is not'} matched by '{rule}'", adds[0].where())
        except Undecided:
            c.notes.append("from_step_numbers: not decided")
