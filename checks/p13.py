"""P13: every cycler format is ingested into the same quantities and units."""
import ast
import re

from .common import *
from .configs import yaml_globals

EXPLANATION = ("Every loader (from_file of each BEEPDatapath subclass) is interpreted abstractly; its table operations (renames, casts, column assignments, "
               "row-restricted assignments, per-item conversions of line-based readers) are replayed in order over an abstract table whose cells are (quantity, scale to "
               "BEEP's unit, charge/discharge side, source headers, stored type). Source headers are typed by the unit and words they carry, the yaml column maps are read "
               "from the source tree. Each standard column of the finished table must come out as its own quantity with scale exactly 1 and its own side.")

STANDARD = {"test_time": "time", "step_time": "time", "current": "current", "voltage": "voltage", "charge_capacity": "charge", "discharge_capacity": "charge",
            "charge_energy": "energy", "discharge_energy": "energy", "temperature": "temperature", "internal_resistance": "resistance", "cycle_index": "cycle",
            "step_index": "step", "date_time": "datetime", "date_time_iso": "datetime"}
SIDE = {"charge_capacity": "charge", "discharge_capacity": "discharge", "charge_energy": "charge", "discharge_energy": "discharge"}
WHICH = {"test_time": "test", "step_time": "step"}
NAMES = {"time": "seconds", "current": "amperes", "voltage": "volts", "charge": "ampere-hours", "energy": "watt-hours", "temperature": "degrees C", "resistance": "ohms"}
UNITS = {"ma": ("current", 1e-3), "a": ("current", 1), "amps": ("current", 1), "v": ("voltage", 1), "mv": ("voltage", 1e-3), "mah": ("charge", 1e-3), "ah": ("charge", 1),
         "mwh": ("energy", 1e-3), "wh": ("energy", 1), "h": ("time", 3600), "hr": ("time", 3600), "min": ("time", 60), "s": ("time", 1), "sec": ("time", 1), "ms": ("time", 1e-3), "us": ("time", 1e-6),
         "j": ("energy", 1 / 3600), "o": ("resistance", 1), "ohm": ("resistance", 1), "ohms": ("resistance", 1), "mohm": ("resistance", 1e-3), "kwh": ("energy", 1e3), "ua": ("current", 1e-6)}
RAW = 7.25


class V:
    __slots__ = ("dim", "f", "side", "heads", "which", "derived", "dtype", "open", "fmt")

    def __init__(self, dim, f=1.0, side=frozenset(), heads=frozenset(), which=frozenset(), derived=False, dtype=None, open=False, fmt=None):
        self.dim, self.f, self.side, self.heads, self.which, self.derived, self.dtype, self.open, self.fmt = dim, f, side, heads, which, derived, dtype, open, fmt

    def but(self, **k):
        v = V(*[getattr(self, s) for s in self.__slots__])
        for a, b in k.items():
            setattr(v, a, b)
        return v

    def __repr__(self):
        return f"{self.dim}*{self.f:g} {'/'.join(sorted(self.side))} from {sorted(self.heads)} {self.dtype or ''}"


UNK, ZERO = V(None), V("zero")


def header(h):
    s = h.strip().lower()
    m = re.search(r"\(([^()]*)\)$|/([a-zΩ.°]+)$|(?<=[a-z])_(a|v|c|j|us|ms|s|ah|wh|ma|mah|mwh|h)$", s)
    unit, rest = None, s
    if m:
        unit, rest = next(g for g in m.groups() if g is not None), s[:m.start()]
    tok = {x for x in re.split(r"[^a-z]+", rest) if x}
    side = frozenset()
    if any(x.startswith("dis") or x in ("dchg", "dch") for x in tok):
        side = frozenset(["discharge"])
    elif any(x in ("chg", "charge", "charging", "chrg") for x in tok):
        side = frozenset(["charge"])
    which = frozenset(["step"] if "step" in tok else ["test"] if tok & {"test", "run"} else [])
    dim, f, fmt = None, 1.0, None
    date = bool(tok & {"date", "datetime", "realtime", "system", "dpt"})
    if unit is not None:
        u = re.sub(r"[.\s·-]", "", unit)
        if unit == "h:min:s.ms":
            dim, fmt = "time", "hms"
        elif u in ("c", "°c", "degc") and "coulomb" in tok:
            dim, f = "charge", 1 / 3600
        elif u in ("c", "°c", "degc"):
            dim = "temperature"
        elif u in UNITS:
            dim, f = UNITS[u]
        if dim == "time" and date:
            dim = "datetime"
    if unit is None:
        if date:
            dim = "datetime"
        elif tok & {"amps", "current"}:
            dim = "current"
        elif tok & {"volts", "voltage", "potential"}:
            dim = "voltage"
        elif {"amp", "hr"} <= tok or tok & {"capacity", "cap"}:
            dim = "charge"
        elif {"watt", "hr"} <= tok or "energy" in tok or {"wf", "e"} <= tok:
            dim = "energy"
        elif "temperature" in tok:
            dim = "temperature"
        elif tok & {"resistance", "dcir", "impedance"}:
            dim = "resistance"
        elif "time" in tok:
            dim = "time"
        elif "half" in tok or tok & {"step", "ns"}:
            dim = "step"
        elif tok & {"cyc", "cycle"}:
            dim = "cycle"
    if dim == "temperature" and tok & {"environment", "ambient", "circuit", "chamber"}:
        dim = "temperature of something other than the cell"
    return V(dim, f, side, frozenset([h]), which if dim == "time" else frozenset(), fmt=fmt) if dim else V(None, heads=frozenset([h]))


def join(a, b):
    if a is ZERO or a.dim == "zero":
        return b
    if b is ZERO or b.dim == "zero":
        return a
    if a.dim is None or b.dim is None:
        return UNK
    if a.dim != b.dim:
        return V(f"{a.dim} mixed with {b.dim}", heads=a.heads | b.heads)
    if abs(a.f - b.f) > 1e-9 * max(abs(a.f), abs(b.f)):
        return V(f"{a.dim} in two different units", heads=a.heads | b.heads)
    return V(a.dim, a.f, a.side | b.side, a.heads | b.heads, a.which | b.which, a.derived or b.derived, a.dtype or b.dtype, a.open or b.open)


PHYSICAL = {"charge", "energy", "voltage", "current", "temperature", "resistance"}


class Undecided(Exception):
    pass


class Tables:
    """Python values of terms that read configuration tables"""

    def __init__(self, c, it, st):
        self.c, self.it, self.st = c, it, st
        self.configs = yaml_globals(c)

    def node(self, n, mod, depth=0):
        if isinstance(n, ast.Name):
            if n.id in self.configs:
                return self.configs[n.id][1]
            g = mod.assigns.get(n.id)
            if not g or len(g) != 1 or depth > 4:
                raise Undecided
            return self.node(g[0], mod, depth + 1)
        if isinstance(n, ast.Subscript):
            return self.node(n.value, mod, depth)[self.node(n.slice, mod, depth)]
        try:
            return ast.literal_eval(n)
        except Exception:
            raise Undecided

    def value(self, t, env):
        for k, v in env.items():
            if t is k:
                return v
        r = lambda x: self.value(x, env)
        if t.op == "const":
            return t.args[0]
        if t.op == "ext":
            return ("ext", t.args[0])
        if t.op == "global":
            name = t.args[0]
            last = name.split(".")[-1]
            if last in self.configs:
                return self.configs[last][1]
            owner, _, a = name.rpartition(".")
            try:
                k = self.c.P.resolve(owner)
            except AnalysisError:
                k = None
            if isinstance(k, Class):
                r2 = self.c.P.find_attr(k, a)
                if r2:
                    return self.node(r2[1], r2[0].module)
            m = self.c.P.modules.get(owner)
            if m is not None:
                return self.node(ast.Name(id=a), m)
            raise Undecided
        if t.op in ("sub", "get"):
            o = r(t.args[0])
            try:
                return o[r(t.args[1])]
            except (KeyError, IndexError, TypeError):
                if t.op == "get" and len(t.args) > 2 and isinstance(o, dict):
                    return r(t.args[2])
                raise Undecided
        if t.op == "meth" and t.args[1] == "get" and t.args[2]:
            o = r(t.args[0])
            if isinstance(o, dict):
                k = r(t.args[2][0])
                return o[k] if k in o else r(t.args[2][1]) if len(t.args[2]) > 1 else None
            raise Undecided
        if t.op in ("list", "tuple"):
            xs = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args
            return tuple(r(x) for x in xs)
        if t.op == "new" and t.args[0] == "dict":
            xs = self.it.dict_items(t, self.st)
            if xs is None:
                raise Undecided
            return {r(k) if hasattr(k, "op") else k: r(v) if hasattr(v, "op") else v for k, v in xs}
        if t.op == "comp" and t.args[0] in ("dict", "list"):
            kind, elt, conds, srcs = t.args
            if len(srcs) != 1:
                raise Undecided
            src = srcs[0]
            while src.op in ("items", "keysview") or src.op == "meth" and src.args[1] in ("keys", "items"):
                src = src.args[0]
            o = r(src)
            out = {} if kind == "dict" else []
            for i, k in enumerate(o):
                e2 = dict(env)
                for w in walk(t):
                    if w.op in ("elem", "keyof") and (w.args[0] is src or w.args[0] is srcs[0]):
                        e2[w] = k
                ok = True
                for cd in conds:
                    try:
                        ok = ok and bool(self.value(cd, e2))
                    except Undecided:
                        pass        # a filter on what the file has: keep the entry
                if ok and kind == "dict":
                    kv = elt[0] if isinstance(elt, tuple) and len(elt) == 1 else elt
                    kv = kv if isinstance(kv, tuple) else kv.args[0] if len(kv.args) == 1 and isinstance(kv.args[0], tuple) else kv.args
                    out[self.value(kv[0], e2)] = self.value(kv[1], e2)
                elif ok:
                    out.append(self.value(elt[0] if isinstance(elt, tuple) else elt, e2))
            return out
        if t.op == "cmp":
            a, b = r(t.args[1]), r(t.args[2])
            try:
                return {"==": lambda: a == b, "!=": lambda: a != b, "in": lambda: a in b, "is": lambda: a is b, "<": lambda: a < b, "<=": lambda: a <= b}[t.args[0]]()
            except (KeyError, TypeError):
                raise Undecided
        if t.op == "not":
            return not r(t.args[0])
        if t.op == "bool":
            und = False
            for x in t.args[1]:
                try:
                    v = bool(r(x))
                except Undecided:
                    und = True
                    continue
                if v != (t.args[0] == "and"):
                    return v
            if und:
                raise Undecided
            return t.args[0] == "and"
        if t.op == "ite":
            return r(t.args[1]) if r(t.args[0]) else r(t.args[2])
        if t.op == "bin":
            a, b = r(t.args[1]), r(t.args[2])
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: a % b, "//": lambda: a // b,
                        "&": lambda: a & b, "|": lambda: a | b, "**": lambda: a ** b}[t.args[0]]()
            except (KeyError, TypeError, ZeroDivisionError):
                raise Undecided
        if t.op == "un":
            a = r(t.args[1])
            return -a if t.args[0] == "-" else (not a) if t.args[0] == "~" and isinstance(a, bool) else a
        raise Undecided


ROWS_M = {"astype", "rename", "reset_index", "drop", "dropna", "set_axis", "copy", "sort_values", "groupby", "query", "drop_duplicates", "head", "tail", "sort_index", "assign", "infer_objects", "convert_dtypes", "set_index"}
PASS_M = {"fillna", "ffill", "bfill", "copy", "round", "to_numpy", "tolist", "reset_index", "dropna", "strip", "interpolate", "sort_index", "item", "squeeze", "loc", "clip", "to_list", "set_axis"}
SAME_M = {"diff", "cumsum", "max", "min", "first", "last", "sum", "mean", "shift", "median", "cummax"}
PASS_C = {"builtins.float", "numpy.array", "numpy.asarray", "pandas.Series", "builtins.list", "pandas.to_numeric", "builtins.str", "numpy.round", "numpy.nan_to_num", "numpy.float64", "builtins.round"}
ABS_C = {"builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs"}


class Loader:
    def __init__(self, c, k, f):
        self.c, self.k, self.f = c, k, f
        self.helpers = []
        self.it = c.interp()
        self.res, self.st, self.evs = c.run(self.it, f, cls=k)
        self.T = Tables(c, self.it, self.st)
        self.cols, self.gone, self.memo, self.where = {}, set(), {}, {}
        self.lists = {}
        self.bad = []

    # --- the table
    def final(self):
        out = None
        for e in self.evs:
            if e.kind == "store" and e.how == "attr" and cval(e.key) == "raw_data":
                out = e.value
        return out

    def root(self, t, masks=None):
        while True:
            if t.op == "meth" and t.args[1] in ROWS_M:
                t = t.args[0]
            elif t.op == "sub" and not isinstance(cval(t.args[1]), str):
                if masks is not None:
                    masks.append(t.args[1])
                t = t.args[0]
            elif t.op == "attr" and t.args[1] in ("loc", "iloc", "at", "iat", "values"):
                t = t.args[0]
            elif t.op == "upd":
                t = t.args[0]
            elif t.op == "call" and t.args[0] in ("copy.copy", "copy.deepcopy") and t.args[1]:
                t = t.args[1][0]
            elif t.op == "rowsel":
                t = t.args[0]
            else:
                return t

    def lookup(self, name):
        if name in self.cols:
            return self.cols[name]
        if name in self.gone:
            return UNK
        return header(name)

    def rename(self, m):
        new, old = {}, set()
        for a, b in m.items():
            if isinstance(a, str) and isinstance(b, str):
                v = self.lookup(a)
                new[b] = v if b not in new else V(f"{new[b].dim} and {v.dim} under one name", heads=new[b].heads | v.heads)
                if a != b:
                    old.add(a)
        for a in old:
            self.cols.pop(a, None)
            self.gone.add(a)
        self.cols.update(new)
        self.gone -= set(new)

    # --- which side a row condition selects
    def sides(self, m, env=None):
        m0 = m
        while m0.op == "attr" and m0.args[1] == "index" or m0.op == "sub" and m0.args[0].op == "attr" and False:
            m0 = m0.args[0]
        if m0.op == "tuple":
            xs = m0.args[0] if len(m0.args) == 1 and isinstance(m0.args[0], tuple) else m0.args
            m0 = xs[0]
            while m0.op == "attr" and m0.args[1] == "index":
                m0 = m0.args[0]
        if m0.op == "sub" and self.root(m0) is self.base:
            ms = []
            self.root(m0, ms)
            got = [self.sides(x) for x in ms]
            got = [g for g in got if g is not None]
            return frozenset.intersection(*got) if got else None
        sel = {}
        for w in walk(m0):
            n = self.colname(w)
            if n is not None:
                hs = self.lookup(n).heads or frozenset([n])
                if n not in self.cols and n not in self.gone:
                    hs = frozenset([n])
                sel[w] = (n, hs)
        # a selector column is known by its source header
        out, decided = set(), False
        for case, side in self.cases(sel):
            env = {}
            for w, (n, hs) in sel.items():
                if case[0] in {x.strip().lower() for x in hs}:
                    env[w] = case[1]
            try:
                v = self.mask_value(m0, env)
            except Undecided:
                return None
            decided = True
            if v and side:
                out.add(side)
        return frozenset(out) if decided else None

    def cases(self, sel):
        heads = {x.strip().lower() for _, hs in sel.values() for x in hs}
        if "state" in heads:
            return [(("state", "C"), "charge"), (("state", "D"), "discharge"), (("state", "R"), None)]
        if "step type" in heads:
            out = []
            for code, name in (self.T.configs.get("NOVONIX_CONFIG", (0, {}))[1].get("step_names") or {}).items():
                out.append((("step type", code), "discharge" if "discharge" in name else "charge" if "charge" in name else None))
            return out
        if "half_cycle_count" in heads:
            return [(("half_cycle_count", n), "charge" if n % 2 else "discharge") for n in (1, 2, 3, 4)]
        return []

    def mask_value(self, t, env):
        """value of a row condition for one kind of row"""
        for k, v in env.items():
            if t is k:
                return v
        if t.op == "meth" and t.args[1] in ("replace", "map") and len(t.args[2]) == 1:
            x = self.mask_value(t.args[0], env)
            m = self.T.value(t.args[2][0], {})
            if not isinstance(m, dict):
                raise Undecided
            return m.get(x, x if t.args[1] == "replace" else None)
        if t.op == "meth" and t.args[1] in ("eq", "ne", "isin", "astype", "copy", "mod"):
            x = self.mask_value(t.args[0], env)
            if t.args[1] in ("astype", "copy"):
                return x
            y = self.mask_value(t.args[2][0], env)
            return {"eq": lambda: x == y, "ne": lambda: x != y, "isin": lambda: x in y, "mod": lambda: x % y}[t.args[1]]()
        if t.op == "cmp":
            a, b = self.mask_value(t.args[1], env), self.mask_value(t.args[2], env)
            try:
                return {"==": lambda: a == b, "!=": lambda: a != b, "in": lambda: a in b, "<": lambda: a < b, "<=": lambda: a <= b, "is": lambda: a is b}[t.args[0]]()
            except (KeyError, TypeError):
                raise Undecided
        if t.op == "bin" and t.args[0] in ("%", "&", "|", "+", "-", "//"):
            a, b = self.mask_value(t.args[1], env), self.mask_value(t.args[2], env)
            try:
                return {"%": lambda: a % b, "&": lambda: a & b, "|": lambda: a | b, "+": lambda: a + b, "-": lambda: a - b, "//": lambda: a // b}[t.args[0]]()
            except (TypeError, ZeroDivisionError):
                raise Undecided
        if t.op == "not" or t.op == "un" and t.args[0] == "~":
            return not self.mask_value(t.args[-1], env)
        if t.op == "bool":
            xs = [self.mask_value(x, env) for x in t.args[1]]
            return all(xs) if t.args[0] == "and" else any(xs)
        return self.T.value(t, env)

    def colname(self, t):
        if t.op in ("sub", "attr"):
            n = t.args[1] if isinstance(t.args[1], str) else cval(t.args[1])
            if isinstance(n, str) and (t.op == "sub" or n not in ("loc", "iloc", "columns", "index", "values", "str")) and self.root(t.args[0]) is self.base:
                return n
        return None

    # --- values
    def ev(self, t, env, d=0):
        if d > 80:
            return UNK
        if t in self.memo and not env:
            return self.memo[t]
        for k, v in env.items():
            if t is k:
                return v
        q = lambda x: self.ev(x, env, d + 1)
        if t.op == "const":
            v = t.args[0]
            return ZERO if v is None or isinstance(v, (int, float)) and (v == 0 or v != v) else UNK
        if t.op == "ext":
            return ZERO if t.args[0].lower().endswith("nan") else UNK
        if t.op == "upd":
            return q(t.args[0])
        n = self.colname(t)
        if n is not None:
            ms = []
            self.root(t.args[0], ms)
            v = self.lookup(n)
            for m in ms:
                v = self.restrict(v, m)
            return v
        if t.op == "sub":
            b = t.args[0]
            hm = self.hms(t, env, d)
            if hm is not None:
                return hm
            lv = self.listed(t, env)
            if lv is not None:
                return lv
            return self.restrict(q(b), t.args[1])
        if t.op == "attr":
            return q(t.args[0]) if t.args[1] in ("values", "dt", "str", "loc", "iloc", "at") else UNK
        if t.op == "meth":
            b, n, a, kw = t.args
            kw = dict(kw)
            if n == "astype" and a:
                v = q(b)
                return v.but(dtype=self.dtype(a[0])) if v.dim not in (None, "zero") else v
            if n in ("where", "mask") and a:
                v = q(b)
                if n == "where":
                    v = self.restrict(v, a[0])
                other = kw.get("other") or (a[1] if len(a) > 1 else None)
                return join(v, q(other) if other is not None else ZERO)
            if n in ("apply", "map", "transform", "agg"):
                x = a[0] if a else kw.get("func")
                if x is None:
                    return UNK
                v = q(b)
                if x.op == "lam":
                    e2 = dict(env)
                    for w in walk(x.args[1]):
                        if w.op == "bv":
                            e2[w] = v
                    return self.ev(x.args[1], e2, d + 1)
                if x.op == "const" and x.args[0] in SAME_M:
                    return v.but(derived=True) if v.dim else v
                return UNK
            if n in SAME_M or n in ("abs",):
                v = q(b)
                return v.but(derived=v.derived or n != "abs") if v.dim not in (None, "zero") else v
            if n in ("mul", "multiply", "div", "divide", "truediv") and len(a) == 1:
                return self.scale(q(b), "*" if n.startswith("mul") else "/", a[0], env, d)
            if n in ("sub", "subtract", "add") and len(a) == 1:
                return join(q(b), q(a[0]))
            if n == "replace" or n in PASS_M:
                return q(b)
            if n == "timestamp":
                v = q(b)
                return v.but(f=1.0) if v.dim == "datetime" else UNK
            if n in ("isoformat", "astimezone", "strftime"):
                return q(b)
            if n == "localize" and a:
                return q(a[0])
            if n in ("total_seconds",):
                v = q(b)
                return V("time", 1.0, heads=v.heads, derived=True) if v.dim == "datetime" else UNK
            return UNK
        if t.op == "call":
            f, a, kw = t.args
            if f.endswith("strptime") and a:
                v = q(a[0])
                return V("datetime", heads=v.heads)
            if f.endswith("fromtimestamp") and a:
                v = q(a[0])
                if v.dim == "datetime" and abs(v.f - 1) > 1e-9:
                    return V(f"datetime read from a clock value off by a factor {v.f:g}", heads=v.heads)
                return V("datetime", heads=v.heads) if v.dim in ("datetime", "time") else UNK
            if f == "numpy.where" and len(a) == 3:
                return join(self.restrict(q(a[1]), a[0]), q(a[2]))
            if f in PASS_C and a:
                return q(a[0])
            if f == "builtins.int" and a:
                v = q(a[0])
                return v.but(dtype="int") if v.dim not in (None, "zero") else v
            if f in ABS_C and a:
                return q(a[0])
            if f in ("numpy.multiply", "numpy.divide", "numpy.true_divide") and len(a) == 2:
                return self.scale(q(a[0]), "*" if f.endswith("multiply") else "/", a[1], env, d)
            if f in ("numpy.subtract", "numpy.add") and len(a) == 2:
                return join(q(a[0]), q(a[1])).but(derived=True)
            return UNK
        if t.op == "bin":
            op, x, y = t.args
            if op in ("*", "/"):
                try:
                    z = self.T.value(x, {})
                    if op == "*" and isinstance(z, (int, float)):
                        return self.scale(q(y), "*", x, env, d)
                except Undecided:
                    pass
                return self.scale(q(x), op, y, env, d)
            if op in ("+", "-"):
                v = join(q(x), q(y))
                return v.but(derived=True) if v.dim not in (None, "zero") else v
            return UNK
        if t.op == "un":
            return q(t.args[1])
        if t.op in ("ite",):
            try:
                return q(t.args[1] if self.T.value(t.args[0], {}) else t.args[2])
            except Undecided:
                return join(q(t.args[1]), q(t.args[2]))
        if t.op == "phi":
            out = ZERO
            for x in t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args:
                if hasattr(x, "op") and x.op != "undef":
                    out = join(out, q(x))
            return out
        if t.op == "mu":
            return q(t.args[-1]) if hasattr(t.args[-1], "op") else UNK
        if t.op == "comp" and t.args[0] == "list" and len(t.args[3]) == 1:
            src = t.args[3][0]
            v = q(src)
            e2 = dict(env)
            elt = t.args[1][0]
            for w in walk(elt):
                if w.op in ("elem",) and w.args[0] is src:
                    e2[w] = v
            return self.ev(elt, e2, d + 1)
        return UNK

    def hms(self, t, env, d):
        """x.split(':')[i] of a h:min:s.ms text"""
        b, i = t.args[0], cval(t.args[1]) if t.args[1].op == "const" else None
        if t.args[1].op == "un" and t.args[1].args[0] == "-":
            i = cval(t.args[1].args[1])
            i = -i if isinstance(i, int) else None
        if b.op == "meth" and b.args[1] == "split" and b.args[2] and cval(b.args[2][0]) == ":" and isinstance(i, int):
            v = self.ev(b.args[0], env, d + 1)
            if v.fmt == "hms":
                return v.but(f={0: 3600.0, 1: 60.0, 2: 1.0}[i % 3], fmt=None)
        return None

    def restrict(self, v, m):
        if v.dim in (None, "zero"):
            return v
        s = self.sides(m) if m.op not in ("const", "slice") else None
        if s is not None and not v.side:
            return v.but(side=s)
        if not v.side and m.op not in ("const", "slice"):
            return v.but(open=True)
        return v

    def scale(self, v, op, k, env, d):
        if v.dim in (None, "zero"):
            return v
        try:
            n = self.T.value(k, {})
        except Undecided:
            n = None
        if isinstance(n, (int, float)) and n:
            return v.but(f=v.f / n if op == "*" else v.f * n, dtype=None)
        w = self.ev(k, env, d + 1)
        if op == "/" and v.dim == "voltage" and w.dim == "current":
            return V("resistance", v.f / w.f, heads=v.heads | w.heads, derived=True)
        if op == "/" and w.dim not in (None, "zero"):
            return V(f"{v.dim} divided by {w.dim}", heads=v.heads | w.heads) if {v.dim, w.dim} == {"voltage", "current"} or v.dim == w.dim else UNK
        return UNK

    def dtype(self, t, env=None):
        if t.op == "ext":
            return t.args[0].split(".")[-1]
        try:
            v = self.T.value(t, env or {})
            return v if isinstance(v, str) else None
        except Undecided:
            return None

    # --- line based readers: columns[name].append(convert(item))
    def collect_lists(self):
        for e in self.evs:
            n = e.target.rsplit(".", 1)[-1] if e.kind == "call" and e.target else ""
            if n == "append" and e.recv is not None and e.recv.op == "sub" and e.recv.args[0].op == "new" and e.args:
                self.lists.setdefault(e.recv.args[0], []).append((e.recv.args[1], e.args[0], e.guards))

    def listed(self, t, env):
        """raw[name] of a dict of lists filled item by item"""
        d, k = t.args
        if d not in self.lists:
            return None
        try:
            h = env[k] if k in env and isinstance(env[k], str) else self.T.value(k, {})
        except Undecided:
            return UNK
        if not isinstance(h, str):
            return UNK
        v = header(h)
        for key, val, guards in self.lists[d]:
            try:
                if not self.reached(guards, {key: h}):
                    continue
                x = self.item_value(val, {key: h})
            except Undecided:
                return UNK
            if v.dim is None:
                return v
            if isinstance(x, int) and not isinstance(x, bool):
                v = v.but(dtype="int", f=v.f / (x / int(RAW)) if x else 0.0)
            elif isinstance(x, float):
                v = v.but(dtype="float", f=v.f / (x / RAW) if x else 0.0)
            else:
                v = v.but(dtype="str")
        return v

    def item_value(self, t, env):
        """number a text item is turned into, the text standing for RAW"""
        if t.op == "call" and t.args[0] in ("builtins.float", "builtins.int") and t.args[1]:
            try:
                x = self.item_value(t.args[1][0], env)
            except Undecided:
                x = "raw"
            x = RAW if x == "raw" else x
            return int(x) if t.args[0].endswith("int") else float(x)
        if t.op == "bin":
            a, b = self.item_value(t.args[1], env), self.item_value(t.args[2], env)
            if "raw" in (a, b):
                raise Undecided
            return {"*": lambda: a * b, "/": lambda: a / b, "+": lambda: a + b, "-": lambda: a - b}.get(t.args[0], self.no)()
        if t.op == "ite":
            return self.item_value(t.args[1] if self.T.value(t.args[0], env) else t.args[2], env)
        if t.op in ("phi",):
            raise Undecided
        try:
            return self.T.value(t, env)
        except Undecided:
            return "raw"

    def reached(self, guards, env):
        for g, pol in guards:
            if any(contains(g, lambda x, k=k: x is k) for k in env):
                try:
                    if bool(self.T.value(g, env)) is not pol:
                        return False
                except Undecided:
                    pass
        return True

    def no(self):
        raise Undecided

    # --- replay
    def replay(self):
        fin = self.final()
        if fin is None:
            return False
        self.collect_lists()
        self.base = self.root(fin)
        used = set(walk(fin))
        src = None
        if self.base.op == "call" and self.base.args[0] == "pandas.DataFrame" and self.base.args[1] and self.base.args[1][0].op in ("new", "comp"):
            src = self.base.args[1][0]
            if src.op == "comp" and src.args[0] == "dict" and len(src.args[1]) == 1 and src.args[1][0].op == "tuple":
                at = next((e for e in self.evs if e.kind == "store" and e.base is src), next((e for e in self.evs if e.kind == "call" and e.result is self.base), None))
                if at is not None:
                    pair = src.args[1][0].args
                    pair = pair[0] if isinstance(pair[0], tuple) else pair
                    self.put_keys(at, pair[0], pair[1], None)
        for e in self.evs:
            if e.kind == "call":
                n = (e.target or "").rsplit(".", 1)[-1]
                if e.recv is None or n not in ("rename", "astype", "drop", "assign") or self.colname(e.recv) is not None:
                    continue
                if self.root(e.recv) is not self.base:
                    continue
                kw = dict(e.kwargs or {})
                if not (cval(kw["inplace"]) if "inplace" in kw else False) and e.result not in used and not any(e.result in set(walk(x.base)) for x in self.evs if x.kind == "store" and x.idx > e.idx and x.base is not None):
                    continue
                arg = kw.get("columns") or kw.get("mapper") or (e.args[0] if e.args else None)
                if n == "rename" and arg is not None:
                    if arg.op == "ext":
                        if arg.args[0].endswith("str.lower") or arg.args[0].endswith("str.strip"):
                            continue
                        return False
                    try:
                        m = self.T.value(arg, {})
                    except Undecided:
                        return False
                    if isinstance(m, dict):
                        self.rename(m)
                        for b in m.values():
                            self.where[b] = e.line
                elif n == "astype" and arg is None:
                    continue
                elif n == "astype":
                    try:
                        m = self.T.value(e.args[0] if e.args else kw.get("dtype"), {})
                    except (Undecided, AttributeError):
                        m = None
                    if isinstance(m, dict):
                        for a, ty in m.items():
                            self.cast(a, ty)
                elif n == "assign":
                    for a, x in kw.items():
                        self.put(a, self.ev(x, {}), None, e.line)
                continue
            if e.kind == "aug" and e.base is not None:
                continue
            if e.kind != "store" or e.how == "attr" or e.base is None:
                continue
            if src is not None and e.base is src:
                self.put_keys(e, e.key, e.value, None)
                continue
            if self.root(e.base) is not self.base:
                if e.base in self.lists and e.base.op == "new":
                    pass
                continue
            row, key = None, e.key
            if key.op == "tuple" or key.op == "idx":
                xs = key.args[0] if len(key.args) == 1 and isinstance(key.args[0], tuple) else key.args
                if len(xs) == 2:
                    row, key = xs
            self.put_keys(e, key, e.value, row)
        return True

    def put_keys(self, e, key, value, row):
        if isinstance(cval(key), str):
            v = self.ev(value, {})
            if row is None:
                self.memo[value] = v
            self.put(cval(key), v, row, e.line)
            return
        if key.op in ("list", "tuple"):
            # several columns at once, from the same columns
            try:
                names = self.T.value(key, {})
            except Undecided:
                return
            for n in names:
                sub_env = {w: self.lookup(n) for w in walk(value) if w.op == "sub" and w.args[1] is key}
                self.put(n, self.ev(value, sub_env) if sub_env else UNK, row, e.line)
            return
        # a loop over a configuration table
        ks = [w for w in walk(key) if w.op in ("keyof", "elem")]
        if not ks:
            return
        src = ks[0].args[0]
        while src.op in ("items", "keysview") or src.op == "meth" and src.args[1] in ("keys", "items"):
            src = src.args[0]
        try:
            table = self.T.value(src, {})
            names = list(table)
        except (Undecided, TypeError):
            return
        before = dict(self.cols)
        for n in names:
            env = {ks[0]: n}
            try:
                target = self.T.value(key, env)
            except Undecided:
                continue
            if not isinstance(target, str):
                continue
            v = self.ev_named(value, env, before)
            if v is not None:
                self.put(target, v, row, e.line)

    def ev_named(self, t, env, before):
        """a column's value when its name is the loop's"""
        if t.op == "meth" and t.args[1] == "astype" and t.args[2]:
            v = self.ev_named(t.args[0], env, before)
            ty = self.dtype(t.args[2][0], env)
            return v.but(dtype=ty) if v is not None and v.dim not in (None, "zero") else v
        if t.op == "sub" and t.args[0] in self.lists:
            return self.listed(t, {k: v for k, v in env.items()})
        if t.op == "sub" and self.root(t.args[0]) is self.base:
            try:
                n = self.T.value(t.args[1], env)
            except Undecided:
                return UNK
            if isinstance(n, str):
                return self.lookup(n)
        if t.op == "bin" and t.args[0] in ("*", "/"):
            v = self.ev_named(t.args[1], env, before)
            try:
                k = self.T.value(t.args[2], env)
            except Undecided:
                return UNK
            if v is not None and v.dim not in (None, "zero") and isinstance(k, (int, float)) and k:
                return v.but(f=v.f / k if t.args[0] == "*" else v.f * k)
        return UNK

    def cast(self, name, ty):
        v = self.lookup(name)
        if v.dim not in (None, "zero"):
            self.cols[name] = v.but(dtype=ty if isinstance(ty, str) else None)

    def put(self, name, v, row, line):
        if row is not None and not (row.op == "slice" and all(cval(x) is None for x in row.args if hasattr(x, "op"))):
            s = self.sides(row)
            if v.dim not in (None, "zero"):
                v = v.but(side=s) if s is not None else v.but(open=True, side=frozenset())
            old = self.cols.get(name, ZERO)
            if name not in STANDARD and {old.dim, v.dim} <= PHYSICAL:
                self.helpers.append((name, old.dim, v, line))
            v = join(old, v)
        elif v.dim == "zero" and name in STANDARD:
            # a placeholder for a column the file does not have
            return
        self.cols[name] = v
        self.where[name] = line
        self.gone.discard(name)


def linear(t):
    """(core, offset) of a row number"""
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = t.args[1], t.args[2]
        if isinstance(cval(b), int):
            x, n = linear(a)
            return x, n + (cval(b) if t.args[0] == "+" else -cval(b))
        if t.args[0] == "+" and isinstance(cval(a), int):
            x, n = linear(b)
            return x, n + cval(a)
    return t, 0


def reads_cycle(t):
    return contains(t, lambda x: x.op == "const" and x.args[0] == "cycle_index")


def row_of(t):
    """row number of a read  table.loc[row, "cycle_index"] / table["cycle_index"][row] / .iloc[row]"""
    if t.op != "sub":
        return None
    k = t.args[1]
    if k.op in ("tuple", "idx"):
        xs = k.args[0] if len(k.args) == 1 and isinstance(k.args[0], tuple) else k.args
        return xs[0] if len(xs) == 2 and cval(xs[1]) == "cycle_index" else None
    return k if reads_cycle(t.args[0]) and not isinstance(cval(k), str) and not reads_cycle(k) else None


def restarts(c, k, L):
    """totals carried from step to step are dropped where the cycle changes"""
    for e in L.evs:
        if e.kind != "store" or e.how == "attr" or e.key is None or e.key.op != "slice" or e.value.op != "bin" or e.value.args[0] != "+":
            continue
        own = [i for i in (1, 2) if contains(e.value.args[i], lambda x: x.op == "sub" and x.args[1] is e.key)]
        if len(own) != 1:
            continue
        total, start = e.value.args[3 - own[0]], e.key.args[0]
        which = "the last, unfinished step" if cval(e.key.args[1]) is None and e.key.args[1].op == "const" else "a step"
        who = f"{k.name}: total carried into {which}"
        for gs, x in guarded_alts(total, e.guards):
            if x.op == "const":
                continue
            tests = [(g, p) for g, p in gs if reads_cycle(g)]
            if reads_cycle(x):
                continue
            ok, msg = bool(tests), f"the total of the earlier steps is added to the rows of {which} without asking whether they belong to another cycle"
            for g, p in tests:
                rows = [row_of(a) for a in g.args[1:3]] if g.op == "cmp" and g.args[0] == "==" else [None]
                if None in rows:
                    continue
                (ca, a), (cb, b), (cs, s) = linear(rows[0]), linear(rows[1]), linear(start)
                if ca is cb is cs and ({a - s, b - s} != {-1, 0} or not p):
                    ok, msg = False, f"the total added to the rows of {which} is dropped by comparing the cycle of other rows than the step's first and the one before it"
            c.ob("restart", who, ok, msg, e.where())


def check(c):
    c.rule("restart", "a total carried over from earlier steps is dropped where the cycle changes: each addition of it is under a comparison of the cycle of the first row and the row before")
    c.rule("quantity", "a standard column of a loaded run is computed from its own quantity's source columns")
    c.rule("unit", "the unit of the source header times all conversions applied on the way equals BEEP's unit")
    c.rule("side", "charge and discharge columns come from that side's source column or from rows selected as that side")
    c.rule("type", "the stored type of a standard column can hold it: no integer or text for a measured quantity, no single precision for clock time")
    c.rule("step table", "the step names of a format agree with their charge/discharge flags")
    base = c.cls("beep.structure.base.BEEPDatapath")
    for k in sorted(c.P.subclasses(base), key=lambda k: k.full):
        if "from_file" not in k.methods or k is base:
            continue
        f = c.P.find_method(k, "from_file")
        L = Loader(c, k, f)
        if not L.replay():
            c.notes.append(f"{k.full}: the loaded table could not be followed")
            continue
        restarts(c, k, L)
        for col, dim, v, line in L.helpers:
            c.ob("quantity", f"{k.name}.{col}", v.dim == dim, f"the {col} column of {k.name} holds {dim}, some of its rows {v.dim} (from {', '.join(sorted(v.heads)) or '?'})", f"{k.module.rel}:{line}")
        for col, dim in STANDARD.items():
            v = L.cols.get(col)
            w = f"{k.module.rel}:{L.where.get(col, f.node.lineno)}"
            who = f"{k.name}.{col}"
            if v is None:
                v = header(col) if col not in L.gone else None      # read straight from the file under BEEP's own name
                if v is None or v.dim != dim:
                    continue
            if v.dim is None or v.dim == "zero":
                c.notes.append(f"{who}: value not followed")
                continue
            hs = ", ".join(sorted(v.heads)) or "?"
            ok = v.dim == dim or dim == "datetime" and v.dim == "time"
            c.ob("quantity", who, ok, f"the {col} column of {k.name} holds {v.dim} (from {hs})", w)
            if not ok:
                continue
            if dim in NAMES:
                c.ob("unit", who, abs(v.f - 1) < 1e-9, f"the {col} column of {k.name} is {v.f:g} times {NAMES[dim]} (from {hs})", w)
            if col in WHICH and not v.derived and v.which:
                c.ob("quantity", who + " kind", v.which == {WHICH[col]}, f"the {col} column of {k.name} holds the {'/'.join(v.which)} time (from {hs})", w)
            if col in SIDE and not (v.open and not v.side):
                c.ob("side", who, v.side == {SIDE[col]}, f"the {col} column of {k.name} holds {'and '.join(sorted(v.side)) or 'both charge and discharge'} values (from {hs})", w)
            ty = v.dtype
            if isinstance(ty, str) and dim not in ("cycle", "step"):
                if dim == "datetime":
                    bad = ty in ("float32", "float16", "int16", "int8", "int32")
                else:
                    bad = ty.startswith(("int", "uint", "bool", "str", "object", "cat", "float16")) or col == "test_time" and ty == "float32"
                c.ob("type", who, not bad, f"the {col} column of {k.name} is stored as {ty}", w)
    cfg = yaml_globals(c).get("NOVONIX_CONFIG")
    if cfg:
        names, flags = cfg[1].get("step_names") or {}, cfg[1].get("step_is_chg") or {}
        for code, n in names.items():
            want = "charge" in n and "discharge" not in n
            c.ob("step table", f"novonix {code} {n}", flags.get(n) is want, f"step {code} ({n}) is recorded as {'charge' if flags.get(n) else 'discharge' if n in flags else 'nothing'}", cfg[0])
    c.need("quantity", 30)
    c.need("unit", 20)
