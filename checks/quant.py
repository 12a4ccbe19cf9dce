"""What a value term is a quantity of: a normal form for arithmetic and statistics over table columns."""
from .common import *

COLS = {"test_time", "cycle_index", "current", "voltage", "charge_capacity", "discharge_capacity", "charge_energy", "discharge_energy", "step_index", "step_time",
        "internal_resistance", "dc_internal_resistance", "temperature", "date_time", "date_time_iso", "data_point", "temperature_maximum", "temperature_average",
        "temperature_minimum", "time_since_cycle_start", "energy_efficiency", "charge_duration", "charge_throughput", "energy_throughput", "paused", "CV_time", "CV_current", "CV_capacity",
        "date_time_iso_x", "date_time_iso_y"}
PASS_M = {"copy", "astype", "round", "to_numpy", "reset_index", "sort_index", "rename", "squeeze", "tolist", "fillna", "ravel", "to_frame", "dropna", "set_axis", "item", "reindex", "values"}
PASS_A = {"values", "array", "dt", "loc", "iloc", "iat", "at", "T"}
STAT_M = {"max", "min", "mean", "median", "first", "last", "sum", "std", "cumsum", "diff", "shift", "abs", "idxmax", "idxmin", "count", "cummax", "prod", "cumprod", "nunique", "var"}
STAT_C = {"numpy.max": "max", "numpy.amax": "max", "numpy.nanmax": "max", "numpy.min": "min", "numpy.amin": "min", "numpy.nanmin": "min", "numpy.mean": "mean", "numpy.nanmean": "mean",
          "numpy.cumsum": "cumsum", "numpy.diff": "diff", "numpy.abs": "abs", "builtins.abs": "abs", "builtins.max": "max", "builtins.min": "min", "numpy.median": "median", "numpy.sum": "sum"}
ARITH_C = {"numpy.subtract": "-", "numpy.divide": "/", "numpy.true_divide": "/", "numpy.add": "+", "numpy.multiply": "*"}
ARITH_M = {"sub": "-", "subtract": "-", "div": "/", "divide": "/", "truediv": "/", "add": "+", "mul": "*", "multiply": "*"}
PASS_C = {"numpy.round", "numpy.around", "builtins.round", "builtins.float", "builtins.int", "pandas.to_datetime", "pandas.Series", "numpy.array", "numpy.asarray", "pandas.to_numeric",
          "builtins.list", "copy.deepcopy", "copy.copy", "pandas.DatetimeIndex"}
TRAPZ = {"scipy.integrate.trapz", "scipy.integrate.trapezoid", "numpy.trapz", "scipy.integrate.simps", "scipy.integrate.simpson", "scipy.integrate.cumtrapz"}
UNKNOWN = ("?",)


def last_index(i):
    return i.op == "const" and i.args[0] == -1 or i.op == "un" and i.args[0] == "-" and cval(i.args[1]) == 1


class Quant:
    """q(term) -> nested tuples; `rows` collects the row conditions met on the way"""

    def __init__(self, cols=COLS, resolve=None):
        self.cols, self.resolve = cols, resolve

    def q(self, t, depth=0):
        if depth > 60:
            return UNKNOWN
        if self.resolve:
            r = self.resolve(t)
            if r is not None:
                return r
        q = lambda x: self.q(x, depth + 1)
        if t.op == "const":
            v = t.args[0]
            return ("num", float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else ("const", v)
        if t.op == "ext" and t.args[0].lower().endswith("nan"):
            return ("nan",)
        if t.op == "upd":
            return q(t.args[0])
        if t.op in ("sub", "attr"):
            b, k = t.args
            name = k if isinstance(k, str) else cval(k)
            if isinstance(name, str) and name in self.cols:
                return self.column(b, name, depth)
            if t.op == "attr":
                return q(b) if k in PASS_A else UNKNOWN
            # element or row selection
            if last_index(k):
                return wrap("last", q(b))
            if cval(k) == 0 and type(cval(k)) is int:
                return wrap("first", q(b))
            if k.op in ("const",) and not isinstance(cval(k), (int, slice)):
                return UNKNOWN
            if k.op == "const":
                return wrap("item%s" % cval(k), q(b))
            return q(b)
        if t.op == "meth":
            b, n, a, kw = t.args
            kw = dict(kw)
            if n in ("agg", "aggregate", "transform", "apply"):
                f = a[0] if a else kw.get("func")
                if f is not None and f.op == "const" and isinstance(f.args[0], str):
                    return wrap(f.args[0], q(b))
                if f is not None and f.op == "lam":
                    return q(f.args[1])
                return UNKNOWN
            if n in STAT_M:
                x = q(b)
                if n in ("shift", "diff") and a and cval(a[0]) != 1:
                    return UNKNOWN if a[0].op != "const" else ("neg" + n, x)
                return wrap(n, x)
            if n in ARITH_M and len(a) == 1:
                return (ARITH_M[n], q(b), q(a[0]))
            if n == "total_seconds":
                return ("seconds", q(b))
            if n in PASS_M:
                return q(b)
            if n == "get" and a and cval(a[0]) in self.cols:
                return self.column(b, cval(a[0]), depth)
            if n in ("query", "head", "sort_values", "drop_duplicates", "where", "mask", "replace", "set_index", "groupby"):
                return q(b)
            return UNKNOWN
        if t.op == "call":
            f, a, kw = t.args
            kw = dict(kw)
            if f in TRAPZ:
                x = kw.get("x") or (a[1] if len(a) > 1 else None)
                y = kw.get("y") or (a[0] if a else None)
                return ("integral", q(y), q(x) if x is not None else ("none",))
            if f in ARITH_C and len(a) == 2:
                return (ARITH_C[f], q(a[0]), q(a[1]))
            if f in STAT_C and len(a) == 1:
                return wrap(STAT_C[f], q(a[0]))
            if f in PASS_C and a:
                return q(a[0])
            if f in ("numpy.timedelta64", "datetime.timedelta", "pandas.Timedelta"):
                if len(a) == 2 and cval(a[0]) == 1 and cval(a[1]) == "s" or dict(kw).get("seconds") is const(1) or len(a) == 1 and cval(a[0]) in ("1s", "1 s"):
                    return ("1s",)
                if len(a) == 2 and cval(a[0]) == 1 and cval(a[1]) == "m" or dict(kw).get("minutes") is const(1):
                    return ("1min",)
                return UNKNOWN
            return UNKNOWN
        if t.op == "bin":
            op, x, y = t.args
            x, y = q(x), q(y)
            if op == "/" and y == ("1s",):
                return ("seconds", x)
            if op == "/" and y == ("1min",):
                return ("/", ("seconds", x), ("num", 60.0))
            return (op, x, y)
        if t.op == "un" and t.args[0] == "-":
            return ("neg", q(t.args[1]))
        if t.op in ("ite", "phi"):
            xs = {q(x) for _, x in guarded_alts(t)} - {("nan",), ("const", None)}
            return xs.pop() if len(xs) == 1 else UNKNOWN
        return UNKNOWN

    def column(self, b, name, depth):
        return ("col", name)


def wrap(stat, x):
    return x if x == UNKNOWN else (stat, x)


def unknown(q):
    return q == UNKNOWN or isinstance(q, tuple) and any(unknown(x) for x in q[1:] if isinstance(x, tuple))


def columns_in(t, cols=COLS):
    """the columns a term reads anywhere"""
    out = set()
    for x in walk(t):
        if x.op == "attr" and x.args[1] in cols:
            out.add(x.args[1])
        elif x.op in ("sub", "get") and x.args[1].op == "const" and isinstance(x.args[1].args[0], str) and x.args[1].args[0] in cols:
            out.add(x.args[1].args[0])
        elif x.op == "sub" and x.args[1].op in ("list", "tuple"):
            for y in walk(x.args[1]):
                if y.op == "const" and isinstance(y.args[0], str) and y.args[0] in cols:
                    out.add(y.args[0])
    return out


def text(q):
    if not isinstance(q, tuple):
        return str(q)
    if q[0] == "col":
        return q[1]
    if q[0] == "num":
        return f"{q[1]:g}"
    if q[0] in ("-", "/", "+", "*") and len(q) == 3:
        return f"({text(q[1])} {q[0]} {text(q[2])})"
    return q[0] + ("(" + ", ".join(text(x) for x in q[1:]) + ")" if len(q) > 1 else "")
