"""P26: identical requests give identical results."""
import ast

from .common import *

EXPLANATION = ("Every function and method of the package (infrastructure utilities and tests aside) is interpreted abstractly with its callees inlined, and every event is searched "
               "for sources of variation: random generators and randomised estimators without a seed from the caller or a constant, the clock, the machine's time zone, process "
               "identity, and iteration orders of sets and directory listings. Each such value is followed to where it ends up; only documented timestamps, timings, log lines and "
               "default file names may depend on it, and an unordered collection may only reach an ordered result through sorted().")

# called with random_state; what must be true for it to matter: True always, or (keyword, predicate on its constant, default)
SEEDED = {"train_test_split": True, "ShuffleSplit": True, "StratifiedShuffleSplit": True, "GroupShuffleSplit": True, "RepeatedKFold": True, "RepeatedStratifiedKFold": True,
          "RandomForestRegressor": True, "RandomForestClassifier": True, "ExtraTreesRegressor": True, "GradientBoostingRegressor": True, "BaggingRegressor": True, "AdaBoostRegressor": True,
          "MLPRegressor": True, "SGDRegressor": True, "KMeans": True, "MiniBatchKMeans": True, "IsolationForest": True, "resample": True, "permutation_importance": True, "RandomizedSearchCV": True,
          "IterativeImputer": ("sample_posterior", lambda v: v is True, False), "DecisionTreeRegressor": True, "QuantileTransformer": True, "shuffle": True,
          "KFold": ("shuffle", lambda v: v is not False, False), "StratifiedKFold": ("shuffle", lambda v: v is not False, False),
          "Lasso": ("selection", lambda v: v != "cyclic", "cyclic"), "LassoCV": ("selection", lambda v: v != "cyclic", "cyclic"), "ElasticNet": ("selection", lambda v: v != "cyclic", "cyclic"),
          "ElasticNetCV": ("selection", lambda v: v != "cyclic", "cyclic"), "MultiTaskElasticNet": ("selection", lambda v: v != "cyclic", "cyclic"),
          "MultiTaskElasticNetCV": ("selection", lambda v: v != "cyclic", "cyclic"), "Ridge": ("solver", lambda v: v in ("sag", "saga"), "auto")}
GENERATORS = {"numpy.random.default_rng", "numpy.random.RandomState", "random.Random", "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64"}
CLOCK = {"datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns",
         "pandas.Timestamp.now", "pandas.Timestamp.utcnow", "pandas.Timestamp.today", "time.asctime", "time.gmtime", "time.localtime", "time.strftime", "time.ctime", "os.path.getmtime", "os.path.getctime", "os.path.getatime"}
ARITY = {"time.asctime": 1, "time.gmtime": 1, "time.localtime": 1, "time.strftime": 2, "time.ctime": 1}      # with that many arguments: not the clock
ZONE = {"time.mktime": "the machine's time zone", "time.localtime": "the machine's time zone", "time.ctime": "the machine's time zone"}
PROCESS = {"builtins.hash", "builtins.id", "uuid.uuid4", "uuid.uuid1", "os.getpid", "os.getppid", "socket.gethostname", "os.urandom", "secrets.token_hex", "secrets.token_bytes", "secrets.randbelow", "os.getlogin", "getpass.getuser", "platform.node"}
LISTING = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob"}
DATA_TIMES = {"date_time", "date_time_iso", "test_time", "step_time"}
INSENSITIVE_C = {"builtins.sorted", "builtins.len", "builtins.set", "builtins.frozenset", "builtins.min", "builtins.max", "builtins.sum", "builtins.any", "builtins.all", "builtins.bool", "numpy.unique",
                 "builtins.isinstance", "numpy.sort", "numpy.max", "numpy.min", "natsort.natsorted", "pandas.isnull", "builtins.print", "builtins.dict", "collections.Counter", "builtins.type", "warnings.warn"}
INSENSITIVE_M = {"intersection", "union", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "isin", "update", "add", "discard", "difference_update", "intersection_update", "count",
                 "sort", "__contains__", "sum", "max", "min", "nunique", "drop", "warning", "info", "debug", "error", "exception", "equals", "copy", "remove"}
SETLIKE_C = {f"builtins.{k}.{m}" for k in ("set", "frozenset") for m in ("union", "intersection", "difference", "symmetric_difference")}
SETLIKE_M = {"intersection", "union", "difference", "symmetric_difference"}
PASS_C = {"builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "builtins.reversed", "builtins.filter", "builtins.map", "builtins.zip", "itertools.chain", "tqdm.tqdm", "tqdm", "numpy.array", "numpy.asarray"}
SKIP = ("beep.utils", "beep.tests")
SINGLE = set()      # listings shown to hold at most one entry


def scope(f):
    m = f.module.name
    return not (any(m == s or m.startswith(s + ".") for s in SKIP) and m not in ("beep.utils", "beep.utils.parameters_lookup"))


def clock(t):
    """is the term itself a reading of the clock?"""
    if t.op == "call" and t.args[0] in CLOCK:
        return t.args[0] not in ARITY or len(t.args[1]) < ARITY[t.args[0]]
    return t.op == "meth" and t.args[1] in ("now", "utcnow", "today") and t.args[0].op in ("ext", "global", "module")


def unordered(t, d=0):
    if d > 20:
        return None
    if t.op == "set" or t.op == "comp" and t.args[0] == "set":
        xs = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) else t.args
        return None if t.op == "set" and len(xs) < 2 else "a set"
    if t.op == "new" and t.args[0] == "set":
        return "a set"
    if t in SINGLE:
        return None
    if t.op == "star":
        return unordered(t.args[0], d + 1)
    if t.op == "call":
        if t.args[0] in ("builtins.set", "builtins.frozenset"):
            return "a set" if t.args[1] else None
        if t.args[0] in SETLIKE_C:
            return "a set"
        if t.args[0] in LISTING:
            return "a directory listing"
    if t.op == "meth":
        if t.args[1] in SETLIKE_M or t.args[1] == "copy":
            return unordered(t.args[0], d + 1)
        if t.args[1] in ("iterdir", "rglob") or t.args[1] == "glob" and "Path" in show(t.args[0], 4):
            return "a directory listing"
    if t.op == "bin" and t.args[0] in ("|", "&", "-", "^", "+"):
        return unordered(t.args[1], d + 1) or (unordered(t.args[2], d + 1) if t.args[0] != "-" else None)
    if t.op == "call" and t.args[0] in PASS_C and t.args[1]:
        return unordered(t.args[1][0], d + 1)
    if t.op in ("ite", "phi"):
        for x in t.args:
            if hasattr(x, "op"):
                u = unordered(x, d + 1)
                if u:
                    return u
    if t.op == "comp" and t.args[0] in ("list", "gen", "dict"):
        for s in t.args[3]:
            u = unordered(s, d + 1)
            if u:
                return u
    if t.op in ("items", "keysview", "valuesview") or t.op == "meth" and t.args[1] in ("items", "keys", "values") and not t.args[2]:
        if t.args[0].op == "comp" and t.args[0].args[0] == "dict":
            return unordered(t.args[0], d + 1)
    return None


def singles(evs):
    """the collections an assertion or a refusal shows to hold at most one entry"""
    for e in evs:
        if e.kind == "assert" and e.value is not None:
            yield from bounded(e.value, True)
        for g, p in e.guards:
            if e.kind == "raise":
                yield from bounded(g, not p)
            else:
                yield from exactly(g, p)


def bounded(t, pol):
    if t.op == "not":
        yield from bounded(t.args[0], not pol)
    elif t.op == "bool" and (t.args[0] == "and") == pol:
        for x in t.args[1]:
            yield from bounded(x, pol)
    elif t.op == "cmp":
        yield from limit(t, pol)


def exactly(t, pol):
    """a guard that only runs with at most one entry (a listing indexed under it)"""
    yield from bounded(t, pol)


def limit(t, pol):
    op, a, b = t.args
    la, lb = a.op == "call" and a.args[0] == "builtins.len", b.op == "call" and b.args[0] == "builtins.len"
    if la and op in ("==",) and pol and cval(b) in (0, 1):
        yield a.args[1][0]
    elif lb and op in ("==",) and pol and cval(a) in (0, 1):
        yield b.args[1][0]
    elif la and ((op == "<=" and cval(b) == 1) or (op == "<" and cval(b) == 2)) and pol:
        yield a.args[1][0]
    elif lb and ((op == "<" and cval(a) == 1) or (op == "<=" and cval(a) == 2)) and not pol:
        yield b.args[1][0]


def children(t):
    for a in t.args:
        if hasattr(a, "op"):
            yield a
        elif isinstance(a, tuple):
            st = list(a)
            while st:
                x = st.pop()
                if hasattr(x, "op"):
                    yield x
                elif isinstance(x, tuple):
                    st.extend(x)


def ordered_use(t, seen=None):
    """a use of an unordered collection whose order shows in the result: (collection kind, term) or None"""
    seen = set() if seen is None else seen
    if t in seen:
        return None
    seen.add(t)
    if t.op == "call" and (t.args[0] in INSENSITIVE_C or t.args[0] in SETLIKE_C):
        for x in children(t):
            r = inside(x, seen)
            if r:
                return r
        return None
    if t.op == "meth" and t.args[1] in INSENSITIVE_M:
        for x in children(t):
            r = inside(x, seen)
            if r:
                return r
        return None
    if t.op == "cmp" or t.op in ("not", "bool"):
        for x in children(t):
            r = inside(x, seen)
            if r:
                return r
        return None
    if t.op == "comp" and t.args[0] in ("set", "dict"):
        for x in children(t):
            r = inside(x, seen)
            if r:
                return r
        return None
    if t.op == "comp" and t.args[0] in ("list", "gen"):
        for s in t.args[3]:
            u = unordered(s)
            if u:
                return u, t
    if t.op == "call" and t.args[0] in ("builtins.list", "builtins.tuple", "numpy.array", "pandas.DataFrame", "pandas.Series", "pandas.Index", "builtins.next", "numpy.asarray", "builtins.enumerate", "builtins.iter", "itertools.chain") and t.args[1]:
        u = unordered(t.args[1][0])
        if u:
            return u, t
    if t.op == "meth" and t.args[1] == "join" and t.args[2]:
        u = unordered(t.args[2][0])
        if u:
            return u, t
    if t.op == "meth" and t.args[1] == "pop" and unordered(t.args[0]) == "a set":
        return "a set", t
    if t.op == "sub" and unordered(t.args[0]) == "a directory listing" and cval(t.args[1]) in (0, -1):
        return "a directory listing", t
    for x in children(t):
        r = ordered_use(x, seen)
        if r:
            return r
    return None


def inside(x, seen):
    """below an order-insensitive consumer: the collection itself is fine, deeper uses are not"""
    if unordered(x):
        for y in children(x):
            r = inside(y, seen)
            if r:
                return r
        return None
    return ordered_use(x, seen)


def default_node(f, name):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d.get(name)


def seed_problem(c, f, k, t, d=0):
    """why a seed is not a caller's or a fixed one"""
    if t.op == "const":
        return "None" if t.args[0] is None else None
    if any(clock(x) for x in walk(t)):
        return "taken from the clock"
    for x in walk(t):
        if x.op == "call" and (x.args[0] in PROCESS or x.args[0].startswith(("random.", "numpy.random."))):
            return f"taken from {x.args[0]}"
    if t.op == "param":
        n = default_node(f, t.args[0])
        return "None unless the caller gives one" if isinstance(n, ast.Constant) and n.value is None else None
    if t.op == "attr" and d < 3 and k is not None and t.args[0].op in ("param", "self"):
        init = c.P.find_method(k, "__init__")
        if init is not None:
            it = c.interp()
            me = mk("param", "self")
            _, st, _ = c.run(it, init, self_node=me, cls=k)
            v = st.heap.get(attr(me, t.args[1]))
            if v is not None and v is not t:
                return seed_problem(c, init, k, v, d + 1)
    return None


def defaults(c):
    """the text of a featurizer's default hyperparameters is part of its column names"""
    base = c.cls("beep.features.base.BEEPFeaturizer")
    for k in [base] + list(c.P.subclasses(base)):
        a = c.P.find_attr(k, "DEFAULT_HYPERPARAMETERS")
        if a is None or a[1] is None:
            continue
        bad = [n for n in ast.walk(a[1]) if isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset", "object")]
        c.ob("order", f"{k.name}.DEFAULT_HYPERPARAMETERS", not bad, "a default hyperparameter is a set, whose text, hashed into column names, has no fixed order", f"{k.module.path if hasattr(k.module, 'path') else k.module.name}:{bad[0].lineno if bad else 0}")


def check(c):
    c.rule("seed", "every random step gets its seed from the caller or a constant")
    c.rule("clock", "the clock reaches nothing but documented timestamps, timings, log lines and default file names")
    c.rule("time zone", "no result depends on the time zone of the machine")
    c.rule("identity", "no result depends on object identities, hashes, the process or the machine")
    c.rule("order", "no ordered result takes its order from a set or a directory listing")
    P = c.P
    done = set()
    for f in P.all_funcs():
        if not scope(f) or isinstance(f.node, ast.Lambda):
            continue
        it = c.interp()
        k = f.cls
        me = mk("param", "self") if k is not None and not f.is_static and not f.is_classmethod else None
        _, st, evs = c.run(it, f, self_node=me, cls=k) if me is not None else c.run(it, f, cls=k)
        SINGLE.clear()
        SINGLE.update(singles(evs))
        own = [e for e in evs if e.fn.full == f.full or e.fn.full.startswith(f.full + ".<")]
        for r in ("seed", "clock", "time zone", "identity", "order"):
            c.ob(r, f.full, True)
        for e in own:
            if e.kind == "call":
                one(c, f, k, e)
        clocks(c, f, own)
        orders(c, f, own, it)
    defaults(c)
    c.need("clock", 300)


def full_target(e):
    t = e.target if isinstance(e.target, str) else ""
    if e.recv is not None and e.recv.op in ("ext", "module", "global"):
        return e.recv.args[0] + "." + t
    return t


def one(c, f, k, e):
    t = full_target(e)
    last = t.rsplit(".", 1)[-1]
    kw = dict(e.kwargs or {})
    if t in GENERATORS:
        s = e.args[0] if e.args else kw.get("seed") or kw.get("x")
        p = "missing" if s is None else seed_problem(c, f, k, s)
        c.ob("seed", f"{f.qual}: {last}", p is None, f"the seed of {t} is {p}", e.where())
    elif t.startswith(("numpy.random.", "random.")) and last not in ("seed", "set_state", "get_state", "setstate", "getstate"):
        c.ob("seed", f"{f.qual}: {last}", False, f"{t} draws from the process-wide generator, whose state depends on what ran before", e.where())
    elif t.startswith(("scipy.stats.",)) and last in ("rvs",) or last in ("rvs",) and e.recv is not None:
        s = kw.get("random_state")
        p = "missing" if s is None else seed_problem(c, f, k, s)
        c.ob("seed", f"{f.qual}: {last}", p is None, f"the random_state of {t} is {p}", e.where())
    elif last in SEEDED and t.startswith("sklearn."):
        cond = SEEDED[last]
        need = True
        if cond is not True:
            n, test, dflt = cond
            v = kw.get(n)
            need = test(dflt if v is None else cval(v))
        star = any(str(a).startswith("**") or a is None for a in kw) or any(a.op == "star" for a in e.args)
        if need and not star:
            s = kw.get("random_state")
            p = "missing" if s is None else seed_problem(c, f, k, s)
            c.ob("seed", f"{f.qual}: {last}", p is None, f"the random_state of {last} is {p}", e.where())
    elif last == "sample" and e.recv is not None and e.recv.op not in ("ext", "module") and ("n" in kw or "frac" in kw or e.args):
        s = kw.get("random_state")
        p = "missing" if s is None else seed_problem(c, f, k, s)
        c.ob("seed", f"{f.qual}: sample", p is None, f"the random_state of sample() is {p}", e.where())
    if t in ZONE and (t not in ARITY or len(e.args) >= ARITY[t]):
        c.ob("time zone", f"{f.qual}: {last}", False, f"{t} reads its argument in {ZONE[t]}", e.where())
    if t.endswith("datetime.fromtimestamp") and t.startswith("datetime") and len(e.args) < 2 and "tz" not in kw:
        c.ob("time zone", f"{f.qual}: {last}", False, f"{t} without a time zone converts to the machine's", e.where())
    if last == "astimezone" and e.recv is not None and not e.args and "tz" not in kw:
        c.ob("time zone", f"{f.qual}: {last}", False, "astimezone() without a time zone converts to the machine's", e.where())
    if last == "timestamp" and e.recv is not None and not e.args:
        if naive(e.recv):
            c.ob("time zone", f"{f.qual}: {last}", False, "timestamp() of a date without a time zone reads it in the machine's", e.where())
    if last in ("apply", "map", "transform", "agg", "applymap") and e.recv is not None:
        mapped(c, f, e)
    if t in PROCESS:
        c.ob("identity", f"{f.qual}: {last}", False, f"{t} differs from process to process", e.where())


def mapped(c, f, e):
    """a function applied to each entry of a column of dates without a zone"""
    fns = [a for a in list(e.args) + list((e.kwargs or {}).values()) if hasattr(a, "op") and a.op == "lam"]
    for fn in fns:
        for x in walk(fn):
            if x.op == "meth" and x.args[1] in ("timestamp", "astimezone") and not x.args[2] and not x.args[3]:
                inner = [y for y in walk(x.args[0])]
                # the entries of a column are pandas timestamps, read as UTC; a date parsed here is not
                if naive(x.args[0]):
                    c.ob("time zone", f"{f.qual}: {x.args[1]}", False, f"{x.args[1]}() of a date without a time zone reads it in the machine's", e.where())


def parses(x):
    if x.op == "call":
        return x.args[0].endswith(("strptime", "fromisoformat", "utcfromtimestamp", "datetime.datetime", "dateutil.parser.parse"))
    return x.op == "meth" and x.args[1] == "strptime"


def zoning(x):
    if x.op == "call" and x.args[0].endswith("datetime.datetime") and "tzinfo" in dict(x.args[2]):
        return True
    return x.op == "meth" and (x.args[1] in ZONED or x.args[1] == "replace" and "tzinfo" in dict(x.args[3]))


ZONED = {"localize", "astimezone", "tz_localize", "tz_convert"}


def naive(t):
    """a date parsed from text (or stripped of its pandas type) and given no time zone; pandas timestamps without a zone are read as UTC"""
    top = t
    while top.op == "meth" and top.args[1] in ("replace", "round", "floor"):
        top = top.args[0]
    xs = list(walk(t))
    if any(zoning(x) for x in xs):
        return False
    if any(x.op == "meth" and x.args[1] in ("to_pydatetime", "pydatetime") for x in xs):
        return True
    if any(x.op == "call" and x.args[0] in ("pandas.to_datetime", "pandas.Timestamp", "pandas.date_range", "pandas.DatetimeIndex") for x in xs):
        return False
    return parses(top)


def clocks(c, f, own):
    for e in own:
        ts = []
        if e.kind == "store":
            if e.value is None:
                continue
            if shown(e.value):
                name = cval(e.key) if e.key is not None else None
                ok = isinstance(name, str) and name not in DATA_TIMES and any(w in name.lower() for w in ("time", "date", "duration", "elapsed"))
                ok = ok or file_name(e.value)
                c.ob("clock", f"{f.qual}: {name if isinstance(name, str) else 'store'}", ok, f"{show(e.key, 3) if e.key is not None else '?'} is set from the clock", e.where())
            if e.key is not None and e.how != "attr" and shown(e.key) and not file_name(e.key):
                c.ob("clock", f"{f.qual}: key", False, "a key is made from the clock", e.where())
        elif e.kind == "return" and e.value is not None and shown(e.value):
            c.ob("clock", f"{f.qual}: return", file_name(e.value), "the result is made from the clock", e.where())
        elif e.kind in ("raise",) or e.kind == "test":
            pass
        for g, _ in e.guards:
            if any(clock(x) for x in walk(g)) and e.kind in ("store", "return", "raise"):
                c.ob("clock", f"{f.qual}: branch", False, f"a branch depends on the clock ({show(g, 3)})", e.where())


def shown(t):
    return any(clock(x) for x in walk(t))


def file_name(t):
    """text that ends in a file extension, or a path: a default file name"""
    def texts(x):
        for y in walk(x):
            if y.op == "const" and isinstance(y.args[0], str):
                yield y.args[0]
    return any(s.strip().lower().endswith((".csv", ".json", ".gz", ".json.gz", ".log", ".txt", ".yaml", ".yml", ".zip", ".sdu", ".000", ".mps")) for s in texts(t))


APPENDS = {"append", "extend", "insert", "write", "writelines", "writerow", "appendleft"}


def orders(c, f, own, it):
    reported = set()
    for e in own:
        # loops over unordered collections with ordered effects
        for ctx in e.ctx:
            if ctx[0] == "loop" and ctx[2] is not None and hasattr(ctx[2], "op"):
                u = unordered(ctx[2])
                if not u:
                    continue
                bad = None
                if e.kind == "call" and isinstance(e.target, str) and e.target.rsplit(".", 1)[-1] in APPENDS and e.recv is not None:
                    bad = f"{e.target} in a loop over {u}"
                elif e.kind == "yield":
                    bad = f"yields in a loop over {u}"
                elif e.kind == "aug" and e.value is not None and getattr(e.value, "op", "") == "list":
                    bad = f"extends a list in a loop over {u}"
                if bad and ("loop", ctx[1]) not in reported and not later_sorted(own, e.recv if e.kind == "call" else None):
                    reported.add(("loop", ctx[1]))
                    c.ob("order", f"{f.qual}: loop over {show(ctx[2], 2)[:60]}", False, bad, e.where())
        vals = []
        if e.kind in ("store", "return", "yield") and e.value is not None:
            vals = [e.value]
        if e.kind == "call":
            # otherwise judged where its result ends up
            vals = list(e.args) if isinstance(e.target, str) and e.target.rsplit(".", 1)[-1] in APPENDS and e.recv is not None else []
        for v in vals:
            r = ordered_use(v)
            if r and r[1] not in reported:
                reported.add(r[1])
                c.ob("order", f"{f.qual}: {show(r[1], 2)[:70]}", False, f"the order of {r[0]} shows in {'the result' if e.kind == 'return' else show(e.key, 2) if e.kind == 'store' and e.key is not None else 'what is produced'}", e.where())


def later_sorted(own, t):
    if t is None:
        return False
    for e in own:
        if e.kind == "call" and isinstance(e.target, str):
            if e.target == "builtins.sorted" and e.args and (e.args[0] is t or contains(e.args[0], lambda x: x is t)):
                return True
            if e.target.rsplit(".", 1)[-1] == "sort" and e.recv is t:
                return True
    return False
