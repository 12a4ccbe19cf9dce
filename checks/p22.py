"""P22: detected errors are reported."""
import ast
import builtins

from .common import *

EXPLANATION = ("Syntax-tree analysis of every function: each construction of an exception is followed to a raise or a record, every exception handler is classified "
               "by what it catches and by where the caught error goes, validation verdicts must be used, and error-suppressing options of parsers are refused.")

BROAD = {"Exception", "BaseException"}
TALK = {"print", "warn", "warning", "error", "info", "debug", "critical", "exception", "log", "echo", "secho", "write", "str", "repr", "format"}
EXCINFO = {"sys.exc_info", "traceback.format_exc", "traceback.format_exception", "traceback.TracebackException", "sys.last_value", "sys.exception"}


def dname(n):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return ".".join([n.id] + p[::-1])
    return None


class Mod:
    made = {}

    @classmethod
    def of(cls, c, m):
        if m not in cls.made:
            cls.made[m] = cls(c, m)
        return cls.made[m]

    def callee(self, call):
        """(Mod, function node) of a call to a function of the project"""
        d = dname(call.func)
        if not d:
            return None
        head, _, rest = d.partition(".")
        f = None
        if head in ("self", "cls") and rest and "." not in rest:
            k = self.within(call, ast.ClassDef)
            k = self.m.classes.get(k.name) if k is not None else None
            f = self.c.P.find_method(k, rest) if k is not None else None
        else:
            f = self.c.P.lookup_in(self.m, d)
            fn = self.func(call)[1]
            if f is None and not rest and fn is not self.m.tree:
                for x in ast.walk(fn):
                    if isinstance(x, ast.FunctionDef) and x.name == d and x is not fn:
                        return self, x
        if isinstance(f, Func):
            return Mod.of(self.c, f.module), f.node
        return None

    def raises(self, n, depth=2):
        """does the statement raise, itself or through a function it calls"""
        for x in own(n):
            if isinstance(x, ast.Raise):
                return True
            if depth and isinstance(x, ast.Call):
                g = self.callee(x)
                if g and any(g[0].raises(b, depth - 1) for b in g[1].body):
                    return True
        return False

    def __init__(self, c, m):
        self.c, self.m = c, m
        self.parent = {}
        for n in ast.walk(m.tree):
            for x in ast.iter_child_nodes(n):
                self.parent[x] = n

    def exc_class(self, n):
        """name of the exception class an expression denotes"""
        d = dname(n)
        if not d:
            return None
        head = d.split(".")[0]
        if head in self.m.imports or head in self.m.classes:
            r = self.c.P.lookup_in(self.m, d)
            if isinstance(r, Class):
                return d if self.is_exc(r) else None
            last = d.split(".")[-1]
            if head in self.m.imports and (last.endswith("Error") or last.endswith("Exception")) and last[0].isupper():
                return d
            return None
        b = getattr(builtins, d, None)
        if isinstance(b, type) and issubclass(b, BaseException) and not issubclass(b, Warning) and head not in self.m.assigns and head not in self.m.funcs:
            return d
        return None

    def is_exc(self, k, depth=0):
        if depth > 6:
            return False
        for b in k.node.bases:
            d = dname(b)
            if not d:
                continue
            r = self.c.P.lookup_in(k.module, d)
            if isinstance(r, Class):
                if self.is_exc(r, depth + 1):
                    return True
            else:
                x = getattr(builtins, d.split(".")[-1], None)
                if isinstance(x, type) and issubclass(x, BaseException) and not issubclass(x, Warning):
                    return True
                if d.split(".")[-1].endswith(("Error", "Exception")):
                    return True
        return False

    def stmt(self, n):
        while n in self.parent and not isinstance(n, ast.stmt):
            n = self.parent[n]
        return n

    def func(self, n):
        names, scope = [], None
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(n.name)
                if scope is None and not isinstance(n, ast.ClassDef):
                    scope = n
        return ".".join(reversed(names)) or "<module>", scope or self.m.tree

    def where(self, n):
        return f"{self.m.rel}:{n.lineno} in {self.func(n)[0]}"

    def within(self, n, cls):
        while n in self.parent:
            n = self.parent[n]
            if isinstance(n, cls):
                return n
        return None


def check(c):
    c.rule("raised", "every exception that is constructed is raised, or stored or handed on as the record of the failure")
    c.rule("caught", "every handler re-raises, ends the command with a failing code, records the error, or answers the specific exception it names with a specific fallback")
    c.rule("not-overridden", "no finally clause or suppressing context discards an exception in flight")
    c.rule("verdict-used", "the verdict of a validation is used")
    c.rule("strict-parsing", "no parser is told to skip or blank out what it cannot read")
    c.rule("refused", "every documented refusal is raised under a condition on the thing it is about")
    c.rule("asserts-test", "assert statements test a condition")
    nf = 0
    for name in sorted(c.P.modules):
        m = c.P.modules[name]
        M = Mod.of(c, m)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nf += 1
                c.functions.add(name + "." + (M.func(n)[0] + "." if M.func(n)[0] != "<module>" else "") + n.name)
            constructed(c, M, n)
            if isinstance(n, ast.ExceptHandler):
                handler(c, M, n)
            if isinstance(n, (ast.Try,)) and n.finalbody:
                bad = [x for b in n.finalbody for x in own(b) if isinstance(x, (ast.Return, ast.Break, ast.Continue))]
                c.ob("not-overridden", f"{M.func(n)[0]}:finally", not bad, "a finally clause leaves with return/break/continue and drops the exception", M.where(n))
            if isinstance(n, ast.Call):
                calls(c, M, n)
                logged(c, M, n)
            if isinstance(n, ast.Assert):
                t = n.test
                ok = not (isinstance(t, ast.Tuple) and t.elts) and not (isinstance(t, ast.Constant) and isinstance(t.value, str))
                c.ob("asserts-test", f"{M.func(n)[0]}:{len(ast.unparse(t))}", ok, "the assertion is always true", M.where(n))
    refusals(c)
    c.need("raised", 20)
    c.need("caught", 15)


def own(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        return
    for x in ast.iter_child_nodes(n):
        yield from own(x)


# ---------------------------------------------------------------- constructed
def constructed(c, M, n):
    if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
        k = M.exc_class(n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
        if k:
            c.ob("raised", f"{M.func(n)[0]}:{k}", False, f"{k} is named but not raised", M.where(n))
        return
    if not isinstance(n, ast.Call):
        return
    k = M.exc_class(n.func)
    if not k:
        return
    fate = destiny(M, n)
    c.ob("raised", f"{M.func(n)[0]}:{k}", fate is None, f"{k} is constructed {fate}", M.where(n))


def destiny(M, n):
    """None when the exception object is raised or recorded, else what becomes of it"""
    p = M.parent.get(n)
    while isinstance(p, (ast.IfExp, ast.Starred)):
        n, p = p, M.parent.get(p)
    if isinstance(p, ast.Raise):
        return None
    if isinstance(p, ast.Attribute) and p.attr == "with_traceback":
        return destiny(M, M.parent[p])
    if isinstance(p, ast.Expr):
        return "and dropped"
    if isinstance(p, (ast.Call, ast.keyword)):
        call = p if isinstance(p, ast.Call) else M.parent[p]
        d = (dname(call.func) or "").split(".")[-1]
        if d in TALK:
            return f"and only passed to {d}()"
        return None
    if isinstance(p, ast.Return):
        fn = M.func(p)[1]
        if fn is not M.m.tree:
            for mod in M.c.P.modules.values():
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call) and (dname(x.exc.func) or "").split(".")[-1] == fn.name:
                        return None   # a function that builds the error its callers raise
        return "and returned as if it were a result"
    if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
        ts = p.targets if isinstance(p, ast.Assign) else [p.target]
        names = [t.id for t in ts if isinstance(t, ast.Name)]
        if names and all(isinstance(t, ast.Name) for t in ts):
            fn = M.func(p)[1]
            uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load)]
            if not uses:
                return f"in {names[0]}, which is never used"
            fates = [destiny(M, u) if not isinstance(M.parent.get(u), (ast.Attribute, ast.FormattedValue)) else "and only printed" for u in uses]
            if all(f is not None for f in fates):
                return "and never raised"
        return None
    return None


# ---------------------------------------------------------------- handlers
def caught(M, h):
    t = h.type
    if t is None:
        return ["BaseException"]
    xs = t.elts if isinstance(t, ast.Tuple) else [t]
    out = []
    for x in xs:
        d = dname(x) or "?"
        a = M.m.assigns.get(d)
        if a and isinstance(a[-1], ast.Tuple):
            out += [dname(y) or "?" for y in a[-1].elts]
        else:
            out.append(d)
    return out


def falls_through(M, body, depth=2):
    """does control leave a statement list normally (or by continue/break)"""
    for st in body:
        if isinstance(st, (ast.Raise,)):
            return False
        if isinstance(st, ast.If) and st.orelse and not falls_through(M, st.body, depth) and not falls_through(M, st.orelse, depth):
            return False
        if isinstance(st, ast.With) and not falls_through(M, st.body, depth):
            return False
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            if exits(st.value):
                return False
            g = M.callee(st.value) if depth else None
            if g and not falls_through(g[0], g[1].body, depth - 1) and not any(isinstance(x, ast.Return) for b in g[1].body for x in own(b)):
                return False
        if isinstance(st, ast.Try) and not falls_through(M, st.body, depth) and all(not falls_through(M, h.body, depth) for h in st.handlers):
            return False
    return True


def exits(call):
    d = dname(call.func) or ""
    last = d.split(".")[-1]
    if last in ("exit", "_exit", "abort", "fail") and (d.startswith(("sys.", "os.", "ctx.", "click.")) or ".exit" in d or d == "exit"):
        if last in ("abort", "fail"):
            return True
        a = call.args[0] if call.args else next((k.value for k in call.keywords), None)
        return not (a is None or isinstance(a, ast.Constant) and a.value in (0, None, False))
    return False


def records(M, h):
    """does information about the caught error reach something other than a print or log line"""
    return keeps(M, h.body, M.func(h)[1], {h.name} if h.name else set(), h.name)


def keeps(M, body, fn, hot, own_name=None, depth=3):
    hot = set(hot)

    def tainted(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in hot and isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Call) and (full(M, x.func) in EXCINFO):
                return True
        return False
    changed = True
    while changed:
        changed = False
        for b in body:
            for n in own(b):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and tainted(n.value):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in hot:
                                hot.add(x.id)
                                changed = True
    inh = {x for b in body for x in ast.walk(b)}
    for n in ast.walk(fn):
        inside = n in inh
        if isinstance(n, (ast.Assign, ast.AugAssign)) and inside:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, (ast.Subscript, ast.Attribute)) and tainted(n.value):
                    return True
        if isinstance(n, ast.Return) and inside and n.value is not None and tainted(n.value):
            return True
        if isinstance(n, (ast.Yield,)) and inside and n.value is not None and tainted(n.value):
            return True
        if isinstance(n, ast.Call) and inside:
            d = (dname(n.func) or getattr(n.func, "attr", "") or "").split(".")[-1]
            g = M.callee(n) if depth else None
            if g is not None:
                a = g[1].args
                ps = [x.arg for x in a.posonlyargs + a.args]
                if ps and ps[0] in ("self", "cls"):
                    ps = ps[1:]
                h2 = {p for p, v in zip(ps, n.args) if tainted(v)} | {k.arg for k in n.keywords if k.arg and tainted(k.value)}
                if any(isinstance(x, ast.Starred) for x in n.args) or a.vararg and any(tainted(v) for v in n.args[len(ps):]):
                    return True
                if fn is not g[1] and keeps(g[0], g[1].body, g[1], h2, None, depth - 1):
                    if not (isinstance(M.parent.get(n), ast.Expr) and not stores(g)):
                        return True
                    continue
            elif isinstance(M.parent.get(n), ast.Expr) and d not in TALK and full(M, n.func) not in EXCINFO and any(tainted(x) for x in list(n.args) + [k.value for k in n.keywords]):
                return True
        # the caught error kept in a variable and used after the handler
        if not inside and isinstance(n, (ast.Raise, ast.Return)) and own_name is not None and any(isinstance(x, ast.Name) and x.id in hot - {own_name} for x in ast.walk(n)):
            return True
    return False


def stores(g):
    """does a function leave something behind other than the value it returns"""
    for x in ast.walk(g[1]):
        if isinstance(x, (ast.Assign, ast.AugAssign)) and any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target])):
            return True
        if isinstance(x, ast.Call) and isinstance(g[0].parent.get(x), ast.Expr) and (dname(x.func) or getattr(x.func, "attr", "") or "").split(".")[-1] not in TALK:
            return True
    return False


def full(M, f):
    d = dname(f)
    if not d:
        return ""
    h, _, r = d.partition(".")
    h = M.m.imports.get(h, h)
    return h + ("." + r if r else "")


def talk_only(st):
    if isinstance(st, (ast.Pass, ast.Continue)):
        return True
    if isinstance(st, ast.Expr):
        if isinstance(st.value, ast.Constant):
            return True
        if isinstance(st.value, ast.Call):
            d = (dname(st.value.func) or getattr(st.value.func, "attr", "") or "").split(".")[-1]
            return d in TALK or d in ("strip", "format_exc", "exc_info", "sleep")
    if isinstance(st, ast.If):
        return all(talk_only(x) for x in st.body + st.orelse)
    return False


def flagged(M, h):
    """a variable set at the end of the try body (or before it and reset in the handler) is tested after it, with an error on one side"""
    t = M.parent[h]
    fn = M.func(h)[1]
    names = {x.id for b in t.body + t.orelse for x in own(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and n.lineno > t.lineno and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
            names |= {x.id for y in n.targets for x in ast.walk(y) if isinstance(x, ast.Name)}
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.For, ast.While)) and n.lineno > t.lineno:
            tests = n.test if not isinstance(n, ast.For) else None
            if tests is not None and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(tests)):
                if any(isinstance(x, ast.Return) for b in n.body + n.orelse for x in own(b)) or any(M.raises(b) for b in n.body + n.orelse):
                    return True
        if isinstance(n, (ast.For, ast.While)) and n.orelse and any(M.raises(b) for b in n.orelse) and any(x is t for x in ast.walk(n)):
            return True    # for ... try ... break ... else: raise
    # a retry: the try is in a loop and leaves it by return/break, an error follows the loop
    loop = M.within(t, (ast.For, ast.While))
    if loop is not None and any(isinstance(x, (ast.Return, ast.Break)) for b in t.body + t.orelse for x in own(b)):
        body = getattr(M.parent.get(loop), "body", [])
        if loop in body:
            rest = body[body.index(loop) + 1:]
            if any(M.raises(b) for b in rest):
                return True
    return False


def next_attempt(M, h):
    """the handler only skips to the statements after the try, which attempt something else and may raise"""
    t = M.parent[h]
    body = getattr(M.parent.get(t), "body", [])
    if t not in body or not any(isinstance(x, ast.Return) for b in t.body for x in own(b)):
        return False
    rest = body[body.index(t) + 1:]
    return any(M.raises(b) for b in rest)


def handler(c, M, h):
    kinds = caught(M, h)
    name = M.func(h)[0]
    label = f"{M.m.name}:except {'/'.join(kinds)}"
    if all(k in ("ImportError", "ModuleNotFoundError") for k in kinds) and any(isinstance(x, (ast.Import, ast.ImportFrom)) for b in h.body for x in own(b)):
        c.ob("caught", label, True, "", M.where(h))
        return
    if not falls_through(M, h.body) and not any(isinstance(x, ast.Return) for b in h.body for x in own(b)):
        c.ob("caught", label, True, "", M.where(h))
        return
    if records(M, h):
        c.ob("caught", label, True, "", M.where(h))
        return
    zero = [x for b in h.body for x in own(b) if isinstance(x, ast.Call) and (dname(x.func) or "").split(".")[-1] == "exit" and not exits(x)]
    if zero:
        c.ob("caught", label, False, "the error ends the command with a success code", M.where(h))
        return
    broad = [k for k in kinds if k.split(".")[-1] in BROAD]
    if broad:
        ok = flagged(M, h) and not kinds == ["BaseException"] or next_attempt(M, h)
        c.ob("caught", label, ok, f"every error ({broad[0]}) is caught and neither re-raised nor recorded", M.where(h))
        return
    silent = all(talk_only(s) for s in h.body)
    ok = not silent or flagged(M, h) or next_attempt(M, h)
    if not ok:
        M.silent = getattr(M, "silent", {})
        i = M.silent[label] = M.silent.get(label, 0) + 1
        if i > 1:
            label += f" ({i})"
    c.ob("caught", label, ok, f"{'/'.join(kinds)} is caught and the code carries on as if nothing had happened", M.where(h))


# ---------------------------------------------------------------- calls
def calls(c, M, n):
    d = dname(n.func) or ""
    last = d.split(".")[-1] if d else getattr(n.func, "attr", "")
    f = full(M, n.func)
    kw = {k.arg: k.value for k in n.keywords if k.arg}
    if f == "contextlib.suppress" or last == "suppress" and f.startswith("contextlib"):
        ks = [dname(a) or "?" for a in n.args]
        c.ob("not-overridden", f"{M.func(n)[0]}:suppress {'/'.join(ks)}", False, f"{'/'.join(ks)} is suppressed", M.where(n))
    if last in ("validate", "validate_prediag"):
        p = M.parent.get(n)
        c.ob("verdict-used", f"{M.func(n)[0]}:{last}", not isinstance(p, ast.Expr), "the verdict of the validation is discarded", M.where(n))
    bad = None
    if "on_bad_lines" in kw and not (isinstance(kw["on_bad_lines"], ast.Constant) and kw["on_bad_lines"].value == "error"):
        bad = "lines that cannot be read are skipped"
    if "error_bad_lines" in kw and isinstance(kw["error_bad_lines"], ast.Constant) and not kw["error_bad_lines"].value:
        bad = "lines that cannot be read are skipped"
    if "errors" in kw and isinstance(kw["errors"], ast.Constant):
        v = kw["errors"].value
        if v == "ignore" and last in ("to_numeric", "to_datetime", "to_timedelta", "astype", "open", "decode", "encode", "read_csv", "drop"):
            bad = f"{last} ignores what it cannot convert"
        if v == "coerce" and last in ("to_numeric", "to_timedelta"):
            bad = f"{last} blanks out what it cannot convert"
    if "encoding_errors" in kw and isinstance(kw["encoding_errors"], ast.Constant) and kw["encoding_errors"].value != "strict":
        bad = "undecodable characters are dropped"
    if last in ("read_csv", "read_table", "to_numeric", "to_datetime", "to_timedelta", "read_excel", "astype") or bad:
        c.ob("strict-parsing", f"{M.func(n)[0]}:{last}", bad is None, bad or "", M.where(n))


# ---------------------------------------------------------------- documented refusals
# (function, what the condition of the refusal is about): read off the documentation and error messages of the public operations
REFUSALS = [
    ("beep.structure.base.BEEPDatapath.__init__", {"path|paths", "isabs"}, "a path that is not absolute"),
    ("beep.structure.base.BEEPDatapath.__init__", {"schema", "exists"}, "a validation schema that does not exist"),
    ("beep.structure.base.BEEPDatapath.interpolate_step", {"axis"}, "an unknown interpolation axis"),
    ("beep.structure.base.BEEPDatapath.interpolate_step", {"step_index"}, "a step table with several step indices"),
    ("beep.structure.base.BEEPDatapath.interpolate_diagnostic_cycles", {"_diagnostic|diagnostic"}, "diagnostic interpolation without a diagnostic configuration"),
    ("beep.structure.base.BEEPDatapath.iterate_steps_in_cycle", {"step_type"}, "an unknown step type"),
    ("beep.structure.diagnostic.DiagnosticConfig.__init__", {"diagnostic_config", "!union"}, "an empty diagnostic configuration"),
    ("beep.structure.diagnostic.DiagnosticConfig.__init__", {"union|intersection|isdisjoint|sum|duplicated|Counter"}, "a cycle given two diagnostic types"),
    ("beep.structure.base.BEEPDatapath.diagnostic.setter", {"isinstance"}, "a diagnostic configuration of another class"),
    ("beep.structure.diagnostic.DiagnosticConfig.__init__", {"kwargs"}, "parameters of the wrong type"),
    ("beep.structure.diagnostic.DiagnosticConfig.from_step_numbers", {"step_index"}, "raw data without step indices"),
    ("beep.structure.diagnostic.DiagnosticConfig.from_step_numbers", {"matching_criteria", "contains|exact"}, "an unknown matching rule"),
    ("beep.structure.indigo.IndigoDatapath.from_file", {"cell_id"}, "a file with several cells"),
    ("beep.structure.novonix.NovonixDatapath.from_file", {"<"}, "a file without a data header"),
    ("beep.structure.novonix.NovonixDatapath.from_file", {"in", "step_index|step_names|unique"}, "a step type BEEP does not know"),
    ("beep.structure.biologic.BiologicDatapath.from_file", {"splitext|suffix|endswith"}, "a file of another extension"),
    ("beep.structure.validate.SimpleValidator.check_type", {"type_rule|integer"}, "an unknown type rule"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"model_name", "lasso|ALLOWED_MODELS"}, "an unknown model"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"model_name", "elasticnet|ALLOWED_MODELS", "!lasso"}, "several targets for a model that takes one"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"homogenize_features", "==", "!columns"}, "different numbers of feature and target rows"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"impute_strategy", "<"}, "a feature matrix that is empty after cleaning"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"targets", "columns"}, "missing target columns"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"isna|dropna", "<"}, "too few complete targets"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"drop_nan_training_targets", "!<"}, "missing training targets that may not be dropped"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"impute_strategy", "none", "!<"}, "an unknown imputation"),
    ("beep.model.BEEPLinearModelExperiment.predict", {"feature_labels"}, "a feature matrix without the trained features"),
    ("beep.features.base.BEEPFeaturizer.__init__", {"DEFAULT_HYPERPARAMETERS|hyperparameters"}, "incomplete hyperparameters"),
    ("beep.features.base.BEEPFeatureMatrix.__init__", {"structured"}, "a featurizer without the path of its structured run"),
    ("beep.features.base.BEEPFeatureMatrix.__init__", {"features", "!shape"}, "a featurizer without features"),
    ("beep.features.base.BEEPFeatureMatrix.__init__", {"shape|len", "features"}, "a featurizer with several rows"),
    ("beep.features.core.CycleSummaryStats.get_summary_statistics", {"statistics"}, "an unknown statistic"),
    ("beep.features.core.DiagnosticProperties.get_threshold_targets", {"extrapolate_threshold"}, "a threshold that is not reached when extrapolation is off"),
    ("beep.prediction.beep_data_splitter.BEEPDataSplitter.__init__", {"features", "targets", "in"}, "missing columns"),
    ("beep.prediction.beep_data_splitter.BEEPDataSplitter.__init__", {"drop_nan_training_targets", "!<"}, "missing training targets that may not be dropped"),
    ("beep.prediction.beep_data_splitter.BEEPDataSplitter.__init__", {"impute_strategy", "<"}, "a feature matrix that is empty after cleaning"),
    ("beep.prediction.beep_data_splitter.BEEPDataSplitter.__init__", {"isna|dropna", "<"}, "too few complete targets"),
    ("beep.prediction.beep_data_splitter.BEEPDataSplitter.__init__", {"impute_strategy", "none", "!<"}, "an unknown imputation"),
    ("beep.protocol.maccor.insert_charging_parametersv1", {"charge_type_1|charge_type"}, "an unknown charging waveform type"),
    ("beep.utils.waveform.convert_velocity_to_power_waveform", {"velocity_units"}, "an unknown velocity unit"),
    ("beep.deprecated.parameters_lookup.determine_structuring_parameters", {"parameters_path", "exists"}, "a parameters folder that does not exist"),
    ("beep.features.featurizer_helpers.get_step_index", {"cycle_type"}, "an unknown cycle type"),
    ("beep.features.featurizer_helpers.get_step_index", {"median", "step_index_counter|step_counter|diff"}, "an HPPC rest that is neither long nor short"),
    ("beep.features.featurizer_helpers.get_step_index", {"median", "current"}, "a step of a rate test without current"),
    ("beep.model.BEEPLinearModelExperiment.__init__", {"targets", "<|==", "len|shape|size"}, "an empty list of targets"),
    ("beep.features.core.DiagnosticProperties.get_threshold_targets", {"<|<=", "0"}, "a threshold that is reached at no positive value"),
]


def tokens(n, depth=99):
    """the names a condition talks about, down to a depth (further down is where the values come from)"""
    if not hasattr(n, "op"):
        if isinstance(n, (tuple, list)):
            for y in n:
                yield from tokens(y, depth)
        return
    if n.op == "const":
        if isinstance(n.args[0], str):
            yield n.args[0]
        elif isinstance(n.args[0], (tuple, list)):
            yield from (v for v in n.args[0] if isinstance(v, str))
        elif n.args[0] is None or isinstance(n.args[0], int):
            yield repr(n.args[0])
        return
    if n.op == "param":
        yield str(n.args[0])
    elif n.op in ("attr", "meth"):
        yield n.args[1]
    elif n.op == "call":
        yield n.args[0].split(".")[-1]
    elif n.op == "cmp":
        yield from (x for x in n.args if isinstance(x, str))
    elif n.op == "comp":
        yield "comp"
    if n.op == "call" and len(n.args[1]) == 1 and not n.args[2]:     # conversions do not count
        depth += 1
    if depth > 0:
        for x in n.args:
            if hasattr(x, "op") or isinstance(x, (tuple, list)):
                yield from tokens(x, depth - 1)


def own_guards(e, evs):
    """the conditions under which e happens, without those that only say that an earlier exit was not taken"""
    out = set()
    for x in evs:
        if x.idx < e.idx and x.kind in ("raise", "return", "ireturn", "continue", "break") and x.guards:
            g, pol = x.guards[-1]
            out.add((g, not pol))
            if g.op == "bool" and (g.args[0] == "or") == pol:
                out |= {(y, not pol) for y in g.args[1]}
    mine = [g for g in e.guards if g not in out]
    return [g for g, _ in (mine or e.guards)[-1:]]


def filled(n, evs):
    """what decides the content of a list or dict built earlier"""
    for x in evs:
        if x.kind == "call" and x.recv is n and x.target.split(".")[-1] in ("append", "add", "extend", "update") or x.kind == "store" and x.base is n:
            for g, _ in x.guards[-1:]:
                yield from tokens(g, 4)
            for a in (x.args if x.kind == "call" else (x.key, x.value)):
                yield from tokens(a, 7)


def refusals(c):
    cache = {}
    for full_, toks, text in REFUSALS:
        if full_ not in cache:
            try:
                f = c.P.cls(full_.rsplit(".", 2)[0]).setters[full_.split(".")[-2]] if full_.endswith(".setter") else c.P.func(full_)
            except (AnalysisError, KeyError):
                c.notes.append(f"{full_} not found")
                cache[full_] = None
                continue
            me = mk("param", "self")
            k = f.cls
            if k and full_.endswith("Featurizer.__init__"):        # the defaults of the abstract class are empty: look at the ones that have some
                k = next((s for s in sorted(c.P.subclasses(k), key=lambda s: s.full) if c.P.find_method(s, "__init__") is f), k)
            it = c.interp(types={me: k} if k else {})
            _, _, evs = c.run(it, f, self_node=me if k and not f.is_classmethod and not f.is_static else None, cls=k)
            rs = []
            for e in evs:
                if e.kind == "raise":
                    for g in own_guards(e, evs):
                        for x in parts(g):
                            extra = {t for y in walk(x) if y.op == "new" for t in filled(y, evs)}
                            rs.append(((e.where(), tuple(getattr(e, "path", ()) or ()), x.uid), set(tokens(x, 4)) | extra, set(tokens(x, 9)) | extra, set(tokens(x, 3)) | extra))
            cache[full_] = (f, rs)
    # each documented refusal needs a condition of its own among those that lead to a raise
    for full_, v in cache.items():
        if v is None:
            continue
        f, rs = v
        mine = [(toks, text) for n, toks, text in REFUSALS if n == full_]
        edges = []
        for toks, text in mine:
            strict = [i for i, (k, t4, t9, t3) in enumerate(rs) if says(toks, t4, t4)]
            loose = [i for i, (k, t4, t9, t3) in enumerate(rs) if i not in strict and says(toks, t9, t3)]
            edges.append((strict, loose))
        owner = {}
        for j, (strict, loose) in enumerate(edges):
            ok = bool(strict)
            if strict:
                for i in strict:
                    owner[rs[i][0]] = j
        for j, (strict, loose) in enumerate(edges):
            ok = bool(strict) or any(rs[i][0] not in owner for i in loose)
            c.ob("refused", f"{f.qual}:{mine[j][1]}", ok, f"nothing refuses {mine[j][1]}", f.where())


def says(toks, have, shallow):
    return all(any((alt in have or "**" + alt in have) if not alt.startswith("!") else alt[1:] not in shallow for alt in t.split("|")) for t in toks)


def parts(g):
    if g.op == "not":
        yield from parts(g.args[0])
    elif g.op == "bool":
        for x in g.args[1]:
            yield from parts(x)
    else:
        yield g


# ---------------------------------------------------------------- error log lines
def logged(c, M, n):
    """an error-level log line outside a handler stands next to what is done about the error"""
    d = (dname(n.func) or "").split(".")
    if d[-1] not in ("error", "critical", "exception") or len(d) < 2 or not d[0].lower().startswith("log"):
        return
    st = M.stmt(n)
    if M.within(st, ast.ExceptHandler):
        return
    p = M.parent.get(st)
    for nm in ("body", "orelse", "finalbody"):
        b = getattr(p, nm, None)
        if isinstance(b, list) and st in b and not (isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and all(talk_only(x) for x in b)):
            ok = any(not talk_only(x) for x in b)
            c.ob("caught", f"{M.func(n)[0]}:log line {d[-1]}", ok, "an error is logged and the code carries on as if nothing had happened", M.where(n))
