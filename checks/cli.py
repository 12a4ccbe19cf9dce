"""The click commands of beep.cmd: options, their parameters, and the analysed body."""
import ast
from .common import *
from vfa.project import _decname

CMD = "beep.cmd"


class Opt:
    def __init__(self, kind, decls, kw, param):
        self.kind, self.decls, self.kw, self.param = kind, decls, kw, param
        self.flag = "is_flag" in kw and kw["is_flag"] is TRUE or any("/" in d for d in decls)
        self.name = next((d for d in decls if d.startswith("--")), decls[0]).split("/")[0]


class Command:
    def __init__(self, c, f):
        self.f, self.name = f, f.name
        self.opts = []
        it = c.interp()
        for d in f.decorators:
            nm = _decname(d)
            if isinstance(d, ast.Call) and nm in ("click.option", "click.argument"):
                pos = [it.eval_at_module(f.module, a) for a in d.args]
                kw = {k.arg: it.eval_at_module(f.module, k.value) for k in d.keywords if k.arg}
                decls = [cval(x) for x in pos if isinstance(cval(x), str)]
                if not decls:
                    continue
                self.opts.append(Opt(nm.split(".")[1], decls, kw, self._param(decls, nm)))
            elif isinstance(d, ast.Call) and nm and nm.endswith(".command"):
                if d.args and isinstance(d.args[0], ast.Constant):
                    self.name = d.args[0].value
        self._run = None
        self._surf = None
        self.c = c

    @staticmethod
    def _param(decls, nm):
        plain = [d for d in decls if not d.startswith("-")]
        if plain:
            return plain[0].replace("-", "_").lower()
        longs = [d for d in decls if d.startswith("--")]
        d = (longs or decls)[0].split("/")[0]
        return d.lstrip("-").replace("-", "_").lower()

    def run(self):
        if self._run is None:
            it = self.c.interp()
            res, st, evs = self.c.run(it, self.f)
            self._run = (it, res, st, evs)
        return self._run

    def surface(self):
        """the command with the library calls it makes left as calls"""
        if self._surf is None:
            P = self.c.P
            dp = P.cls("beep.structure.base.BEEPDatapath")
            lm = P.cls("beep.model.BEEPLinearModelExperiment")
            fm = P.cls("beep.features.base.BEEPFeatureMatrix")
            lib = ("beep.structure", "beep.features", "beep.model", "beep.protocol", "beep.prediction", "beep.utils")
            it = self.c.interp(inline_pred=lambda f: not f.module.name.startswith(lib),
                               ret_types={"beep.structure.cli.auto_load": dp, "beep.structure.cli.auto_load_processed": dp,
                                          "beep.model.BEEPLinearModelExperiment.from_json_file": lm, "beep.features.base.BEEPFeatureMatrix.from_json_file": fm})
            res, st, evs = self.c.run(it, self.f)
            self._surf = (it, res, st, evs)
        return self._surf


def tname(e):
    """last component of what a call event calls"""
    return str(e.target).rsplit(".", 1)[-1]


def receiver(e):
    """receiver of a method call, resolved or not"""
    if e.recv is not None:
        return e.recv
    if e.bound and "self" in e.bound:
        return e.bound["self"]
    return None


def commands(c):
    m = c.P.module(CMD)
    out = {}
    for f in m.funcs.values():
        for d in f.decorators:
            nm = _decname(d)
            if nm and (nm.endswith(".command") or nm == "click.group" or nm == "click.command"):
                k = Command(c, f)
                out[k.name] = k
    return out


def ctx_param(cmd):
    return mk("param", cmd.f.params[0])


def obj(cmd, name):
    return attr(attr(ctx_param(cmd), "obj"), name)


# ------------------------------------------------------------------ exceptions
def base_exceptions(P):
    """project exception classes that do not derive from Exception"""
    out = []
    for k in P.all_classes():
        if any(_decname(b) == "BaseException" for x in P.mro(k) for b in x.node.bases):
            out.append(k.full)
    return out


def catches(htypes, P, what):
    """does a try with these handlers catch exception class `what` (Exception | full project class | KeyboardInterrupt)"""
    for i, h in enumerate(htypes):
        for t in h:
            if t == "BaseException" or t == what:
                return i
            if what in ("KeyboardInterrupt", "SystemExit"):
                continue
            if t == "Exception" and (what == "Exception" or what not in base_exceptions(P)):
                return i
            k, w = P.resolve(t), P.resolve(what) if "." in what else None
            if isinstance(k, Class) and isinstance(w, Class) and k in P.mro(w):
                return i
    return None


def catch_all(htypes, P, need=()):
    """indices of handlers that together catch every failure; None if some failure escapes"""
    idx = catches(htypes, P, "Exception")
    if idx is None:
        return None
    out = {idx}
    for n in need:
        j = catches(htypes, P, n)
        if j is None:
            return None
        out.add(j)
    return out


LOGGING = ("logging.", "click.", "time.", "datetime.", "traceback.", "sys.exc_info", "pprint.", "warnings.", "builtins.print", "tqdm")
PURE_EXT = ("os.path.join", "os.path.basename", "os.path.abspath", "os.path.splitext", "os.path.dirname", "os.path.split",
            "builtins.str", "builtins.len", "builtins.repr", "builtins.isinstance", "builtins.type", "builtins.getattr", "builtins.dict",
            "builtins.list", "builtins.sorted", "builtins.tuple", "builtins.bool", "builtins.id", "copy.deepcopy", "copy.copy", "collections.", "builtins.format",
            "builtins.set", "builtins.sum", "builtins.round", "builtins.hash", "builtins.callable", "builtins.hasattr", "builtins.enumerate")
SAFE_METH = {"append", "format", "join", "items", "keys", "values", "get", "update", "setdefault", "copy", "extend", "split", "rsplit", "strip", "lower", "upper",
             "replace", "startswith", "endswith", "debug", "info", "warning", "error", "critical", "exception", "log", "add", "insert", "pop", "strftime", "rpartition", "partition"}


def harmless(e):
    """a call that cannot fail on account of the input being processed (logging, string and path handling, containers)"""
    if e.recv is not None:
        return e.target in SAFE_METH
    t = e.target
    if not isinstance(t, str):
        return True
    if t.startswith(LOGGING) or t in PURE_EXT or t.startswith("collections."):
        return True
    return False


def exit_call(e):
    return (e.kind == "call" and ((e.recv is not None and e.target in ("exit", "abort", "fail")) or e.target in ("sys.exit", "builtins.exit", "os._exit", "builtins.quit")))


def early_exits(evs):
    """guard sets under which the command refuses to go on (raise / exit / return)"""
    return [frozenset(e.guards) for e in evs if (e.kind in ("raise", "return") or exit_call(e)) and e.guards]


def exit_guard(g, exits, ctx=None):
    """is the guard merely the complement of a refusal?"""
    c, pol = g
    opp = set(split_guard(c, not pol))
    if ctx is not None:
        return any(opp <= x and x <= opp | set(ctx) for x in exits)
    if c.op == "bool" and c.args[0] == "or" and pol:
        # one of several ways past the refusals
        def against(d, x):
            return any(set(split_guard(l, not p)) <= x for l, p in split_guard(d, True))
        if any(all(against(d, x) for d in c.args[1]) for x in exits):
            return True
    return any(opp <= x for x in exits)
