"""P32: arguments and settings take effect."""
import ast

from .common import *
from .p22 import dname

EXPLANATION = ("Strong-liveness (faint-variable) dataflow analysis of every function, over its syntax tree and through the calls between the project's "
               "functions: an argument must be live on entry, that is, its value, before anything replaces it, must be used in what is returned, raised, "
               "yielded, stored or passed on, or decide whether that happens. For settings a constructor only stores, the reads of the attribute across the "
               "class are looked up. Tables that answer for a series of thresholds or cycles are followed from the labels to the loop computing the entries.")
LOGS = {"logger", "logging", "print", "warnings", "log", "pprint"}
SERIAL = {"as_dict", "from_dict", "to_dict", "as_hashable", "__repr__", "__str__", "__getstate__", "__setstate__", "save", "to_json"}
FRESH = (ast.List, ast.Dict, ast.Set, ast.Constant, ast.ListComp, ast.DictComp, ast.SetComp, ast.JoinedStr, ast.Tuple)


def params(n):
    a = n.args
    return a.posonlyargs + a.args + a.kwonlyargs


def abstract(n):
    """a function with nothing to do: a declaration, documentation, a refusal"""
    if any("abstractmethod" in (dname(d) or "") for d in n.decorator_list):
        return True
    for b in n.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Call) and "NotImplemented" not in ast.dump(x.func) and not (isinstance(x.func, ast.Name) and x.func.id in LOGS):
                return False
            if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant) or isinstance(x, (ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store):
                return False
    return not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in {a.arg for a in params(n)} for b in n.body for x in ast.walk(b)) and not any(isinstance(x, ast.Raise) and "NotImplemented" not in ast.dump(x) for b in n.body for x in ast.walk(b))


class Live:
    """strong liveness in one function"""

    def __init__(self, n, dead=lambda call: (), unread=lambda attr: False):
        self.n, self.dead, self.unread = n, dead, unread
        self.fresh = {}
        self.ps = {a.arg for a in params(n)} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        for x in ast.walk(n):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        self.fresh[t.id] = self.fresh.get(t.id, True) and (isinstance(x.value, FRESH) or (isinstance(x.value, ast.Call) and isinstance(x.value.func, (ast.Name, ast.Attribute)) and (dname(x.value.func) or "") in ("list", "dict", "set", "pd.DataFrame", "pandas.DataFrame")))
                    else:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                self.fresh[y.id] = False
            elif isinstance(x, (ast.For, ast.AsyncFor, ast.comprehension)):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        self.fresh[y.id] = False
            elif isinstance(x, (ast.With,)):
                for i in x.items:
                    if i.optional_vars is not None:
                        for y in ast.walk(i.optional_vars):
                            if isinstance(y, ast.Name):
                                self.fresh[y.id] = False
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                for y in x.names:
                    self.fresh[y] = False
        for p in self.ps:
            self.fresh[p] = False
        self.loops = []
        self.handlers = []
        self.glob = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}

    def entry(self):
        return self.block(self.n.body, frozenset(self.glob))

    def reads(self, e):
        """names whose values an expression uses, leaving out arguments for parameters that have no effect"""
        if e is None:
            return frozenset()
        out, skip = set(), set()
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                for a in self.dead(x):
                    skip |= set(ast.walk(a))
                if (dname(x.func) or "").split(".")[-1] in ("tqdm", "trange"):
                    for k in x.keywords:
                        if k.arg != "iterable":
                            skip |= set(ast.walk(k.value))
                            out |= self.shown(k.value)
        for x in ast.walk(e):
            if x not in skip and isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
        return frozenset(out)

    def shown(self, e):
        """the names an expression hands to the display as they are; what is only quoted in a message has no part in it"""
        if isinstance(e, ast.Name):
            return {"shown " + e.id}
        if isinstance(e, ast.IfExp):
            return self.shown(e.body) | self.shown(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.shown(v) for v in e.values])
        return set()

    def talk(self, e):
        if isinstance(e, ast.Call):
            d = dname(e.func)
            return d is not None and d.split(".")[0] in LOGS
        return isinstance(e, ast.Constant)

    def local(self, t):
        while isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred)):
            t = t.value
        return t.id if isinstance(t, ast.Name) and self.fresh.get(t.id) else None

    def block(self, body, out):
        for s in reversed(body):
            out = self.stmt(s, out)
            for h in self.handlers:
                out |= h
        return out

    def store(self, t, out, value, expr=None):
        """backward through an assignment to a target"""
        if isinstance(t, ast.Name):
            if "shown " + t.id in out:
                out = out - {"shown " + t.id} | (self.shown(expr) if expr is not None else set())
            if t.id in out:
                return (out - {t.id} if t.id not in self.glob else out) | value
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
            if any(x in out for x in names) or not all(isinstance(x, (ast.Name, ast.Starred)) for x in t.elts):
                return (out - {x for x in names if x not in self.glob}) | value | self.reads(t)
            return out
        if isinstance(t, ast.Starred):
            return self.store(t.value, out, value)
        b = self.local(t)
        if b is not None and b not in out:
            return out
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and self.unread(t.attr):
            return out
        return out | value | self.reads(t)

    def acts(self, ss):
        """do the statements do anything but report"""
        for s in ss:
            if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and self.talk(s.value)):
                continue
            if isinstance(s, ast.If) and not self.acts(s.body) and not self.acts(s.orelse):
                continue
            return True
        return False

    def stmt(self, s, out):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            inner = frozenset(x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))
            return (out - {s.name}) | inner if s.name in out else out
        if isinstance(s, ast.Return):
            return self.reads(s.value) | frozenset(self.glob)
        if isinstance(s, ast.Raise):
            return self.reads(s.exc) | self.reads(s.cause) | frozenset().union(*self.handlers)
        if isinstance(s, ast.Assert):
            return out | self.reads(s.test)
        if isinstance(s, ast.Assign):
            v = self.reads(s.value)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(s.value)):
                out = out | v
            for t in s.targets:
                out = self.store(t, out, v, s.value)
            return out
        if isinstance(s, ast.AnnAssign):
            return self.store(s.target, out, self.reads(s.value)) if s.value is not None else out
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                return out | self.reads(s.value) if s.target.id in out or not self.fresh.get(s.target.id, True) else out
            return self.store(s.target, out, self.reads(s.value))
        if isinstance(s, ast.Expr):
            if self.talk(s.value):
                return out
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
                b = self.local(v.func.value)
                if b is not None and b not in out:
                    return out
            elif not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(v)):
                return out
            return out | self.reads(v)
        if isinstance(s, ast.If):
            a, b = self.block(s.body, out), self.block(s.orelse, out)
            r = a | b
            if (a != out or b != out or self.sets(s) & (out | a | b) or self.effects(s)) and (self.acts(s.body) or self.acts(s.orelse)):
                r |= self.reads(s.test)
            return r
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(s.orelse, out)
            cur = after
            while True:
                self.loops.append((out, cur))
                b = self.block(s.body, cur)
                self.loops.pop()
                if isinstance(s, ast.While):
                    b |= self.reads(s.test)
                else:
                    names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                    used = b != cur or bool((names | self.sets(s)) & (b | cur | after)) or self.effects(s)
                    b = (b - (names - after)) | (self.reads(s.iter) if used else frozenset())
                nxt = cur | b
                if nxt == cur:
                    break
                cur = nxt
            return cur
        if isinstance(s, ast.Break):
            return self.loops[-1][0] if self.loops else out
        if isinstance(s, ast.Continue):
            return self.loops[-1][1] if self.loops else out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            out = self.block(s.body, out)
            for i in s.items:
                out = out | self.reads(i.context_expr)
            return out
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            fin = self.block(s.finalbody, out)
            hs = [self.block(h.body, fin) for h in s.handlers]
            for h in s.handlers:
                if h.type is not None:
                    hs.append(self.reads(h.type))
            after = self.block(s.orelse, fin)
            self.handlers.append(frozenset().union(*hs) if hs else frozenset())
            r = self.block(s.body, after)
            self.handlers.pop()
            return r.union(*hs)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    out = out | self.reads(t)
            return out
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Import, ast.ImportFrom)):
            return out
        return out | frozenset(x.id for x in ast.walk(s) if isinstance(x, ast.Name))

    def sets(self, s):
        return {x.id for b in s.body + s.orelse for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def effects(self, s):
        """does a compound statement hold anything with an effect of its own"""
        for x in ast.walk(s):
            if x is s:
                continue
            if isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Assert, ast.Delete)):
                return True
            if isinstance(x, ast.Expr) and not self.talk(x.value) and isinstance(x.value, ast.Call):
                return True
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, (ast.Attribute, ast.Subscript)) and self.local(t) is None:
                        return True
        return False


def targets(c, f, call):
    """the functions of the project a call may run, and whether their first parameter is filled by the receiver"""
    d = dname(call.func)
    if not d:
        return [], 0
    head, _, rest = d.partition(".")
    if head in ("self", "cls", "super") and f.cls is not None:
        if not rest or "." in rest:
            return [], 0
        k = f.cls
        fs = [c.P.find_method(k, rest)] + [s.methods[rest] for s in c.P.subclasses(k) if rest in s.methods]
        if fs[0] is None:
            return [], 0
        return fs, None
    r = c.P.lookup_in(f.module, d)
    return ([r], 0 if r.cls is None or r.is_static else None) if isinstance(r, Func) else ([], 0)


def given(g, call):
    """{parameter name: argument expression} of a call"""
    ps = [a.arg for a in params(g.node)]
    if g.cls is not None and not g.is_static and ps:
        ps = ps[1:]
    out = {}
    for p, a in zip(ps, call.args):
        if isinstance(a, ast.Starred):
            break
        out[p] = a
    for k in call.keywords:
        if k.arg:
            out[k.arg] = k.value
    return out


def ignored(c, f, call, dead):
    fs, _ = targets(c, f, call)
    fs = [g for g in fs if not abstract(g.node)]
    if not fs or not any(dead.get(g.full) for g in fs):
        return ()
    per = [{p: a for p, a in given(g, call).items() if p in dead.get(g.full, ())} for g in fs]
    return [a for p, a in per[0].items() if all(p in q for q in per)]


def defaults(n):
    a = n.args
    pos = a.posonlyargs + a.args
    return [(p.arg, d) for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]]


def number(d):
    """a default that is recognisable where it stands: not one of the numbers that stand everywhere"""
    return isinstance(d, ast.Constant) and type(d.value) in (int, float) and (isinstance(d.value, float) and d.value not in (0.0, 1.0, 0.5, 2.0, 10.0, 100.0) or isinstance(d.value, int) and d.value > 10 and d.value not in (60, 100, 3600))


def operands(n):
    """the constants of a function that stand in a comparison, a calculation, a bound or an argument"""
    for b in n.body:
        for x in ast.walk(b):
            xs = []
            if isinstance(x, ast.BinOp):
                xs = [x.left, x.right]
            elif isinstance(x, ast.Compare):
                xs = [x.left] + x.comparators
            elif isinstance(x, ast.Slice):
                xs = [x.lower, x.upper, x.step]
            elif isinstance(x, ast.Call):
                xs = x.args + [k.value for k in x.keywords]
            for y in xs:
                if isinstance(y, ast.Constant):
                    yield y


def calls_in(n):
    return [x for b in n.body for x in ast.walk(b) if isinstance(x, ast.Call)]


def stored_reads(c):
    """who reads which attribute, but for saving and loading: {attribute: {classes that read their own, None for a read of another object's}}"""
    out = {}
    for m in c.P.modules.values():
        if not m.name.startswith("beep") or ".tests" in m.name:
            continue

        def go(n, owner, saving):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.ClassDef):
                    go(x, x.name, saving)
                    continue
                here = saving or (isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name in SERIAL)
                if not here:
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                        mine = isinstance(x.value, ast.Name) and x.value.id in ("self", "cls")
                        out.setdefault(x.attr, set()).add(owner if mine else None)
                    if isinstance(x, ast.Attribute) and x.attr == "__dict__" or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "vars"):
                        out.setdefault(None, set()).add(owner)
                go(x, owner, here)

        go(m.tree, None, False)
    return out


def called(t):
    return t.args[0] if t.op == "call" and isinstance(t.args[0], str) else None


def series(t, s):
    """how a label is made of the series: found, and whether calculated with on the way"""
    if t == s:
        return [False]
    out = []
    for a in t.args:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, Node):
                out += [(t.op in ("bin", "un") and t.args[0] not in ("+",)) or b or (t.op == "bin" and not textual(t)) for b in series(x, s)]
    return out


def textual(t):
    """is an addition one of strings"""
    return any(x.op == "str" or (x.op == "const" and isinstance(x.args[0], str)) or x.op == "fmt" or (x.op == "meth" and x.args[1] == "astype") or called(x) == "builtins.str" for x in t.args[1:] if isinstance(x, Node))


def answers(c, f):
    """tables filled for one value of a series after another, and labelled with a series"""
    it = c.interp(types={mk("param", "self"): f.cls} if f.cls else {}, no_inline={g.full for g in c.P.all_funcs() if g.full != f.full and g.full.startswith("beep.")})
    res, st, evs = c.run(it, f, **({"self_node": mk("param", "self"), "cls": f.cls} if f.cls else {}))
    named = [e for e in evs if e.kind == "store" and e.how == "attr" and e.key.op == "const" and e.key.args[0] == "columns"]
    for n in named:
        for e in evs:
            if e.kind != "store" or e.how == "attr" or e.base != n.base:
                continue
            loops = [z for z in e.ctx if z[0] == "loop" and isinstance(z[2], Node)]
            if not loops or any(z[0] == "handler" for z in e.ctx) or cval(e.value, None) is not None:
                continue
            over = s = loops[-1][2]
            if s.op == "enum":
                s = s.args[0]
            elif s.op == "range":
                own = [x.args[1] for x in walk(s) if called(x) == "builtins.len" and x.args[1]]
                if not own:
                    continue
                s = own[0][0]
            elif s.op in ("zip",) or called(s) == "builtins.zip":
                continue
            how = series(n.value, s)
            ok = any(x.op == "elem" and x.args[0] in (s, over) for x in walk(e.value)) if how else True
            c.ob("answers", f"{f.full}:entries", ok, f"{f.name} computes {show(e.value, maxd=4)} for each of {show(s, maxd=3)}, which does not depend on it", e.where())
            if how:
                c.ob("answers", f"{f.full}:labels", not all(how), f"{f.name} labels entries computed for {show(s, maxd=3)} with {show(n.value, maxd=5)}", n.where())
            else:
                rs = [x for x in walk(n.value) if (called(x) or "").split(".")[-1] in ("arange", "linspace", "around", "round")]
                rs += [x for x in walk(n.value) if x.op == "range"]
                c.ob("answers", f"{f.full}:labels", not rs, f"{f.name} labels entries computed for {show(s, maxd=3)} with {show(n.value, maxd=5)}", n.where())


def check(c):
    c.rule("argument", "each argument of a function takes part in what the function returns, raises, stores or passes on")
    c.rule("setting", "each optional setting a constructor keeps is read by something other than saving and loading")
    c.rule("handed", "an argument is handed on to a function that would otherwise use its own default for it")
    c.rule("default", "a default stands only where the argument was left out, not where the argument belongs")
    c.rule("answers", "entries computed for a series of values depend on the value, and are labelled with it")
    funcs = [f for f in c.P.all_funcs() if f.full.startswith("beep.") and ".tests." not in f.full and not abstract(f.node)]
    dead, live = {}, {}
    while True:
        was = dict(dead)
        for f in funcs:
            live[f.full] = Live(f.node, lambda call, f=f: ignored(c, f, call, dead)).entry()
            gone = frozenset(a.arg for a in params(f.node) if a.arg not in live[f.full] and "shown " + a.arg not in live[f.full])
            if gone:
                dead[f.full] = gone
        if was == dead:
            break
    reads = stored_reads(c)
    c.functions = getattr(c, "functions", set())
    for f in funcs:
        where = f"{f.module.path}:{f.node.lineno}"
        if f.name.startswith("_") and not f.name.startswith("__"):
            continue
        own = [a.arg for a in params(f.node) if a.arg not in ("self", "cls") and not a.arg.startswith("_")]
        for a in own:
            c.ob("argument", f"{f.full}:{a}", a not in dead.get(f.full, ()), f"{f.name} takes {a} but its value never takes effect", where)
        if f.name == "__init__" and f.cls is not None:
            family = {k.name for k in list(c.P.mro(f.cls)) + list(c.P.subclasses(f.cls))} | {None}
            kept = Live(f.node, lambda call, f=f: ignored(c, f, call, dead), lambda attr: not (reads.get(attr, set()) & family)).entry()
            methods = [x for k in c.P.mro(f.cls) for x in k.methods.values() if not x.name.startswith("__") and x.name not in SERIAL]
            optional = [a for a, _ in defaults(f.node)]
            for a in own:
                if reads.get(None, set()) & (family - {None}) or not (a in optional or (methods and c.P.find_method(f.cls, "as_dict") is None)):
                    continue
                c.ob("setting", f"{f.full}:{a}", a in kept, f"{f.cls.name} keeps the setting {a} but nothing it does depends on it", where)
        for b in f.node.body:
            for x in ast.walk(b):
                if not isinstance(x, ast.Call) or any(k.arg is None for k in x.keywords) or any(isinstance(y, ast.Starred) for y in x.args):
                    continue
                fs = targets(c, f, x)[0]
                if len({g.full for g in fs}) != 1:
                    continue
                gs = given(fs[0], x)
                for q, _ in defaults(fs[0].node):
                    if q in own:
                        c.ob("handed", f"{f.full}:{fs[0].name}:{q}", q in gs, f"{f.name} takes {q} but calls {fs[0].name} without it", f"{f.module.path}:{x.lineno}")
        for x in calls_in(f.node):
            for kw in x.keywords:
                if kw.arg in own and isinstance(kw.value, ast.Constant):
                    for a, d in defaults(f.node):
                        if a == kw.arg:
                            same = isinstance(d, ast.Constant) and d.value is not None and type(d.value) is type(kw.value.value) and d.value == kw.value.value
                            c.ob("default", f"{f.full}:{a}:handed", not same, f"{f.name} takes {a} but hands on its default {kw.value.value!r}", f"{f.module.path}:{x.lineno}")
        if f.cls is not None and f.name == "__init__":
            kept_as = {s.attr for y in ast.walk(f.node) if isinstance(y, ast.Assign) and isinstance(y.value, ast.Name) for s in y.targets if isinstance(s, ast.Attribute) and s.attr == y.value.id}
            for g in f.cls.methods.values():
                if g.name == "__init__" or g.is_classmethod or g.is_static or g.name in SERIAL:
                    continue
                taken = {a.arg for a in params(g.node)}
                for x in calls_in(g.node):
                    for kw in x.keywords:
                        for a, d in defaults(f.node):
                            if a == kw.arg and a in kept_as and a not in taken and isinstance(kw.value, ast.Constant):
                                same = isinstance(d, ast.Constant) and d.value is not None and type(d.value) is type(kw.value.value) and d.value == kw.value.value
                                c.ob("default", f"{f.cls.full}.{g.name}:{a}", not same, f"{g.name} uses the default {kw.value.value!r} of the setting {a} in place of the setting", f"{f.module.path}:{x.lineno}")
        for a, d in defaults(f.node):
            if number(d):
                hits = [y for y in operands(f.node) if type(y.value) is type(d.value) and y.value == d.value]
                c.ob("default", f"{f.full}:{a}", not hits, f"{f.name} takes {a} but computes with its default {d.value}", f"{f.module.path}:{hits[0].lineno}" if hits else where)
        if any(isinstance(x, ast.Attribute) and x.attr == "columns" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)) and any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(f.node)):
            answers(c, f)
    cycle_life(c)
    model(c)
    c.need("argument", 200)
    c.need("setting", 20)


def cycle_life(c):
    k = c.cls("beep.structure.base.BEEPDatapath")
    me = mk("param", "self")
    for n in ("get_cycle_life", "cycles_to_capacities"):
        f = c.P.find_method(k, n)
        if f is None:
            continue
        it = c.interp(types={me: k})
        res, st, evs = c.run(it, f, self_node=me, cls=k)
        roots = [e.value for e in evs if e.kind in ("store", "return") and isinstance(e.value, Node)]
        cols = set()
        for r in roots:
            for x in walk(r):
                a = None
                if x.op == "attr":
                    a = x.args[1]
                elif x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].args[0], str):
                    a = x.args[1].args[0]
                if a is not None and (str(a).endswith("_capacity") or str(a).endswith("_energy")):
                    cols.add(a)
        c.ob("answers", f"{f.full}:quantity", cols <= {"discharge_capacity"}, f"{n} answers from {sorted(map(str, cols))} where the capacity of a cycle is its discharge capacity", f"{f.module.path}:{f.node.lineno}")
        if n == "get_cycle_life":
            th = mk("param", "threshold")
            for r in roots:
                for x in walk(r):
                    if x.op == "cmp" and any(y.op in ("attr", "sub") and (y.args[1] == "discharge_capacity" or cval(y.args[1], None) == "discharge_capacity") for y in walk(x) if len(y.args) > 1 and y.op in ("attr", "sub")):
                        c.ob("answers", f"{f.full}:threshold", contains(x, th), f"{n} compares capacities without the threshold asked for: {show(x, maxd=5)}", f"{f.module.path}:{f.node.lineno}")


TAKES = {"ElasticNetCV": ("alphas", "cv", "max_iter", "tol", "l1_ratio"), "MultiTaskElasticNetCV": ("alphas", "cv", "max_iter", "tol", "l1_ratio"),
         "LassoCV": ("alphas", "cv", "max_iter", "tol"), "MultiTaskLassoCV": ("alphas", "cv", "max_iter", "tol"), "RidgeCV": ("alphas", "cv")}


def model(c):
    k = c.cls("beep.model.BEEPLinearModelExperiment")
    me = mk("param", "self")
    f = c.P.find_method(k, "train")
    if f is None:
        return
    it = c.interp(types={me: k})
    res, st, evs = c.run(it, f, self_node=me, cls=k)
    for e in evs:
        t = e.result if e.kind == "call" else None
        n = called(t).split(".")[-1] if isinstance(t, Node) and called(t) else None
        if n not in TAKES:
            continue
        kw = dict(t.args[2]) if len(t.args) > 2 and isinstance(t.args[2], tuple) else {}
        if None in kw or "**" in kw:
            continue
        for s in TAKES[n]:
            want = attr(me, "kfold" if s == "cv" else s)
            c.ob("setting", f"{k.full}:{n}:{s}", s in kw and contains(kw[s], want), f"{n} searches without the setting {want.args[1]} of the experiment", e.where())
    # the model kept is built with the hyperparameters the search found
    h = st.heap.get(attr(me, "optimal_hyperparameters"))
    for d in alts(h) if h is not None else ():
        for hp in ("alpha", "l1_ratio"):
            v = st.heap.get(sub(d, mk("const", hp)))
            if v is None:
                continue
            found = [x.args[1] for x in walk(v) if x.op == "attr" and (x.args[1].endswith("_") and not x.args[1].startswith("_"))]
            if not found and any(x.op in ("call", "meth") and str(x.args[0] if x.op == "call" else x.args[1]).split(".")[-1] not in TAKES for x in walk(v)):
                continue
            other = [x for x in found if x in ("alphas_", "mse_path_", "n_iter_", "dual_gap_", "alpha_", "l1_ratio_") and x != hp + "_"]
            short = [x for x in alts(v) if not (x.op == "call" and x.args[0] == "absent") and x.op != "absent" and not any(y.op == "attr" and y.args[1].endswith("_") for y in walk(x))
                     and not any(y.op in ("phi", "mu", "top", "param") for y in alts(x))]
            c.ob("setting", f"{k.full}.train:{hp}", bool(found) and not short and not (other and hp + "_" not in found), f"the model is refitted with {show(v, 4)[:80]} for {hp}, not with the {hp} its search found")
        break
    # predictions fill gaps as training did
    f = c.P.find_method(k, "predict")
    if f is None:
        return
    st_attr = attr(me, "impute_strategy")
    imp = c.P.find_method(k, "_impute_df")
    it = c.interp(types={me: k}, no_inline={imp.full} if imp else set())
    res, st, evs = c.run(it, f, self_node=me, cls=k)
    uses = any(isinstance(x, Node) and contains(x, st_attr) for e in evs for x in list(e.args or ()) + list((e.kwargs or {}).values()) + [g for g, _ in e.guards])
    c.ob("setting", f"{k.full}.predict:impute_strategy", uses, "predict fills the gaps without regard to the impute_strategy of the experiment")
