"""Enumeration of the paths through a statement list, with the exceptional ones, on the syntax tree.

Local and same-module functions are inlined. Values are tracked only as far as they decide branches (constants, None, freshly built
containers, tuples of those, named objects the caller is interested in); every other branch is taken both ways. Statements that can raise
(calls, subscripts) also continue as a raise of Exception."""
import ast

SAFE_METHODS = {"append", "extend", "format", "info", "debug", "warning", "error", "critical", "exception", "warn", "get", "items", "keys", "values", "lower", "upper",
                "strip", "split", "startswith", "endswith", "add"}
SAFE_CALLS = {"str", "repr", "type", "len", "print", "isinstance", "bool", "list", "dict", "set", "tuple", "enumerate", "zip", "range", "sorted"}
SAFE_DOTTED = ("os.path.", "warnings.")


class Opaque:
    n = 0

    def __init__(self, label=""):
        Opaque.n += 1
        self.label = label or f"v{Opaque.n}"


class Const:
    def __init__(self, v):
        self.v = v


class Tup:
    def __init__(self, xs):
        self.xs = xs


class Box:
    """a container built here: never None; truth unknown unless a non-empty literal"""

    def __init__(self, items=None, truth=None):
        self.items, self.truth = items or {}, truth


class Fn:
    def __init__(self, node, frames):
        self.node, self.frames = node, frames


class St:
    """one path so far: frames (innermost last) of name -> value, and the trace of marked events"""

    def __init__(self, frames, trace=()):
        self.frames, self.trace = frames, trace

    def fork(self):
        return St([dict(f) for f in self.frames], self.trace)

    def mark(self, *ev):
        s = self.fork()
        s.trace = self.trace + (ev,)
        return s


class TooMany(Exception):
    pass


class Paths:
    def __init__(self, module_funcs, on_call, limit=20000, on_assign=None, exc_ok=lambda name: True, consts=None):
        """on_call(node, dotted, argvalues, recvvalue, state) -> None (not interesting) or (event tuple, may_raise)"""
        self.funcs, self.on_call, self.on_assign = module_funcs, on_call, on_assign
        self.limit, self.count = limit, 0
        self.is_exception = exc_ok
        self.depth = 0
        self.consts = consts or {}

    def key(self, n, st):
        """the constant that a key expression is, as Const, or None"""
        if isinstance(n, ast.Constant):
            return Const(n.value)
        if isinstance(n, ast.Name):
            v = self.look(st, n.id)
            return v if isinstance(v, Const) else None
        return None

    # ---- names
    def look(self, st, name):
        for f in reversed(st.frames):
            if name in f:
                return f[name]
        if name in self.funcs:
            return Fn(self.funcs[name], None)
        if name in self.consts:
            return Const(self.consts[name])
        return Opaque(name)

    def bind(self, st, target, v):
        if isinstance(target, ast.Name):
            fr = st.frames[-1]
            if target.id in fr.get("<nonlocal>", ()):
                for f in reversed(st.frames[:-1]):
                    if target.id in f:
                        fr = f
                        break
            fr[target.id] = v
            if self.on_assign and fr is st.frames[0]:
                ev = self.on_assign(target.id, v, st)
                if ev:
                    st.trace = st.trace + (ev,)
        elif isinstance(target, (ast.Tuple, ast.List)):
            xs = v.xs if isinstance(v, Tup) and len(v.xs) == len(target.elts) else [Opaque() for _ in target.elts]
            for t, x in zip(target.elts, xs):
                self.bind(st, t, x)
        elif isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name) and self.key(target.slice, st):
            b = self.look(st, target.value.id)
            if isinstance(b, Box):
                nb = Box(dict(b.items), True)
                nb.items[self.key(target.slice, st).v] = v
                for f in reversed(st.frames):
                    if f.get(target.value.id) is b:
                        f[target.value.id] = nb
                        break

    # ---- expressions: yields (kind, state, value); kind next | raise
    def expr(self, n, st):
        self.count += 1
        if self.count > self.limit:
            raise TooMany()
        if n is None:
            yield "next", st, Const(None)
        elif isinstance(n, ast.Constant):
            yield "next", st, Const(n.value)
        elif isinstance(n, ast.Name):
            yield "next", st, self.look(st, n.id)
        elif isinstance(n, ast.Tuple):
            for k, s, vs in self.many(n.elts, st):
                yield k, s, Tup(vs) if k == "next" else vs
        elif isinstance(n, ast.Dict):
            for k, s, vs in self.many(n.values, st):
                yield k, s, (Box({self.key(kk, s).v: v for kk, v in zip(n.keys, vs) if self.key(kk, s)}, bool(n.keys)) if k == "next" else vs)
        elif isinstance(n, (ast.List, ast.Set)):
            for k, s, vs in self.many(n.elts, st):
                yield k, s, Box(truth=bool(n.elts)) if k == "next" else vs
        elif isinstance(n, ast.Call):
            yield from self.call(n, st)
        elif isinstance(n, ast.Subscript):
            for k, s, v in self.expr(n.value, st):
                if k != "next":
                    yield k, s, v
                    continue
                if self.key(n.slice, s):
                    key = self.key(n.slice, s).v
                    if isinstance(v, Tup) and isinstance(key, int) and -len(v.xs) <= key < len(v.xs):
                        yield "next", s, v.xs[key]
                        continue
                    if isinstance(v, Box) and key in v.items:
                        yield "next", s, v.items[key]
                        continue
                for k2, s2, _ in self.expr(n.slice, s) if isinstance(n.slice, ast.expr) else [("next", s, None)]:
                    if k2 != "next":
                        yield k2, s2, _
                    else:
                        yield "raise", s2.fork(), "Exception"
                        yield "next", s2, Opaque()
        elif isinstance(n, ast.Attribute):
            for k, s, v in self.expr(n.value, st):
                yield k, s, (Opaque() if k == "next" else v)
        elif isinstance(n, ast.BoolOp):
            yield from self.boolop(n.values, isinstance(n.op, ast.And), st)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for k, s, v in self.expr(n.operand, st):
                if k != "next":
                    yield k, s, v
                else:
                    t = self.truth(v)
                    yield "next", s, Const(not t) if t is not None else Opaque()
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for k, s, vs in self.many([n.left, n.comparators[0]], st):
                if k != "next":
                    yield k, s, vs
                else:
                    yield "next", s, self.compare(n.ops[0], vs[0], vs[1])
        elif isinstance(n, ast.IfExp):
            for k, s, b in self.branch(n.test, st):
                if k != "next":
                    yield k, s, b
                else:
                    yield from self.expr(n.body if b else n.orelse, s)
        elif isinstance(n, ast.JoinedStr):
            for k, s, vs in self.many([v.value for v in n.values if isinstance(v, ast.FormattedValue)], st):
                yield k, s, Box(truth=True) if k == "next" else vs
        elif isinstance(n, ast.BinOp):
            for k, s, vs in self.many([n.left, n.right], st):
                yield k, s, Opaque() if k == "next" else vs
        elif isinstance(n, ast.NamedExpr):
            for k, s, v in self.expr(n.value, st):
                if k == "next":
                    s = s.fork()
                    self.bind(s, n.target, v)
                yield k, s, v
        elif isinstance(n, (ast.Lambda, ast.Starred, ast.Slice)):
            yield "next", st, Opaque()
        else:
            kids = [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
            if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                kids = [g.iter for g in n.generators]
                yield "raise", st.fork(), "Exception"
            for k, s, vs in self.many(kids, st):
                yield k, s, Opaque() if k == "next" else vs

    def many(self, ns, st):
        if not ns:
            yield "next", st, []
            return
        for k, s, v in self.expr(ns[0], st):
            if k != "next":
                yield k, s, v
            else:
                for k2, s2, vs in self.many(ns[1:], s):
                    yield k2, s2, ([v] + vs if k2 == "next" else vs)

    def boolop(self, ns, conj, st):
        for k, s, v in self.expr(ns[0], st):
            if k != "next" or len(ns) == 1:
                yield k, s, v
                continue
            t = self.truth(v)
            if t is None or t != conj:
                yield "next", s.fork(), v if t is not None else Const(not conj)
            if t is None or t == conj:
                yield from self.boolop(ns[1:], conj, s)

    def truth(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.xs)
        if isinstance(v, Box):
            return v.truth
        if isinstance(v, Fn):
            return True
        return None

    def compare(self, op, a, b):
        if isinstance(a, Const) and isinstance(b, Const):
            if isinstance(op, (ast.Is, ast.Eq)):
                return Const(a.v == b.v)
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                return Const(a.v != b.v)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(b, Const) and b.v is None and isinstance(a, (Box, Tup, Fn)):
            return Const(isinstance(op, (ast.IsNot, ast.NotEq)))
        return Opaque()

    def branch(self, test, st):
        """yields ('next', state, bool) or ('raise', ...)"""
        for k, s, v in self.expr(test, st):
            if k != "next":
                yield k, s, v
                continue
            t = self.truth(v)
            if t is not None:
                yield "next", s, t
            else:
                # a plain name is remembered as what the branch says about it
                for b in (True, False):
                    s2 = s.fork()
                    self.learn(test, b, s2)
                    yield "next", s2, b

    def learn(self, test, b, st):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.learn(test.operand, not b, st)
        nm, val = None, None
        if isinstance(test, ast.Name):
            nm, val = test.id, Box(truth=True) if b else None
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == b
            nm, val = test.left.id, Const(None) if isnone else Box(truth=None)
        if nm and val is not None:
            for f in reversed(st.frames):
                if nm in f:
                    if isinstance(f[nm], Opaque):
                        f[nm] = val
                    break

    def dotted(self, n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        parts.append(n.id if isinstance(n, ast.Name) else "?")
        return ".".join(reversed(parts))

    def call(self, n, st):
        d = self.dotted(n.func)
        recv = n.func.value if isinstance(n.func, ast.Attribute) else None
        kids = ([recv] if recv is not None else []) + [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        for k, s, vs in self.many(kids, st):
            if k != "next":
                yield k, s, vs
                continue
            rv = vs[0] if recv is not None else None
            args = vs[1:] if recv is not None else vs
            hit = self.on_call(n, d, args, rv, s)
            if hit is not None:
                ev, may = hit
                if may:
                    yield "raise", s.fork(), "Exception"
                yield "next", s.mark(*ev), Opaque()
                continue
            fn = self.look(s, n.func.id) if isinstance(n.func, ast.Name) else None
            if isinstance(fn, Fn) and self.depth < 6:
                yield from self.inline(fn, n, args, s)
                continue
            if isinstance(rv, Box) and d.endswith(".get") and n.args and self.key(n.args[0], s) and self.key(n.args[0], s).v in rv.items:
                yield "next", s, rv.items[self.key(n.args[0], s).v]
                continue
            safe = (d in SAFE_CALLS or d.startswith(SAFE_DOTTED) or recv is not None and n.func.attr in SAFE_METHODS)
            if not safe:
                yield "raise", s.fork(), "Exception"
            yield "next", s, Opaque()

    def inline(self, fn, n, args, st):
        node = fn.node
        s = st.fork()
        base = len(s.frames) if fn.frames is None else fn.frames
        saved = s.frames[base:]
        s.frames = s.frames[:base] if fn.frames is not None else s.frames
        fr = {}
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        for p, a in zip(ps, args[:len(n.args)]):
            fr[p] = a
        for kw, a in zip(n.keywords, args[len(n.args):]):
            if kw.arg:
                fr[kw.arg] = a
        for p, dflt in zip(ps[len(ps) - len(node.args.defaults):], node.args.defaults):
            if p not in fr:
                fr[p] = Const(dflt.value) if isinstance(dflt, ast.Constant) else Opaque()
        for p in ps + [a.arg for a in node.args.kwonlyargs]:
            fr.setdefault(p, Opaque(p))
        fr["<nonlocal>"] = {x for b in ast.walk(node) if isinstance(b, (ast.Nonlocal, ast.Global)) for x in b.names}
        s.frames = s.frames + [fr]
        self.depth += 1
        try:
            outs = list(self.block(node.body, s))
        finally:
            self.depth -= 1
        for k, s2, v in outs:
            s2.frames = s2.frames[:-1] + (saved if fn.frames is not None else [])
            if k == "raise":
                yield k, s2, v
            else:
                yield "next", s2, v if k == "return" else Const(None)

    # ---- statements: yields (kind, state, value); kind next | return | raise | continue | break
    def block(self, stmts, st):
        if not stmts:
            yield "next", st, None
            return
        for k, s, v in self.stmt(stmts[0], st):
            if k == "next":
                yield from self.block(stmts[1:], s)
            else:
                yield k, s, v

    def stmt(self, n, st):
        self.count += 1
        if self.count > self.limit:
            raise TooMany()
        if isinstance(n, ast.Expr):
            for k, s, v in self.expr(n.value, st):
                yield k, s, v
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            val = n.value
            for k, s, v in self.expr(val, st):
                if k != "next":
                    yield k, s, v
                    continue
                s = s.fork()
                if isinstance(n, ast.AugAssign):
                    v = Opaque()
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    self.bind(s, t, v)
                yield "next", s, None
        elif isinstance(n, ast.If):
            for k, s, b in self.branch(n.test, st):
                if k != "next":
                    yield k, s, b
                else:
                    yield from self.block(n.body if b else n.orelse, s)
        elif isinstance(n, (ast.For, ast.While)):
            src = n.iter if isinstance(n, ast.For) else n.test
            for k, s, v in self.expr(src, st):
                if k != "next":
                    yield k, s, v
                    continue
                if not (isinstance(v, Const) and v.v):
                    yield from self.block(n.orelse, s.fork())
                s = s.fork()
                if isinstance(n, ast.For):
                    self.bind(s, n.target, Opaque())
                for k2, s2, v2 in self.block(n.body, s):
                    if k2 in ("next", "continue"):
                        yield from self.block(n.orelse, s2)
                    elif k2 == "break":
                        yield "next", s2, None
                    else:
                        yield k2, s2, v2
        elif isinstance(n, ast.Try):
            for k, s, v in self.tried(n, st):
                for k2, s2, v2 in self.block(n.finalbody, s):
                    yield (k, s2, v) if k2 == "next" else (k2, s2, v2)
        elif isinstance(n, ast.With):
            for k, s, vs in self.many([i.context_expr for i in n.items], st):
                if k != "next":
                    yield k, s, vs
                    continue
                s = s.fork()
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(s, i.optional_vars, Opaque())
                yield from self.block(n.body, s)
        elif isinstance(n, ast.Return):
            for k, s, v in self.expr(n.value, st):
                yield ("return" if k == "next" else k), s, v
        elif isinstance(n, ast.Raise):
            if n.exc is None:
                yield "raise", st, "Exception"
            else:
                x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                yield "raise", st, self.dotted(x).split(".")[-1] if isinstance(x, (ast.Name, ast.Attribute)) and self.dotted(x)[:1].isupper() else "Exception"
        elif isinstance(n, ast.Continue):
            yield "continue", st, None
        elif isinstance(n, ast.Break):
            yield "break", st, None
        elif isinstance(n, ast.FunctionDef):
            s = st.fork()
            s.frames[-1][n.name] = Fn(n, len(s.frames))
            yield "next", s, None
        elif isinstance(n, ast.Assert):
            yield "raise", st.fork(), "Exception"
            yield "next", st, None
        else:
            yield "next", st, None

    def tried(self, n, st):
        for k, s, v in self.block(n.body, st):
            if k == "next":
                yield from self.block(n.orelse, s)
            elif k == "raise":
                taken = False
                for h in n.handlers:
                    names = []
                    if h.type is not None:
                        names = [self.dotted(t).split(".")[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    whole = h.type is None or "BaseException" in names or "Exception" in names and self.is_exception(v)
                    some = whole or v in names or v == "Exception" and names
                    if not some:
                        continue
                    s2 = s.fork()
                    if h.name:
                        s2.frames[-1][h.name] = Opaque(h.name)
                    yield from self.block(h.body, s2)
                    if whole or v in names and v != "Exception":
                        taken = True
                        break
                if not taken:
                    yield "raise", s, v
            else:
                yield k, s, v
