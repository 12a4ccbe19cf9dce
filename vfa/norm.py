"""Source normal form: a loop whose only effect is to fill a list, dict or set that was empty before it is the comprehension it spells out.

    x = []                              x = [e for t in it if c]
    for t in it:            ==>
        if c:
            x.append(e)

The rewriting is applied only where the two mean the same: nothing between the initialisation and the loop mentions x, the body mentions x only to add to it,
has no other effect than binding names, and no name the loop binds is read after it.
"""
import ast


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def mentions(n, x):
    return any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(n))


def empty_kind(v):
    if isinstance(v, ast.List) and not v.elts:
        return "list"
    if isinstance(v, ast.Dict) and not v.keys:
        return "dict"
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "dict", "set") and not v.args and not v.keywords:
        return v.func.id
    return None


ADD = {"list": "append", "set": "add"}


class No(Exception):
    pass


def impure(n):
    return any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for y in ast.walk(n))


def conv(body, x, kind, gens, bound):
    """(gens, elt | (key, value)) of a loop body"""
    body = [s for s in body if not (isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body:
        raise No
    s, rest = body[0], body[1:]
    if isinstance(s, ast.If):
        if mentions(s.test, x) or impure(s.test):
            raise No
        if not rest and not s.orelse:
            gens[-1].ifs.append(s.test)
            return conv(s.body, x, kind, gens, bound)
        if not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
            gens[-1].ifs.append(ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test))
            return conv(rest, x, kind, gens, bound)
        if not rest and kind != "dict":
            a = leaf(s.body, x, kind)
            b = leaf(s.orelse, x, kind)
            return ast.copy_location(ast.IfExp(s.test, a, b), s)
        raise No
    if isinstance(s, ast.For) and not rest and not s.orelse:
        if mentions(s.iter, x) or impure(s.iter):
            raise No
        if names(s.target) & (bound | names(s.iter)):
            raise No
        bound |= names(s.target)
        gens.append(ast.comprehension(s.target, s.iter, [], 0))
        return conv(s.body, x, kind, gens, bound)
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and rest:
        p = s.targets[0].id
        if p == x or p in bound or mentions(s.value, x) or mentions(s.value, p) or impure(s.value):
            raise No
        bound.add(p)
        gens.append(ast.comprehension(s.targets[0], ast.copy_location(ast.List([s.value], ast.Load()), s.value), [], 0))
        return conv(rest, x, kind, gens, bound)
    if rest:
        raise No
    return leaf(body, x, kind)


def leaf(body, x, kind):
    if len(body) != 1:
        raise No
    s = body[0]
    if kind == "dict":
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) \
                and s.targets[0].value.id == x and not mentions(s.targets[0].slice, x) and not mentions(s.value, x) and not impure(s):
            return (s.targets[0].slice, s.value)
        raise No
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        c = s.value
        if isinstance(c.func, ast.Attribute) and c.func.attr == ADD[kind] and isinstance(c.func.value, ast.Name) and c.func.value.id == x \
                and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred) and not mentions(c.args[0], x) and not impure(c):
            return c.args[0]
    raise No


class Norm(ast.NodeVisitor):
    def __init__(self):
        self.fn = None
        self.count = 0

    def visit_FunctionDef(self, n):
        old, self.fn = self.fn, n
        self.blocks(n)
        self.fn = old

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        old, self.fn = self.fn, None
        for s in n.body:
            self.visit(s)
        self.fn = old

    def visit_Module(self, n):
        self.fn = None
        for s in n.body:
            self.visit(s)

    def blocks(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        self.visit(s)
                    else:
                        self.blocks(s)
                setattr(n, f, self.block(b))
        for h in getattr(n, "handlers", []):
            self.blocks(h)
        for c in getattr(n, "cases", []):
            self.blocks(c)

    def block(self, b):
        i = 0
        while i < len(b):
            s = b[i]
            x = v = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x, v = s.targets[0].id, s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                x, v = s.target.id, s.value
            kind = empty_kind(v) if v is not None else None
            if kind:
                for j in range(i + 1, len(b)):
                    if mentions(b[j], x):
                        r = self.loop(b[j], x, kind) if isinstance(b[j], ast.For) else None
                        if r is not None:
                            b = b[:i] + b[i + 1:j] + [r] + b[j + 1:]
                            self.count += 1
                            i -= 1
                        break
            i += 1
        return b

    def loop(self, f, x, kind):
        if f.orelse or mentions(f.iter, x) or mentions(f.target, x) or impure(f.iter) or names(f.target) & names(f.iter):
            return None
        if not all(isinstance(y, (ast.Name, ast.Tuple, ast.List, ast.Starred, ast.expr_context)) for y in ast.walk(f.target)):
            return None
        g = [ast.comprehension(f.target, f.iter, [], 0)]
        bound = names(f.target)
        try:
            e = conv(f.body, x, kind, g, bound)
        except No:
            return None
        if self.leaks(f, bound):
            return None
        if kind == "dict":
            c = ast.DictComp(e[0], e[1], g)
        else:
            c = (ast.ListComp if kind == "list" else ast.SetComp)(e, g)
        ast.copy_location(c, f)
        r = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(x, ast.Store()), f)], c), f)
        return ast.fix_missing_locations(r)

    def leaks(self, f, bound):
        """is a name the loop binds read outside it, where nothing else binds it first"""
        inside = {id(y) for y in ast.walk(f)}
        found = []

        def go(n, free):
            if id(n) in inside:
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in free:
                found.append(n)
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)) and set(n.names) & bound:
                found.append(n)
            if isinstance(n, (ast.For, ast.AsyncFor)):
                go(n.iter, free)
                inner = free if any(id(y) in inside for y in ast.walk(n)) and False else free - names(n.target)
                for s in n.body + n.orelse:
                    go(s, inner)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                t = set().union(*[names(g.target) for g in n.generators])
                for ch in ast.iter_child_nodes(n):
                    go(ch, free - t)
                return
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not self.fn:
                a = n.args
                ps = {p.arg for p in a.args + a.kwonlyargs + a.posonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
                for ch in ast.iter_child_nodes(n):
                    go(ch, free - ps)
                return
            kids = list(ast.iter_child_nodes(n))
            if any(isinstance(k, ast.stmt) for k in kids):
                seq_free = set(free)
                for k in kids:
                    go(k, seq_free)
                    if isinstance(k, ast.Assign) and len(k.targets) == 1 and isinstance(k.targets[0], ast.Name):
                        seq_free = seq_free - {k.targets[0].id}
                return
            for k in kids:
                go(k, free)

        # reads before the loop cannot see its names unless an outer loop comes round again
        outer = [n for n in ast.walk(self.fn) if isinstance(n, (ast.For, ast.While)) and any(y is f for y in ast.walk(n)) and n is not f]
        go(self.fn, set(bound))
        end = max(getattr(y, "lineno", 0) for y in ast.walk(f))
        for n in found:
            if getattr(n, "lineno", 0) >= f.lineno:
                return True
            if any(any(y is n for y in ast.walk(o)) for o in outer):
                return True
        return False


def normalise(tree):
    v = Norm()
    v.visit(tree)
    return tree
