"""Context-sensitive constant propagation: the flow analysis of interp.py with the discriminators of an input (step kind, mode,
comparator, unit, shape) fixed to one value of their finite domain while every magnitude stays an abstract leaf.  Containers built
from known keys are tracked exactly; reading a key that is not there, iterating None or parsing a constant that is no number is an
abrupt exit, so a combination the code refuses ends in `never`."""
import ast
import re

from .interp import Interp, Frame, State, Func, BINOPS
from .terms import *
from .interp import ABSENT

NEVER = mk("never")


def is_mag(n):
    return n.op == "param" and isinstance(n.args[0], str) and n.args[0].startswith("mag:")


def mag(name, crate=False, lo=None, hi=None):
    """an abstract magnitude; lo/hi bound it (exclusive), crate marks a C-rate"""
    n = mk("param", "mag:" + name + ("" if lo is None else f":{lo}..{hi}") + (":crate" if crate else ""))
    if lo is not None:
        BOUNDS[n] = (lo, hi)
    return n


BOUNDS = {}


def bounds(n):
    """interval of a numeric term, None when unknown"""
    if isnum(n):
        return (n.args[0], n.args[0])
    if is_mag(n):
        return BOUNDS.get(n)
    if n.op == "call" and n.args[0] in ("builtins.float", "builtins.int") and len(n.args[1]) == 1:
        return bounds(n.args[1][0])
    return None


def is_crate(n):
    return is_mag(n) and n.args[0].endswith(":crate")


class PE(Interp):
    def __init__(self, project, models=None, func_models=None, **k):
        k.setdefault("unroll", 400)
        k.setdefault("max_depth", 24)
        Interp.__init__(self, project, **k)
        self.models = dict(models or {})
        self.func_models = dict(func_models or {})
        self.serial = 0
        self._forced = {}
        self.failed = []

    # ------------------------------------------------------------ building inputs
    def fresh(self, kind="dict"):
        self.serial += 1
        return mk("new", kind, "v%d" % self.serial)

    def build(self, v, st):
        if isinstance(v, Node):
            return v
        if isinstance(v, dict):
            o = self.fresh()
            items = [(const(k), self.build(x, st)) for k, x in v.items()]
            st.put(mk("keysof", o), mk("keys", *[k for k, _ in items]))
            for k, x in items:
                st.put(sub(o, k), x)
            return o
        if isinstance(v, list):
            return mk("list", *[self.build(x, st) for x in v])
        if isinstance(v, tuple):
            return mk("tuple", *[self.build(x, st) for x in v])
        return const(v)

    def value(self, n, st, depth=0):
        """the python shape of a tracked value: dicts and lists expanded, leaves left as nodes"""
        if n.op == "new" and n.args[0] == "dict" and depth < 12:
            it = self.dict_items(n, st)
            if it is None:
                return n
            return {k.args[0]: self.value(v, st, depth + 1) for k, v in it}
        s = self.seq(n, st) if n.op in ("list", "new", "tuple") and not (n.op == "new" and n.args[0] != "list") else None
        if s is not None:
            return [self.value(x, st, depth + 1) for x in s]
        return n

    # ------------------------------------------------------------ abrupt exits
    def fail(self, st, n, what):
        if not st.alive:
            return NEVER
        self.emit(st, "raise", n, exc=mk("call", "builtins." + what, (), ()), how="implicit")
        self._note_raise(st)
        st.alive = False
        self.failed.append((what, self.stack[-1].func.full if self.stack else "", getattr(n, "lineno", 0)))
        return NEVER

    def s_Assert(self, n, st):
        c = self.ev(n.test, st)
        if not st.alive:
            return st
        if self.known(c, st) is False:
            self.emit(st, "assert", n, value=c)
            self.fail(st, n, "AssertionError")
            return st
        self.emit(st, "assert", n, value=c)
        for g in split_guard(c, True):
            if g not in st.guards and g[0].op != "const":
                st.guards = st.guards + (g,)
        return st

    def closed(self, b, st):
        return self.dict_items(b, st) if b.op == "new" and b.args[0] == "dict" else None

    def read_sub(self, b, k, st):
        node = ast.Constant(0)
        if b is NEVER or k is NEVER:
            return NEVER
        if b is NONE:
            return self.fail(st, node, "TypeError")
        if b.op == "new" and b.args[0] == "dict" and k.op == "const":
            it = self.closed(b, st)
            if it is not None:
                for kk, v in it:
                    if kk is k:
                        return v
                return self.fail(st, node, "KeyError")
        if b.op in ("list", "new") and not (b.op == "new" and b.args[0] != "list"):
            s = self.seq(b, st)
            if s is not None:
                if k.op == "const":
                    if isinstance(k.args[0], str):
                        return self.fail(st, node, "TypeError")
                    if isinstance(k.args[0], int):
                        if not -len(s) <= k.args[0] < len(s):
                            return self.fail(st, node, "IndexError")
                        return s[k.args[0]]
                if k.op == "slice" and all(x.op == "const" for x in k.args):
                    return mk("list", *s[slice(*(x.args[0] for x in k.args))])
        if is_str(b):
            if k.op == "const" and isinstance(k.args[0], int):
                try:
                    return const(b.args[0][k.args[0]])
                except IndexError:
                    return self.fail(st, node, "IndexError")
            if k.op == "slice" and all(x.op == "const" for x in k.args):
                return const(b.args[0][slice(*(x.args[0] for x in k.args))])
            if is_str(k):
                return self.fail(st, node, "TypeError")
        return Interp.read_sub(self, b, k, st)

    def opt_get(self, b, k, st):
        if b is NONE or b.op in ("list",) and is_str(k) or is_str(b) or is_mag(b):
            return NONE
        it = self.closed(b, st)
        if it is not None and k.op == "const":
            for kk, v in it:
                if kk is k:
                    return v
            return NONE
        if b.op == "new" and b.args[0] == "list" and is_str(k):
            return NONE
        return Interp.opt_get(self, b, k, st)

    # ------------------------------------------------------------ names
    def lookup(self, name, st):
        v = Interp.lookup(self, name, st)
        return self.force(v, st) if v.op == "global" else v

    def getattr(self, b, name, st, node, for_call=False):
        if b is NONE and for_call:
            self.fail(st, node, "AttributeError")
            return NEVER
        v = Interp.getattr(self, b, name, st, node, for_call=for_call)
        return self.force(v, st) if v.op == "global" else v

    def force(self, g, st):
        """the value of a module-level name, evaluated into the current state"""
        if g in self._forced:
            r = self._forced[g]
            if r is None:
                return g
            v, entries = r
            for k, x in entries:
                if k not in st.heap:
                    st.put(k, x)
            return v
        self._forced[g] = None
        e = self.glob_expr(g)
        if e is None:
            return g
        f = Func(e[0], "<module>", ast.parse("def _m(): pass").body[0])
        s = State({}, {}, ())
        self.stack.append(Frame(f, None, ()))
        self.mute += 1
        try:
            v = self.ev(e[1], s)
        except Exception:
            v = None
        finally:
            self.mute -= 1
            self.stack.pop()
        if v is None or not (v.op == "new" and v.args[0] in ("dict", "list") or v.op in ("list", "tuple", "set")) or (v.op == "new" and v.args[0] == "dict" and self.dict_items(v, s) is None):
            return g
        # give it an identity of its own
        if v.op == "new":
            v2 = self.copy_obj(v, s, None)
            v = v2
        self._forced[g] = (v, list(s.heap.items()))
        for k, x in s.heap.items():
            st.put(k, x)
        return v

    def default_value(self, f, p, d):
        # a mutable default nobody stored into yet: its literal
        if isinstance(d, ast.List) and all(isinstance(x, ast.Constant) or isinstance(x, ast.UnaryOp) for x in d.elts):
            return mk("list", *[self.eval_at_module(f.module, x) for x in d.elts])
        return Interp.default_value(self, f, p, d)

    # ------------------------------------------------------------ control flow
    def s_While(self, n, st):
        if isinstance(n.test, ast.Constant):
            return self._loop(n, st)
        c = self.ev(n.test, st.fork())
        if self.known(c, st) is None:
            return self._loop(n, st)
        fr = self.stack[-1]
        fr.loops.append({"b": [], "c": [], "kind": "unrolled"})
        old = self.iters
        try:
            for i in range(300):
                if not st.alive:
                    break
                self.iters = old + ((n.lineno, n.col_offset, i),)
                c = self.ev(n.test, st)
                kn = self.known(c, st)
                if kn is False:
                    break
                if kn is None:
                    st.guards = st.guards + tuple(g for g in split_guard(c, True) if g not in st.guards)
                    fr.loops[-1]["b"].append(self.branch(st, c, False))
                fr.loops[-1]["c"] = []
                st = self.block(n.body, st)
                for x in fr.loops[-1]["c"]:
                    x.alive = True
                    st = self.join(x, st) if st.alive else x
            for b in fr.loops[-1]["b"]:
                b.alive = True
                st = self.join(b, st) if st.alive else b
        finally:
            fr.loops.pop()
            self.iters = old
        return st

    def iterable(self, it, st, n):
        if it is NONE:
            self.fail(st, n, "TypeError")
        return st.alive

    # ------------------------------------------------------------ folding
    def e_Compare(self, n, st):
        return self.fold(Interp.e_Compare(self, n, st), st)

    def fold(self, c, st):
        if c.op == "not":
            return neg(self.fold(c.args[0], st))
        if c.op == "bool":
            return bool_(c.args[0], [self.fold(x, st) for x in c.args[1]])
        if c.op == "cmp":
            o, a, b = c.args
            if o in ("is", "==") and a.op == "ext" and b.op == "ext":
                return const(a is b)
            if o == "in" and a is const("C") and is_mag(b):
                return const(is_crate(b))
            if o == "in" and a.op == "const" and b.op in ("list", "tuple", "set") and not b.args:
                return FALSE
            if o in ("==", "is") and a is b and not contains(a, lambda x: x.op in ("call", "meth")):
                return TRUE
            if o == "==":
                x, y = self.plain(a, st), self.plain(b, st)
                if x is not None and y is not None:
                    return const(x[0] == y[0])
                if is_mag(a) and b is NONE or a.op in ("new", "list") and b.op == "const":
                    return FALSE
            if o in ("<", "<="):
                x, y = bounds(a), bounds(b)
                if x and y:
                    if x[1] < y[0]:
                        return TRUE
                    if x[0] > y[1]:
                        return FALSE
            if o == "is" and b is NONE and (is_mag(a) or a.op in ("fmt", "str")):
                return FALSE
        return c

    def known(self, c, st):
        c2, p = truth(c)
        if c2.op == "rematch":
            return p
        if c2.op in ("list", "tuple") and not any(x.op == "star" for x in c2.args):
            return bool(c2.args) == p
        if c2.op == "new" and c2.args[0] in ("list", "dict"):
            s = self.seq(c2, st)
            if s is not None:
                return bool(s) == p
        if c2.op in ("func", "bound", "closure", "class"):
            return p
        return Interp.known(self, c, st)

    def texts(self, v):
        """formatted constants folded"""
        if v.op == "fmt" and v.args[0].op == "const" and v.args[1].op == "const":
            try:
                return const(format(v.args[0].args[0], v.args[1].args[0]))
            except Exception:
                return v
        if v.op == "str":
            return str_([self.texts(x) for x in v.args])
        return v

    def e_JoinedStr(self, n, st):
        return self.texts(Interp.e_JoinedStr(self, n, st))

    def plain(self, n, st):
        """(python value,) of a term made of constants only"""
        if n.op == "const":
            return (n.args[0],)
        if n.op in ("list", "tuple") or n.op == "new" and n.args[0] == "list":
            s = self.seq(n, st)
            if s is None:
                return None
            xs = [self.plain(x, st) for x in s]
            if any(x is None for x in xs):
                return None
            xs = [x[0] for x in xs]
            return (tuple(xs) if n.op == "tuple" else xs,)
        if n.op == "set":
            xs = [self.plain(x, st) for x in n.args]
            return None if any(x is None for x in xs) else (set(x[0] for x in xs),)
        return None

    def e_UnaryOp(self, n, st):
        r = Interp.e_UnaryOp(self, n, st)
        return self.fold(r, st) if r.op == "not" else r

    def inline(self, f, args, kwargs, st, n, cls=None, closure=None, undecorated=False):
        m = self.func_models.get(f.full)
        if m is not None:
            r = m(self, args, kwargs, st, n)
            self.emit(st, "call", n, target=f.full, recv=None, args=tuple(args), kwargs=dict(kwargs), result=r)
            return r
        return Interp.inline(self, f, args, kwargs, st, n, cls, closure, undecorated)

    def copy_obj(self, x, st, n, deep=True):
        if x.op == "global":
            x = self.force(x, st)
        if x.op == "new" and x.args[0] == "dict":
            it = self.dict_items(x, st)
            if it is not None:
                o = self.fresh()
                st.put(mk("keysof", o), mk("keys", *[k for k, _ in it]))
                for k, v in it:
                    st.put(sub(o, k), (self.copy_obj(v, st, n) or v) if deep else v)
                return o
        if x.op == "list" and deep:
            return mk("list", *[self.copy_obj(y, st, n) or y for y in x.args])
        if x.op == "new" and x.args[0] == "list":
            s = self.seq(x, st)
            if s is not None:
                o = self.fresh("list")
                st.put(mk("seqof", o), mk("seq", *[(self.copy_obj(y, st, n) or y) if deep else y for y in s]))
                return o
        if is_mag(x) or x.op in ("fmt", "str"):
            return x
        return Interp.copy_obj(self, x, st, n, deep)

    def call_ext(self, name, args, kwargs, st, n):
        if any(a is NEVER for a in args):
            return NEVER
        m = self.models.get(name)
        if m is not None:
            r = m(self, args, kwargs, st, n)
            if r is not None:
                self.emit(st, "call", n, target=name, recv=None, args=tuple(args), kwargs=kwargs, result=r)
                return r
        if name == "pydash.get" and len(args) >= 2 and is_str(args[1]) and args[1].args[0]:
            cur = args[0]
            for p in args[1].args[0].split("."):
                cur = self.opt_get(cur, const(p), st)
            return args[2] if cur is NONE and len(args) > 2 else cur
        if name in ("pydash.clone_deep", "pydash.clone") and args:
            r = self.copy_obj(args[0], st, n, deep=name.endswith("deep"))
            if r is not None:
                return r
        if name in ("re.search", "re.match", "re.fullmatch") and len(args) >= 2 and all(is_str(a) for a in args[:2]):
            mm = getattr(re, name[3:])(args[0].args[0], args[1].args[0])
            return NONE if mm is None else mk("rematch", mm.group(), tuple(mm.groups()))
        if name in ("collections.OrderedDict.keys", "builtins.dict.keys") and len(args) == 1:
            return mk("keysview", args[0])
        if name in ("collections.OrderedDict.items", "builtins.dict.items") and len(args) == 1:
            return mk("items", args[0])
        if name == "builtins.list.reverse" and len(args) == 1:
            return self.reverse(args[0], st, n, n.args[0])
        if name == "builtins.str.maketrans":
            return mk("maketrans", *args)
        return Interp.call_ext(self, name, args, kwargs, st, n)

    def reverse(self, v, st, n, target):
        s = self.seq(v, st)
        if s is None:
            return NONE
        if v.op == "new":
            st.put(mk("seqof", v), mk("seq", *reversed(s)))
        elif isinstance(target, (ast.Name, ast.Attribute)):
            self.assign(target, mk("list", *reversed(s)), st, n)
        return NONE

    def model_builtin(self, name, args, kwargs, st, n):
        if name == "type" and len(args) == 1:
            x = args[0]
            t = None
            if x.op == "const":
                t = type(x.args[0]).__name__
            elif x.op in ("str", "fmt") or is_mag(x):
                t = "str"
            elif x.op == "list" or x.op == "new" and x.args[0] == "list":
                t = "list"
            elif x.op == "tuple":
                t = "tuple"
            elif x.op == "new" and x.args[0] == "dict":
                t = "dict"
            if t and t != "NoneType":
                return mk("ext", "builtins." + t)
        if name in ("int", "float") and len(args) == 1:
            x = args[0]
            if x is NONE or is_crate(x) or x.op in ("list", "new"):
                return self.fail(st, n, "ValueError")
            if is_str(x):
                try:
                    return const((int if name == "int" else float)(x.args[0]))
                except ValueError:
                    return self.fail(st, n, "ValueError")
        if name == "len" and len(args) == 1:
            if is_str(args[0]):
                return const(len(args[0].args[0]))
            if args[0] is NONE:
                return self.fail(st, n, "TypeError")
            if args[0].op in ("items", "keysview", "valuesview"):
                s = self.seq(args[0], st)
                if s is not None:
                    return const(len(s))
            if args[0].op == "set" and all(x.op == "const" for x in args[0].args):
                return const(len(set(args[0].args)))
        if name == "abs" and len(args) == 1 and isnum(args[0]):
            return const(abs(args[0].args[0]))
        if name == "bool" and len(args) == 1:
            k = self.known(args[0], st)
            if k is not None:
                return const(k)
        if name == "str" and len(args) == 1 and args[0].op == "const":
            return const(str(args[0].args[0]))
        if name == "round" and len(args) == 1 and isnum(args[0]):
            return const(round(args[0].args[0]))
        if name == "format" and len(args) == 2:
            return self.texts(mk("fmt", args[0], args[1]))
        if name in ("max", "min") and len(args) > 1 and all(isnum(a) for a in args):
            return const({"max": max, "min": min}[name](a.args[0] for a in args))
        if name == "set" and not args:
            o = self.fresh("list")
            st.put(mk("seqof", o), mk("seq"))
            return o
        if name == "frozenset" and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None:
                return mk("set", *s)
        if name == "reversed" and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None:
                return mk("list", *reversed(s))
        if name == "sorted" and len(args) == 1 and not kwargs:
            p = self.plain(args[0], st) if args[0].op != "new" or args[0].args[0] == "list" else None
            if p is None and args[0].op == "new":
                s = self.seq(args[0], st)
                p = ([x.args[0] for x in s],) if s is not None and all(x.op == "const" for x in s) else None
            if p is not None:
                try:
                    return mk("list", *[const(x) if not isinstance(x, tuple) else mk("tuple", *[const(y) for y in x]) for x in sorted(p[0])])
                except TypeError:
                    pass
        if name == "filter" and len(args) == 2:
            s = self.seq(args[1], st)
            if s is not None:
                out = []
                for x in s:
                    v = self.call_value(args[0], [x], {}, st, n)
                    k = self.known(v, st)
                    if k is None:
                        return None
                    if k:
                        out.append(x)
                return mk("list", *out)
        if name == "str" and len(args) == 1 and (is_mag(args[0]) or args[0].op == "fmt"):
            return args[0]
        return Interp.model_builtin(self, name, args, kwargs, st, n)

    def isinstance_(self, x, c, st):
        names = c.args if c.op in ("tuple", "list") else (c,)
        ext = [k.args[0].split(".")[-1] for k in names if k.op == "ext"]
        if len(ext) == len(names):
            if is_mag(x) or x.op in ("fmt", "str") or is_str(x):
                return const("str" in ext)
            if x.op == "new" and x.args[0] == "dict":
                return const(any(e in ("dict", "OrderedDict", "Mapping", "MutableMapping") for e in ext))
            if x.op == "list" or x.op == "new" and x.args[0] == "list":
                return const("list" in ext)
            if x is NONE:
                return FALSE
            if x.op == "const":
                t = type(x.args[0]).__name__
                return const(t in ext or t == "bool" and "int" in ext)
        return Interp.isinstance_(self, x, c, st)

    def model_method(self, b, name, args, kwargs, st, n):
        if b is NEVER:
            return NEVER
        m = self.models.get("." + name)
        if m is not None:
            r = m(self, [b] + list(args), kwargs, st, n)
            if r is not None:
                return r
        if b.op == "rematch":
            if name == "group":
                i = args[0].args[0] if args else 0
                return const(b.args[0] if i == 0 else b.args[1][i - 1])
            if name == "groups":
                return mk("tuple", *[const(x) for x in b.args[1]])
        if is_str(b):
            if name == "translate" and len(args) == 1 and args[0].op == "maketrans" and all(is_str(x) for x in args[0].args):
                return const(b.args[0].translate(str.maketrans(*[x.args[0] for x in args[0].args])))
            if name in ("find", "index", "count", "isdigit", "isnumeric", "rjust", "rsplit", "partition", "center", "removesuffix", "removeprefix", "casefold", "isspace") \
                    and all(x.op == "const" for x in args) and not kwargs:
                try:
                    v = getattr(b.args[0], name)(*[x.args[0] for x in args])
                except Exception:
                    return self.fail(st, n, "ValueError")
                return mk("list", *[const(x) for x in v]) if isinstance(v, list) else mk("tuple", *[const(x) for x in v]) if isinstance(v, tuple) else const(v)
        if b.op == "new" and b.args[0] == "list":
            s = self.seq(b, st)
            if s is not None:
                if name == "add" and len(args) == 1:
                    if args[0] not in s:
                        self.list_add(b, args[0], st)
                    return NONE
                if name == "update" and len(args) == 1:
                    for x in self.seq(args[0], st) or [mk("elem", args[0])]:
                        if x not in s:
                            self.list_add(b, x, st)
                    return NONE
                if name == "reverse" and not args:
                    return self.reverse(b, st, n, None)
                if name == "insert" and len(args) == 2 and isinstance(cval(args[0]), int):
                    s.insert(args[0].args[0], args[1])
                    st.put(mk("seqof", b), mk("seq", *s))
                    return NONE
                if name == "pop" and len(args) <= 1 and (not args or isinstance(cval(args[0]), int)) and s:
                    v = s.pop(args[0].args[0] if args else -1)
                    st.put(mk("seqof", b), mk("seq", *s))
                    return v
        if b.op == "list" and name == "reverse" and not args and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            return self.reverse(b, st, n, n.func.value)
        if b.op == "list" and name in ("append", "extend", "insert") and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Attribute, ast.Subscript)):
            # an immutable list term held in a variable: give it an identity first
            o = self.fresh("list")
            st.put(mk("seqof", o), mk("seq", *b.args))
            self.assign(n.func.value, o, st, n)
            return self.model_method(o, name, args, kwargs, st, n)
        if b.op == "new" and b.args[0] == "dict":
            it = self.closed(b, st)
            if name == "set" and len(args) == 2 and is_str(args[0]):
                ps = args[0].args[0].split(".")
                cur = b
                for p in ps[:-1]:
                    cur = self.read_sub(cur, const(p), st)
                if cur is not NEVER:
                    self.store_sub(cur, const(ps[-1]), args[1], st, n)
                return NONE
            if name == "get_path" and len(args) >= 1 and is_str(args[0]):
                return self.call_ext("pydash.get", [b] + list(args), {}, st, n)
            if name == "unset" and len(args) == 1 and is_str(args[0]):
                ps = args[0].args[0].split(".")
                cur = b
                for p in ps[:-1]:
                    cur = self.opt_get(cur, const(p), st)
                if cur.op == "new":
                    st.put(sub(cur, const(ps[-1])), ABSENT)
                return NONE
            if name == "pop" and it is not None and args and args[0].op == "const":
                v = dict(it).get(args[0])
                if v is None:
                    return args[1] if len(args) > 1 else self.fail(st, n, "KeyError")
                st.put(sub(b, args[0]), ABSENT)
                return v
            if name == "setdefault" and it is not None and args and args[0].op == "const":
                v = dict(it).get(args[0])
                if v is None:
                    v = args[1] if len(args) > 1 else NONE
                    self._put_sub(b, args[0], v, st)
                return v
        if name in ("strip", "lstrip", "rstrip") and is_mag(b) and not args:
            return b
        r = Interp.model_method(self, b, name, args, kwargs, st, n)
        return self.texts(r) if r is not None and r.op == "str" else r
