"""Flow-sensitive value-flow construction over the AST.

One structured pass per function: branches are joined with gates (no path enumeration, no solver), calls to
functions of the analysed package are inlined (helper extraction is transparent), loops over statically known
sequences are expanded element by element (loop / straight-line rewrites are transparent), other loops are
evaluated once for the loop-carried names and once for the effects.  The result is a list of Events (calls, stores, raises,
returns, asserts) whose operands are terms, each with the branch conditions and the try/loop context it is under.
"""
import ast
import re
import sys

from .project import Class, Func, Module, AnalysisError, import_names
from .terms import *
from . import terms as T

sys.setrecursionlimit(20000)

UNDEF = mk("undef")
ABSENT = mk("absent")
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
SERIES_OPS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*", "div": "/", "divide": "/", "truediv": "/"}
NUMPY_OPS = {"numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.true_divide": "/", "numpy.equal": "==", "numpy.not_equal": "!=", "numpy.less": "<", "numpy.less_equal": "<=",
             "numpy.greater": ">", "numpy.greater_equal": ">="}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
# frame -> frame operations that keep the columns
ROWOPS = {"reset_index", "sort_values", "sort_index", "copy", "astype", "dropna", "fillna", "head", "tail", "drop",
          "set_index", "infer_objects", "query", "rename_axis", "drop_duplicates", "sample", "round", "interpolate", "ffill", "bfill", "truncate"}


class Event:
    __slots__ = ("idx", "kind", "fn", "line", "guards", "ctx", "target", "recv", "args", "kwargs", "result",
                 "base", "key", "how", "value", "exc", "heap", "bound", "stack", "node")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, None)
        for a, b in k.items():
            setattr(self, a, b)

    def where(self):
        return f"{self.fn.module.rel}:{self.line} in {self.fn.qual}"

    def __repr__(self):
        g = " & ".join(("" if p else "!") + show(c, 6) for c, p in self.guards)
        if self.kind == "call":
            body = f"{self.target}({', '.join(map(repr, self.args))}{''.join(f', {k}={v!r}' for k, v in self.kwargs.items())})" if self.recv is None else f"{self.recv!r} .{self.target}({', '.join(map(repr, self.args))}{''.join(f', {k}={v!r}' for k, v in self.kwargs.items())})"
        elif self.kind in ("store", "del", "aug"):
            body = f"{self.base!r}{'.' if self.how == 'attr' else ''}[{self.key!r}] = {self.value!r}"
        elif self.kind == "raise":
            body = f"{self.exc!r}"
        else:
            body = f"{self.value!r}"
        return f"#{self.idx} {self.kind} {self.fn.qual}:{self.line} {body} [{g}] ctx={self.ctx}"


class State:
    __slots__ = ("env", "heap", "guards", "alive", "_cow")

    def __init__(self, env, heap, guards, alive=True):
        self.env, self.heap, self.guards, self.alive, self._cow = env, heap, guards, alive, False

    def fork(self):
        self._cow = True
        s = State(dict(self.env), self.heap, self.guards, self.alive)
        s._cow = True
        return s

    def put(self, loc, v):
        if self._cow:
            self.heap = dict(self.heap)
            self._cow = False
        self.heap[loc] = v

    def rm(self, loc):
        if loc in self.heap:
            if self._cow:
                self.heap = dict(self.heap)
                self._cow = False
            del self.heap[loc]

    def snap(self):
        self._cow = True
        return self.heap


class Frame:
    def __init__(self, func, cls, entry_guards, closure=None, selfnode=None):
        self.func, self.cls, self.entry, self.closure, self.selfnode = func, cls, entry_guards, closure, selfnode
        self.returns, self.yields, self.loops, self.tries = [], [], [], []
        self.locals_imports = {}
        self.callst = None


class Interp:
    def __init__(self, project, max_depth=14, no_inline=(), types=None, unroll=48, max_events=400000, inline_pred=None, ret_types=None):
        self.inline_pred, self.ret_types = inline_pred, dict(ret_types or {})
        self.P = project
        self.events = []
        self.ctx = ()
        self.stack = []          # frames
        self.callpath = ()       # call-site lines
        self.iters = ()
        self.mute = 0
        self.max_depth, self.no_inline, self.unroll = max_depth, set(no_inline), unroll
        self.types = dict(types or {})
        self.sites = {}
        self.closures = {}
        self.max_events = max_events
        self._gcache = {}
        self._gbusy = set()
        self.nfuncs = set()
        self.tryseq = 0
        self.loopinfo = {}
        self.tryinfo = {}
        self.pure_results = {}
        self.born = {}

    # ---------------------------------------------------------------- entry points
    def run(self, func, args=None, self_node=None, cls=None, heap=None, guards=()):
        """analyse func as a root; returns (result, state, events of this run)"""
        start = len(self.events)
        st = State({}, dict(heap or {}), tuple(guards))
        env_args, env_kw = [], dict(args or {})
        cls = cls or func.cls
        if func.cls is not None and not func.is_static and func.params:
            if func.is_classmethod:
                env_kw.setdefault(func.params[0], mk("class", cls.full))
            else:
                s = self_node or mk("param", "self")
                self.types.setdefault(s, cls)
                env_kw.setdefault(func.params[0], s)
        for p in func.params + func.kwonly:
            if p not in env_kw:
                env_kw[p] = mk("param", p)
        if func.vararg:
            env_kw.setdefault(func.vararg, mk("param", "*" + func.vararg))
        if func.kwarg:
            env_kw.setdefault(func.kwarg, mk("param", "**" + func.kwarg))
        res, st2 = self._exec_func(func, env_kw, st, cls, top=True)
        return res, st2, self.events[start:]

    # ---------------------------------------------------------------- events
    def emit(self, st, kind, node, **k):
        if self.mute:
            return Event(kind=kind, fn=self.stack[-1].func, line=getattr(node, "lineno", 0), guards=st.guards, ctx=self.ctx, kwargs=k.pop("kwargs", {}), **k)
        fr = self.stack[-1]
        if len(self.events) > self.max_events:
            raise AnalysisError("analysis budget exceeded (events)")
        ev = Event(idx=len(self.events), kind=kind, fn=fr.func, line=getattr(node, "lineno", 0), guards=st.guards,
                   ctx=self.ctx, heap=st.snap(), stack=tuple(f.func for f in self.stack), node=node, **k)
        self.events.append(ev)
        return ev

    def site(self, node, kind=""):
        key = (self.callpath, self.iters, self.stack[-1].func.full if self.stack else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), kind)
        if key not in self.sites:
            self.sites[key] = len(self.sites) + 1
        return self.sites[key]

    def new(self, kind, node):
        o = mk("new", kind, self.site(node, kind))
        self.born[o] = self.ctx
        return o

    # ---------------------------------------------------------------- functions
    def _exec_func(self, func, env, st, cls=None, top=False, closure=None):
        self.nfuncs.add(func.full)
        fr = Frame(func, cls or func.cls, st.guards, closure)
        self.stack.append(fr)
        s = State(dict(env), st.heap, st.guards)
        s._cow = True
        st._cow = True
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body, s)
                fr.returns.append((s, v))
            else:
                s = self.block(func.node.body, s)
                if s.alive:
                    if top:
                        self.emit(s, "return", func.node, value=NONE, how="implicit")
                    fr.returns.append((s, NONE))
        finally:
            self.stack.pop()
        if func.is_generator:
            v = mk("gen", *[x for x in fr.yields]) if fr.yields else mk("gen")
            fr.returns = [(r, v) for r, _ in fr.returns] or [(s, v)]
        if not fr.returns:
            out = State(dict(st.env), s.heap if s else st.heap, st.guards, False)
            out._cow = True
            return mk("never"), out
        # combine return states
        n0 = len(fr.entry)
        common = None
        for r, _ in fr.returns:
            gs = list(r.guards[n0:])
            common = gs if common is None else [g for g in common if g in gs]
        res, heap, seen = None, None, []
        for r, v in reversed(fr.returns):
            own = [g for g in r.guards[n0:] if g not in common]
            if res is None:
                res, heap, seen = v, r.heap, [own]
                continue
            cond = self.tells(own, seen)
            seen.append(own)
            res = ite(cond, v, res)
            heap = self.join_heaps(cond, r.heap, heap)
        out = State(dict(st.env), heap, fr.entry + tuple(common) + self.reach(seen))
        out._cow = True
        return res, out

    def tells(self, own, others):
        """a condition that tells the path with these guards from the other ones"""
        for c, p in own:
            if others and all((c, not p) in o for o in others):
                return c if p else neg(c)
        return self.conj(own)

    def reach(self, paths):
        """what is known once one of several paths was taken: () when they cover everything"""
        fs = [frozenset(p) for p in paths]
        changed = True
        while changed:
            changed = False
            fs = list(dict.fromkeys(fs))
            if any(not f for f in fs) or len(fs) > 12:
                return ()
            for a in fs:
                for b in fs:
                    if a is b:
                        continue
                    if a <= b:
                        fs.remove(b)
                        changed = True
                        break
                    for c, p in b:
                        opp = frozenset(split_guard(c, not p)) if c.op == "bool" else frozenset([(c, not p)])
                        if opp <= a and a - opp <= b - {(c, p)}:
                            fs[fs.index(b)] = b - {(c, p)}
                            changed = True
                            break
                    if changed:
                        break
                if changed:
                    break
        if len(fs) < 2 or len(fs) > 3:
            return ()
        return ((bool_("or", sorted((self.conj(sorted(f, key=lambda g: (g[0].uid, g[1]))) for f in fs), key=lambda x: x.uid)), True),)

    def conj(self, gs):
        if not gs:
            return TRUE
        return bool_("and", [c if p else neg(c) for c, p in gs])

    def join_heaps(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for loc in list(h1) + [x for x in h2 if x not in h1]:
            a, b = h1.get(loc), h2.get(loc)
            if a is b:
                out[loc] = a
                continue
            d = self.default_at(loc)
            out[loc] = ite(c, a if a is not None else d, b if b is not None else d)
        return out

    def default_at(self, loc):
        b = loc.args[0] if loc.op in ("sub", "attr") else None
        if loc.op == "seqof":
            return mk("seq")
        if loc.op == "open":
            return FALSE
        if b is not None and b.op == "new":
            return ABSENT
        return loc

    def join(self, s1, s2, cond=None):
        if s1 is None or not s1.alive:
            return s2
        if s2 is None or not s2.alive:
            return s1
        g1, g2 = s1.guards, s2.guards
        k = 0
        while k < len(g1) and k < len(g2) and g1[k] == g2[k]:
            k += 1
        rest2 = set(g2[k:])
        common = g1[:k] + tuple(g for g in g1[k:] if g in rest2)
        own1, own2 = [g for g in g1[k:] if g not in rest2], [g for g in g2[k:] if g not in set(g1[k:])]
        extra = self.reach([own1, own2])
        if cond is None:
            cond = self.tells(own1, [own2])
            if cond is TRUE:
                c2 = self.conj([g for g in g2[k:] if g not in set(g1[k:])])
                cond = neg(c2) if c2 is not TRUE else mk("join", 0)
        env = {}
        for n in list(s1.env) + [x for x in s2.env if x not in s1.env]:
            a, b = s1.env.get(n, UNDEF), s2.env.get(n, UNDEF)
            env[n] = a if a is b else (phi([a, b]) if cond.op == "join" else ite(cond, a, b))
        heap = self.join_heaps(cond, s1.heap, s2.heap) if cond.op != "join" else self.phi_heaps(s1.heap, s2.heap)
        s = State(env, heap, common + extra)
        s._cow = True
        return s

    def phi_heaps(self, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for loc in list(h1) + [x for x in h2 if x not in h1]:
            a, b = h1.get(loc), h2.get(loc)
            d = self.default_at(loc)
            a = a if a is not None else d
            b = b if b is not None else d
            out[loc] = a if a is b else phi([a, b])
        return out

    def phi_states(self, states):
        states = [s for s in states if s is not None]
        out = states[0].fork()
        for s in states[1:]:
            env = {}
            for n in list(out.env) + [x for x in s.env if x not in out.env]:
                a, b = out.env.get(n, UNDEF), s.env.get(n, UNDEF)
                env[n] = a if a is b else phi([a, b])
            out.env = env
            out.heap = self.phi_heaps(out.heap, s.heap)
            out._cow = True
            out.guards = tuple(g for g in out.guards if g in s.guards)
        out.alive = True
        return out

    def known(self, c, st):
        """truth of an effect-free condition implied by the conditions already taken"""
        c2, p = truth(c)
        if c2.op == "const":
            return bool(c2.args[0]) == p
        gs = dict(st.guards)
        if c2 in gs and not contains(c2, lambda x: x.op in ("call", "meth", "mu", "elem")):
            return gs[c2] == p
        if c2.op == "cmp" and c2.args[0] == "is" and c2.args[2] is NONE:
            # x truthy => x is not None
            if gs.get(c2.args[1]) is True and not contains(c2, lambda x: x.op in ("call", "meth", "mu", "elem")):
                return not p
        if c2.op == "cmp" and c2.args[0] == "==" and c2.args[2].op == "const":
            # x == 'a' known => x == 'b' is false
            for g, pol in st.guards:
                if pol and g.op == "cmp" and g.args[0] == "==" and g.args[1] is c2.args[1] and g.args[2].op == "const" and g.args[2] is not c2.args[2]:
                    return not p
        return None

    def branch(self, st, c, pol):
        s = st.fork()
        for g in split_guard(c, pol):
            if g not in s.guards:
                s.guards = s.guards + (g,)
        return s

    # ---------------------------------------------------------------- statements
    def block(self, body, st):
        for x in body:
            if not st.alive:
                break
            st = self.stmt(x, st)
        return st

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(n).__name__} at {self.stack[-1].func.where()}:{n.lineno}")
        return m(n, st) or st

    def s_Expr(self, n, st):
        self.ev(n.value, st)

    def s_Pass(self, n, st):
        pass

    def s_Global(self, n, st):
        for name in n.names:
            st.env["$global:" + name] = TRUE

    def s_Nonlocal(self, n, st):
        pass

    def cell_of(self, name):
        """heap cell of a variable that nested functions rebind (nonlocal)"""
        fr = self.stack[-1]
        f = fr.func
        if name in f.cells:
            return mk("cell", f.full, name)
        if f.outer is not None and (name in f.nonlocals or name not in f.locals_):
            f = f.outer
            while f is not None:
                if name in f.cells:
                    return mk("cell", f.full, name)
                if name in f.locals_:
                    return None
                f = f.outer
        return None

    def s_Match(self, n, st):
        subj = self.ev(n.subject, st)
        def pat(p):
            if isinstance(p, ast.MatchValue):
                return cmp_("==", subj, self.ev(p.value, st)), {}
            if isinstance(p, ast.MatchSingleton):
                return cmp_("is", subj, const(p.value)), {}
            if isinstance(p, ast.MatchOr):
                return bool_("or", [pat(x)[0] for x in p.patterns]), {}
            if isinstance(p, ast.MatchAs):
                b = {p.name: subj} if p.name else {}
                if p.pattern is None:
                    return TRUE, b
                c, b2 = pat(p.pattern)
                b2.update(b)
                return c, b2
            return mk("matches", subj, n.lineno, p.lineno, p.col_offset), {}
        def rec(i, s):
            if i == len(n.cases):
                return s
            case = n.cases[i]
            c, b = pat(case.pattern)
            s.env.update(b)
            if case.guard is not None:
                c = bool_("and", [c, self.ev(case.guard, s)])
            kn = self.known(c, s)
            if kn is True:
                return self.block(case.body, s)
            if kn is False:
                return rec(i + 1, s)
            x = self.block(case.body, self.branch(s, c, True))
            y = rec(i + 1, self.branch(s, c, False))
            if not x.alive and not y.alive:
                s.alive = False
                s.heap, s._cow = x.heap, True
                return s
            if not x.alive:
                return y
            if not y.alive:
                return x
            return self.join(x, y, c)
        return rec(0, st)

    def s_Import(self, n, st):
        for k, v in import_names(n, self.stack[-1].func.module).items():
            st.env[k] = self.dotted(v)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, n, st):
        fr = self.stack[-1]
        f = Func(fr.func.module, fr.func.qual + "." + n.name, n, cls=None, outer=fr.func)
        st.env[n.name] = self.closure(f, st, fr)
        # make recursion/self-reference visible
        self.closures[st.env[n.name].args[0]][1][n.name] = st.env[n.name]
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st)
            st.env[n.name] = self.call_value(dv, [st.env[n.name]], {}, st, d)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st):
        st.env[n.name] = mk("localclass", n.name)

    def closure(self, f, st, fr):
        i = self.site(f.node, "closure")
        env = dict(fr.closure) if fr.closure else {}
        env.update(st.env)
        self.closures[i] = (f, env, fr.cls)
        return mk("closure", i)

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        if not st.alive:
            return st
        fr = self.stack[-1]
        if len(self.stack) == 1:
            self.emit(st, "return", n, value=v)
        else:
            self.emit(st, "ireturn", n, value=v)
        fr.returns.append((st.fork(), v))
        st.alive = False

    def s_Raise(self, n, st):
        e = self.ev(n.exc, st) if n.exc is not None else mk("reraise")
        if n.cause is not None:
            self.ev(n.cause, st)
        self.emit(st, "raise", n, exc=e)
        self._note_raise(st)
        st.alive = False

    def _note_raise(self, st):
        for i, fr in enumerate(reversed(self.stack)):
            if fr.tries:
                s = st.fork()
                if i and fr.callst is not None:
                    s.env = dict(fr.callst.env)
                    s.guards = fr.callst.guards
                fr.tries[-1].append(s)
                return

    def s_Assert(self, n, st):
        c = self.ev(n.test, st)
        self.emit(st, "assert", n, value=c)
        for g in split_guard(c, True):
            if g not in st.guards and g[0].op != "const":
                st.guards = st.guards + (g,)

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b, k = self.ev(t.value, st), self.ev(t.slice, st)
                self.emit(st, "del", n, base=b, key=k, how="sub")
                st.put(sub(b, k), ABSENT)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.emit(st, "del", n, base=b, key=const(t.attr), how="attr")

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st, n)

    def s_AugAssign(self, n, st):
        op = BINOPS[type(n.op)]
        load = ast.copy_location(_as_load(n.target), n.target)
        old = self.ev(load, st)
        rhs = self.ev(n.value, st)
        new = self.binop(op, old, rhs, st, n)
        if isinstance(n.target, ast.Name):
            if not (is_const(old) or old.op in ("str", "bin")):
                self.emit(st, "aug", n, base=old, key=const(op), value=rhs, how="aug")
            if old.op == "new" and old.args[0] == "list" and op == "+":
                for e in (self.seq(rhs, st) or [mk("elem", rhs)]):
                    self.list_add(old, e, st)
                return
            self.assign(n.target, new, st, n)
        else:
            self.assign(n.target, new, st, n)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            cell = self.cell_of(t.id)
            if cell is not None:
                st.put(cell, v)
                st.env.pop(t.id, None)
            else:
                st.env[t.id] = v
            if v.op == "const" and isinstance(node, (ast.Assign, ast.AnnAssign)):
                self.emit(st, "assign", node, key=const(t.id), value=v, base=cell)
            if "$global:" + t.id in st.env:
                g = mk("global", self.stack[-1].func.module.name + "." + t.id)
                self.emit(st, "store", node, base=mk("module", self.stack[-1].func.module.name), key=const(t.id), value=v, how="attr")
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts), st) if not stars else None
            for i, e in enumerate(t.elts):
                if items is not None:
                    self.assign(e, items[i], st, node)
                elif isinstance(e, ast.Starred):
                    self.assign(e.value, sub(v, mk("slice", const(i), NONE, NONE)), st, node)
                elif stars and i > stars[0]:
                    self.assign(e, sub(v, const(i - len(t.elts))), st, node)
                else:
                    self.assign(e, sub(v, const(i)), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.store_attr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b, k = self.ev(t.value, st), self.ev(t.slice, st)
            self.store_sub(b, k, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, v, n, st):
        s = self.seq(v, st)
        if s is not None and len(s) == n:
            return s
        if v.op == "ite":
            a, b = self.unpack(v.args[1], n, st), self.unpack(v.args[2], n, st)
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        if v.op == "phi":
            cols = [self.unpack(x, n, st) for x in v.args]
            return [phi([c[i] for c in cols]) for i in range(n)]
        return [sub(v, const(i)) for i in range(n)]

    def store_attr(self, b, name, v, st, node):
        k = self.type_of(b)
        if isinstance(k, Class):
            setter = self.P.find_setter(k, name)
            if setter is not None and len(self.stack) < self.max_depth and not self.opaque(setter):
                ev = self.emit(st, "store", node, base=b, key=const(name), value=v, how="attr")
                self.inline(setter, [b, v], {}, st, node, k)
                return
        self.emit(st, "store", node, base=b, key=const(name), value=v, how="attr")
        for x in (b.args[1:] if b.op == "ite" else (b,)):
            st.put(attr(x, name), v if x is b else ite(mk("alias", b, x), v, attr(x, name)))
            st.rm(sub(x, const(name)))

    def store_sub(self, b, k, v, st, node):
        self.emit(st, "store", node, base=b, key=k, value=v, how="sub")
        if b.op == "ite":
            for x in b.args[1:]:
                self._put_sub(x, k, phi([v, sub(x, k)]), st)
        self._put_sub(b, k, v, st)
        # df[["a"]] = ..., df.loc[mask, "a"] = ...
        if k.op in ("list", "tuple") and b.op not in ("new",) and all(is_str(x) for x in k.args) and len(k.args) == 1:
            self._put_sub(b, k.args[0], v, st)
        if b.op == "attr" and b.args[1] in ("loc", "iloc", "at", "iat") and k.op == "tuple" and len(k.args) == 2:
            df, col = b.args[0], k.args[1]
            if is_str(col):
                old = self.read_sub(df, col, st)
                st.put(sub(df, col), mk("upd", old, k.args[0], v))
            elif col.op == "list":
                for i, c in enumerate(col.args):
                    if is_str(c):
                        old = self.read_sub(df, c, st)
                        vi = v.args[i] if v.op in ("list", "tuple") and len(v.args) == len(col.args) else v
                        st.put(sub(df, c), mk("upd", old, k.args[0], vi))

    def _put_sub(self, b, k, v, st):
        st.put(sub(b, k), v)
        if k.op == "const" and isinstance(k.args[0], str):
            st.rm(attr(b, k.args[0]))
        if k.op != "const" and b.op == "new" and b.args[0] == "dict":
            st.put(mk("open", b), TRUE)
        if b.op == "new" and b.args[0] == "dict":
            self._note_key(b, k, st)

    def _note_key(self, b, k, st):
        loc = mk("keysof", b)
        cur = st.heap.get(loc)
        ks = cur.args if cur is not None and cur.op == "keys" else ()
        if cur is not None and cur.op != "keys":
            st.put(mk("open", b), TRUE)
            st.put(loc, with_key(cur, k))
            return
        if k not in ks:
            st.put(loc, mk("keys", *(ks + (k,))))

    def s_If(self, n, st):
        c = self.ev(n.test, st)
        kn = self.known(c, st)
        if kn is True:
            return self.block(n.body, st)
        if kn is False:
            return self.block(n.orelse, st)
        a = self.block(n.body, self.branch(st, c, True))
        b = self.block(n.orelse, self.branch(st, c, False))
        if not a.alive and not b.alive:
            st.alive = False
            st.heap = a.heap
            st._cow = True
            return st
        if not a.alive:
            return b
        if not b.alive:
            return a
        return self.join(a, b, c)

    def s_With(self, n, st):
        nodes = []
        for it in n.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, n)
            nodes.append(v)
        old = self.ctx
        self.ctx = old + (("with", self.site(n, "with"), tuple(nodes)),)
        try:
            return self.block(n.body, st)
        finally:
            self.ctx = old

    s_AsyncWith = s_With

    def s_Try(self, n, st):
        tid = self.site(n, "try")
        self.tryinfo[tid] = n
        pre = st.fork()
        fr = self.stack[-1]
        fr.tries.append([])
        old = self.ctx
        htypes = []
        for h in n.handlers:
            if h.type is None:
                htypes.append(("BaseException",))
            else:
                hs = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                htypes.append(tuple(self._excname(x, st) for x in hs))
        self.ctx = old + (("try", tid, tuple(htypes)),)
        try:
            body = self.block(n.body, st)
            if body.alive and n.orelse:
                self.ctx = old + (("tryelse", tid, ()),)
                body = self.block(n.orelse, body)
        finally:
            raised = fr.tries.pop()
            self.ctx = old
        outs = [body] if body.alive else []
        for h, ht in zip(n.handlers, htypes):
            hs = self.phi_states([pre] + ([body] if body.alive else []) + raised)
            hs.guards = pre.guards
            if h.name:
                hs.env[h.name] = mk("exc", tid)
            self.ctx = old + (("handler", tid, ht),)
            try:
                hs = self.block(h.body, hs)
            finally:
                self.ctx = old
            if hs.alive:
                hs.guards = hs.guards + ((mk("raised", tid, ht), True),)
                outs.append(hs)
        if not outs:
            res = pre
            alive = False
        else:
            alive = True
            res = outs[0]
            for o in outs[1:]:
                res = self.phi_states([res, o])
            if len(outs) > 1:
                res.guards = tuple(g for g in res.guards if g[0].op != "raised")
        if n.finalbody:
            self.ctx = old + (("finally", tid, ()),)
            try:
                res = self.block(n.finalbody, res if alive else self.phi_states([pre] + raised))
            finally:
                self.ctx = old
        if not alive:
            res = res.fork()
            res.alive = False
        return res

    s_TryStar = s_Try

    def _excname(self, x, st):
        v = self.ev(x, st)
        if v.op in ("ext", "class"):
            return v.args[0].replace("builtins.", "")
        return repr(v)

    # loops
    def iterable(self, it, st, n):
        return True

    def s_For(self, n, st):
        it = self.ev(n.iter, st)
        if not self.iterable(it, st, n):
            return st
        items = self.seq(it, st)
        fr = self.stack[-1]
        if items is not None and len(items) <= self.unroll:
            fr.loops.append({"b": [], "c": [], "kind": "unrolled"})
            olditers = self.iters
            try:
                for i, x in enumerate(items):
                    if not st.alive:
                        break
                    fr.loops[-1]["c"] = []
                    self.iters = olditers + ((n.lineno, n.col_offset, i),)
                    self.assign(n.target, x, st, n)
                    st = self.block(n.body, st)
                    for c in fr.loops[-1]["c"]:
                        c.alive = True
                        st = self.join(c, st) if st.alive else c
                    if st.alive is False:
                        break
                if n.orelse and st.alive:
                    st = self.block(n.orelse, st)
                for b in fr.loops[-1]["b"]:
                    b.alive = True
                    st = self.join(b, st) if st.alive else b
            finally:
                fr.loops.pop()
                self.iters = olditers
            return st
        return self._loop(n, st, it=it)

    s_AsyncFor = s_For

    def s_While(self, n, st):
        return self._loop(n, st)

    def _loop(self, n, st, it=None):
        lid = self.site(n, "loop")
        fr = self.stack[-1]
        old = self.ctx
        self.ctx = old + (("loop", lid, it if it is not None else "while"),)
        pre = st.fork()

        def once(s):
            if it is not None:
                self.assign(n.target, self.elem(it, s), s, n)
                cond = None
            else:
                cond = self.ev(n.test, s)
                self.emit(s, "test", n, value=cond)
                if not (cond.op == "const"):
                    s = self.branch(s, cond, True)
            fr.loops.append({"b": [], "c": [], "kind": "loop"})
            try:
                end = self.block(n.body, s)
            finally:
                lp = fr.loops.pop()
            outs = [x for x in [end] + lp["c"] + lp["b"]]
            live = []
            for i, x in enumerate(outs):
                if i == 0 and not x.alive:
                    continue
                x.alive = True
                live.append(x)
            return end, live, cond
        try:
            # pass 1: which names / locations does the body change?
            self.mute += 1
            try:
                nret = len(fr.returns)
                nyl = len(fr.yields)
                _, live, _ = once(pre.fork())
                del fr.returns[nret:]
                del fr.yields[nyl:]
            finally:
                self.mute -= 1
            chg, hchg = set(), set()
            for x in live:
                for k, v in x.env.items():
                    if pre.env.get(k) is not v:
                        chg.add(k)
                for k, v in x.heap.items():
                    if pre.heap.get(k) is not v:
                        hchg.add(k)
            s = pre.fork()
            for k in chg:
                if k in pre.env:
                    s.env[k] = mk("mu", lid, k, pre.env[k])
                    t = self.type_of(pre.env[k])
                    if t is not None:
                        self.types.setdefault(s.env[k], t)
            for k in hchg:
                if k.op in ("seqof", "keysof", "open"):
                    continue
                if k in pre.heap:
                    s.put(k, mk("mu", lid, k, pre.heap[k]))
            end, live, cond = once(s)
        finally:
            self.ctx = old
        if it is None and cond is not None and cond.op == "const" and cond.args[0] and not any(True for _ in live):
            st.alive = False
            return st
        res = self.phi_states([pre] + live)
        res.guards = pre.guards
        if n.orelse:
            res = self.block(n.orelse, res)
        return res

    def s_Break(self, n, st):
        fr = self.stack[-1]
        if fr.loops:
            fr.loops[-1]["b"].append(st.fork())
            self.emit(st, "break", n)
        st.alive = False

    def s_Continue(self, n, st):
        fr = self.stack[-1]
        if fr.loops:
            fr.loops[-1]["c"].append(st.fork())
            self.emit(st, "continue", n)
        st.alive = False

    # ---------------------------------------------------------------- names
    def dotted(self, d):
        r = self.P.resolve(d)
        if isinstance(r, Func):
            return mk("func", r.full)
        if isinstance(r, Class):
            return mk("class", r.full)
        if isinstance(r, Module):
            return mk("module", r.name)
        if isinstance(r, tuple):
            return self.glob(r[1], r[2])
        if d.startswith(self.P_pkg()):
            return mk("ext", d)
        return mk("ext", d)

    def P_pkg(self):
        return "beep."

    def glob(self, module, name):
        key = (module.name, name)
        if key in self._gcache:
            return self._gcache[key]
        g = mk("global", module.name + "." + name)
        if key in self._gbusy:
            return g
        vals = module.assigns.get(name, [])
        res = g
        if len(vals) == 1:
            self._gbusy.add(key)
            v = self.eval_at_module(module, vals[0])
            self._gbusy.discard(key)
            if v is not None and self.immutable(v):
                res = v
        self._gcache[key] = res
        return res

    def immutable(self, v):
        if v.op == "const" or v.op in ("str", "ext", "func", "class", "module"):
            return True
        if v.op == "tuple":
            return all(self.immutable(x) for x in v.args)
        if v.op == "call" and (v.args[0].startswith("os.path.") or v.args[0] in ("click.Path", "functools.partial", "re.compile", "logging.getLogger")):
            return True
        if v.op == "bin":
            return all(self.immutable(x) for x in v.args[1:])
        return False

    def eval_at_module(self, module, expr):
        f = Func(module, "<module>", ast.parse("def _m(): pass").body[0])
        self.stack.append(Frame(f, None, ()))
        self.mute += 1
        try:
            return self.ev(expr, State({}, {}, ()))
        except AnalysisError:
            return None
        finally:
            self.mute -= 1
            self.stack.pop()

    def glob_expr(self, g):
        """(module, ast) of the literal a global / class attribute is bound to"""
        full = g.args[0]
        parts = full.split(".")
        r = self.P.resolve(full)
        if isinstance(r, tuple):
            vals = r[1].assigns[r[2]]
            return (r[1], vals[0]) if len(vals) == 1 else None
        c = self.P.resolve(".".join(parts[:-1]))
        if isinstance(c, Class) and parts[-1] in c.attrs:
            return c.module, c.attrs[parts[-1]]
        return None

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        fr = self.stack[-1]
        cell = self.cell_of(name)
        if cell is not None and cell in st.heap:
            return st.heap[cell]
        if fr.closure and name in fr.closure:
            return fr.closure[name]
        m = fr.func.module
        # class scope names (decorators inside class bodies)
        if name in m.funcs:
            return mk("func", m.funcs[name].full)
        if name in m.classes:
            return mk("class", m.classes[name].full)
        if name in m.assigns:
            return self.glob(m, name)
        if name in m.imports:
            return self.dotted(m.imports[name])
        if name in BUILTINS:
            return mk("ext", "builtins." + name)
        k = fr.cls
        while k is not None:
            if name in k.classes:
                return mk("class", k.classes[name].full)
            if name in k.attrs:
                return mk("global", k.full + "." + name)
            k = k.outer
        return mk("name", name)

    def type_of(self, n):
        t = self.types.get(n)
        if t is not None:
            return t
        if n.op == "new":
            return self.P.resolve(n.args[0]) if "." in n.args[0] else None
        if n.op == "mu":
            return self.type_of(n.args[2]) if isinstance(n.args[2], Node) else None
        if n.op in ("ite", "phi"):
            ts = {self.type_of(x) for x in (n.args[1:] if n.op == "ite" else n.args) if x is not NONE and x is not UNDEF}
            if len(ts) == 1:
                return ts.pop()
        if n.op == "elem" or n.op == "attr" or n.op == "sub":
            return None
        return None

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return top(type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is Ellipsis:
            return mk("ellipsis")
        return const(v)

    def e_Name(self, n, st):
        return self.lookup(n.id, st)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def getattr(self, b, name, st, node, for_call=False):
        v = st.heap.get(attr(b, name))
        if v is not None:
            return v
        v = st.heap.get(sub(b, const(name)))
        if v is not None and not (b.op == "new" and b.args[0] == "dict"):
            return v
        if b.op == "ite":
            if not for_call or self.type_of(b) is None:
                x, y = (self.getattr(z, name, st, node) for z in b.args[1:])
                if not for_call or (x.op in ("bound", "func", "ext") and y.op in ("bound", "func", "ext")):
                    return ite(b.args[0], x, y)
        if b.op == "phi" and self.type_of(b) is None and not for_call:
            return phi([self.getattr(z, name, st, node) for z in b.args if z is not UNDEF])
        if b.op == "module":
            return self.dotted(b.args[0] + "." + name)
        if b.op == "ext":
            return mk("ext", b.args[0] + "." + name)
        if b.op == "super":
            k = self.P.resolve(b.args[0])
            for c in self.P.mro(k)[1:]:
                if name in c.methods:
                    f = c.methods[name]
                    return mk("bound", f.full, b.args[1])
            return mk("ext", "object." + name)
        if b.op == "class":
            k = self.P.resolve(b.args[0])
            if name == "__name__":
                return const(k.name)
            if name == "__module__":
                return const(k.module.name)
            f = self.P.find_method(k, name)
            if f is not None:
                if f.is_classmethod:
                    return mk("bound", f.full, b)
                return mk("func", f.full)
            return self.class_attr(k, name, b)
        if name == "__class__":
            k = self.type_of(b)
            if isinstance(k, Class):
                return mk("class", k.full)
        k = self.type_of(b)
        if isinstance(k, Class):
            f = self.P.find_method(k, name)
            if f is not None:
                if f.is_property:
                    if len(self.stack) < self.max_depth and not self.opaque(f) and not any(fr.func is f for fr in self.stack):
                        return self.inline(f, [b], {}, st, node, k)
                    return attr(b, name)
                if f.is_static:
                    return mk("func", f.full)
                if f.is_classmethod:
                    return mk("bound", f.full, mk("class", k.full))
                return mk("bound", f.full, b)
            if self.P.find_setter(k, name) is None:
                r = self.class_attr(k, name, None)
                if r is not None:
                    return r
        fp = self.frame_parent(b)
        if fp is not None and not for_call:
            r = self.inherited_col(b, const(name), st)
            if r is not None:
                return r
        return attr(b, name)

    def class_attr(self, k, name, b):
        r = self.P.find_attr(k, name)
        if r is not None:
            c, expr = r
            v = self.eval_at_module(c.module, expr)
            if v is not None and self.immutable(v):
                return v
            return mk("global", c.full + "." + name)
        inner = self.P.find_inner(k, name)
        if inner is not None:
            return mk("class", inner.full)
        return attr(b, name) if b is not None else None

    def frame_parent(self, b):
        if b.op == "meth" and b.args[1] in ROWOPS:
            return b.args[0]
        if b.op == "sub":
            k = b.args[1]
            if b.args[0].op == "attr" and b.args[0].args[1] in ("loc", "iloc"):
                if k.op == "tuple" and len(k.args) == 2 and not (k.args[1].op == "slice"):
                    return None
                return b.args[0].args[0]
            if k.op in ("cmp", "not", "bin", "un", "bool", "meth", "slice", "call", "ite") and not is_str(k):
                return b.args[0]
            if k.op == "list":
                return b.args[0]
        return None

    def inherited_col(self, b, k, st):
        cur, n = b, 0
        while cur is not None and n < 12:
            v = st.heap.get(sub(cur, k))
            if v is not None:
                return v if cur is b else mk("rowsel", v, b)
            cur, n = self.frame_parent(cur), n + 1
        return None

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        k = self.ev(n.slice, st)
        if k.op == "closure" and not (b.op == "new" and b.args[0] in ("dict", "list")) and len(self._callee(k).params) == 1:
            # a table indexed by a function of itself
            r = self.call_value(k, [b.args[0] if b.op == "attr" and b.args[1] in ("loc", "iloc") else b], {}, st, n)
            if isinstance(r, Node):
                k = r
        return self.read_sub(b, k, st)

    def read_sub(self, b, k, st):
        v = st.heap.get(sub(b, k)) if sub(b, k).op == "sub" else None
        if v is not None:
            return v
        if is_str(k):
            v = st.heap.get(attr(b, k.args[0]))
            if v is not None and b.op != "param":
                return v
            r = self.inherited_col(b, k, st)
            if r is not None:
                return r
        if b.op == "ite":
            return ite(b.args[0], self.read_sub(b.args[1], k, st), self.read_sub(b.args[2], k, st))
        if b.op == "phi":
            return phi([self.read_sub(x, k, st) for x in b.args if x is not UNDEF])
        if b.op == "new" and b.args[0] == "dict":
            base = st.heap.get(mk("baseof", b))
            if base is not None:
                return self.read_sub(base, k, st)
        if b.op == "new" and b.args[0] == "list":
            s = self.seq(b, st)
            if s is not None and k.op == "const" and isinstance(k.args[0], int) and -len(s) <= k.args[0] < len(s):
                return s[k.args[0]]
        if b.op == "call" and b.args[0] == "copy.deepcopy" and b.args[1]:
            return mk("call", "copy.deepcopy", (self.read_sub(b.args[1][0], k, st),), ())
        if b.op == "global":
            e = self.glob_expr(b)
            if e is not None:
                lit = self.literal_sub(e[0], e[1], k)
                if lit is not None:
                    return lit
        return sub(b, k)

    def literal_sub(self, module, expr, k):
        if isinstance(expr, ast.Dict) and k.op == "const":
            for kk, vv in zip(expr.keys, expr.values):
                if isinstance(kk, ast.Constant) and kk.value == k.args[0]:
                    v = self.eval_at_module(module, vv)
                    if v is not None and self.immutable(v):
                        return v
        if isinstance(expr, (ast.List, ast.Tuple)) and k.op == "const" and isinstance(k.args[0], int):
            try:
                v = self.eval_at_module(module, expr.elts[k.args[0]])
                if v is not None and self.immutable(v):
                    return v
            except IndexError:
                pass
        return None

    def e_Slice(self, n, st):
        f = lambda x: self.ev(x, st) if x is not None else NONE
        return mk("slice", f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, st):
        return self.ev(n.value, st)

    def e_Tuple(self, n, st):
        return mk("tuple", *self._elts(n.elts, st))

    def e_List(self, n, st):
        if not n.elts:
            o = self.new("list", n)
            st.put(mk("seqof", o), mk("seq"))
            return o
        return mk("list", *self._elts(n.elts, st))

    def e_Set(self, n, st):
        return mk("set", *self._elts(n.elts, st))

    def _elts(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                s = self.seq(v, st)
                if s is not None:
                    out.extend(s)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(e, st))
        return out

    def e_Dict(self, n, st):
        o = self.new("dict", n)
        st.put(mk("keysof", o), mk("keys"))
        st.rm(mk("open", o))
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, st)
            if k is None:
                self.dict_update(o, vv, st)
            else:
                self._put_sub(o, self.ev(k, st), vv, st)
        return o

    def dict_update(self, o, v, st):
        items = self.dict_items(v, st)
        if items is not None:
            for k, x in items:
                self._put_sub(o, k, x, st)
        else:
            st.put(mk("open", o), TRUE)
            st.put(mk("mixin", o), phi([x for x in (st.heap.get(mk("mixin", o)), v) if x is not None]))

    def dict_items(self, v, st):
        """[(key, value)] of a statically known dict, else None"""
        if v.op == "new" and v.args[0] == "dict":
            ks = st.heap.get(mk("keysof", v))
            if ks is None or ks.op != "keys" or st.heap.get(mk("open", v)) not in (None, FALSE) or mk("baseof", v) in st.heap:
                return None
            if any(k.op not in ("const",) for k in ks.args):
                return None
            out = []
            for k in ks.args:
                x = st.heap.get(sub(v, k), ABSENT)
                if x is not ABSENT:
                    out.append((k, x))
            return out
        if v.op == "global":
            e = self.glob_expr(v)
            if e is not None and isinstance(e[1], ast.Dict) and all(isinstance(k, ast.Constant) for k in e[1].keys):
                out = []
                for k, x in zip(e[1].keys, e[1].values):
                    xv = self.eval_at_module(e[0], x)
                    if xv is None or not self.immutable(xv):
                        xv = sub(v, const(k.value))
                    out.append((const(k.value), xv))
                return out
        return None

    def e_BinOp(self, n, st):
        return self.binop(BINOPS[type(n.op)], self.ev(n.left, st), self.ev(n.right, st), st, n)

    def binop(self, op, a, b, st, node):
        if op == "+":
            sa, sb = self.seq(a, st), self.seq(b, st)
            if sa is not None and sb is not None and (a.op in ("list", "new", "global") and b.op in ("list", "new", "global")):
                return mk("list", *(sa + sb))
        if op == "%" and is_str(a):
            return mk("bin", "%", a, b)
        return bin_(op, a, b)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            k = self.known(v, st)
            if k is not None and v.op == "const":
                return const(not k)
            return neg(v)
        return un_({ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)], v)

    def e_BoolOp(self, n, st):
        op = "and" if isinstance(n.op, ast.And) else "or"
        vals = []
        s = st
        saved = st.guards
        for x in n.values:
            v = self.ev(x, st)
            kn = self.known(v, st) if v.op != "const" else None
            vals.append(v)
            if v.op == "const" and bool(v.args[0]) != (op == "and"):
                break
            for g in split_guard(v, op == "and"):
                if g not in st.guards and g[0].op != "const":
                    st.guards = st.guards + (g,)
        st.guards = saved
        return bool_(op, vals)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        out = []
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, st)
            o = CMPOPS[type(op)]
            rr = r
            if o in ("in", "not in"):
                s = self.seq(r, st)
                if s is not None and r.op != "const":
                    rr = mk("list", *s)
                else:
                    it = self.dict_items(r, st)
                    if it is not None:
                        rr = mk("list", *[k for k, _ in it])
            out.append(cmp_(o, left, rr))
            left = r
        return out[0] if len(out) == 1 else bool_("and", out)

    def e_IfExp(self, n, st):
        c = self.ev(n.test, st)
        k = self.known(c, st)
        if k is not None:
            return self.ev(n.body if k else n.orelse, st)
        a_s, b_s = self.branch(st, c, True), self.branch(st, c, False)
        a, b = self.ev(n.body, a_s), self.ev(n.orelse, b_s)
        if a_s.heap is not st.heap or b_s.heap is not st.heap:
            st.heap = self.join_heaps(c, a_s.heap, b_s.heap)
            st._cow = True
        return ite(c, a, b)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                spec = self.ev(v.format_spec, st) if v.format_spec is not None else None
                if spec is not None and spec is not const(""):
                    x = mk("fmt", x, spec)
                elif x.op == "const" and not isinstance(x.args[0], str):
                    x = const(str(x.args[0]))
                parts.append(x)
        return str_(parts)

    def e_Lambda(self, n, st):
        fr = self.stack[-1]
        f = Func(fr.func.module, fr.func.qual + ".<lambda>", n, cls=None, outer=fr.func)
        return self.closure(f, st, fr)

    def e_Starred(self, n, st):
        return mk("star", self.ev(n.value, st))

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        fr = self.stack[-1]
        self.emit(st, "yield", n, value=v)
        if v not in fr.yields:
            fr.yields.append(v)
        return top("sent")

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        fr = self.stack[-1]
        fr.yields.append(self.elem(v, st))
        return NONE

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    # comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind):
        out = []
        inner = st.fork()
        saved_ctx, saved_iters = self.ctx, self.iters
        exact = [True]
        srcs = []

        def emit(s, conds):
            if kind == "dict":
                k, v = self.ev(n.key, s), self.ev(n.value, s)
                out.append((mk("tuple", k, v), tuple(conds)))
            else:
                out.append((self.ev(n.elt, s), tuple(conds)))

        def rec(i, s, conds):
            if i == len(n.generators):
                emit(s, conds)
                return
            g = n.generators[i]
            it = self.ev(g.iter, s)
            items = self.seq(it, s)
            if items is None or len(items) > self.unroll:
                exact[0] = False
                srcs.append(it)
                items = [self.elem(it, s)]
                self.ctx = self.ctx + (("loop", self.site(g.iter, "comp"), it),)
            for j, x in enumerate(items):
                s2 = s.fork()
                self.iters = saved_iters + ((n.lineno, n.col_offset, i, j),)
                self.assign(g.target, x, s2, n)
                cs, dead = list(conds), False
                for c in g.ifs:
                    cv = self.ev(c, s2)
                    kn = self.known(cv, s2)
                    if kn is False:
                        dead = True
                        break
                    if kn is None:
                        s2 = self.branch(s2, cv, True)
                        cs.append(cv)
                if not dead:
                    rec(i + 1, s2, cs)
                if s2.heap is not s.heap:
                    s.heap = s2.heap
                    s._cow = True
        try:
            rec(0, inner, [])
        finally:
            self.ctx, self.iters = saved_ctx, saved_iters
        if inner.heap is not st.heap:
            st.heap = inner.heap
            st._cow = True
        if exact[0]:
            if kind == "dict":
                o = self.new("dict", n)
                st.put(mk("keysof", o), mk("keys"))
                for t, cs in out:
                    k, v = t.args
                    self._put_sub(o, k, v if not cs else ite(bool_("and", list(cs)), v, ABSENT), st)
                return o
            if all(not cs for _, cs in out):
                if not out:
                    return mk(kind if kind == "set" else "list")
                return mk(kind, *[v for v, _ in out])
            return mk("comp", kind, tuple(v if not cs else ite(bool_("and", list(cs)), v, ABSENT) for v, cs in out), (), ())
        return mk("comp", kind, tuple(v for v, _ in out), tuple(c for _, cs in out for c in cs), tuple(srcs))

    # ---------------------------------------------------------------- sequences
    def seq(self, n, st):
        """element nodes of a statically known finite sequence, else None"""
        if n.op in ("list", "tuple", "set"):
            return list(n.args) if not any(x.op == "star" for x in n.args) else None
        if n.op == "new" and n.args[0] == "list":
            s = st.heap.get(mk("seqof", n))
            if s is not None and s.op == "seq" and not any(x.op == "rep" for x in s.args):
                return list(s.args)
            return None
        if n.op == "global":
            e = self.glob_expr(n)
            if e is not None and isinstance(e[1], (ast.List, ast.Tuple, ast.Set)):
                vals = [self.eval_at_module(e[0], x) for x in e[1].elts]
                if all(v is not None and (self.immutable(v)) for v in vals):
                    return vals
            if e is not None and isinstance(e[1], ast.Dict):
                it = self.dict_items(n, st)
                return [k for k, _ in it] if it is not None else None
            return None
        if n.op == "new" and n.args[0] == "dict":
            it = self.dict_items(n, st)
            return [k for k, _ in it] if it is not None else None
        if n.op == "items":
            it = self.dict_items(n.args[0], st)
            return [mk("tuple", k, v) for k, v in it] if it is not None else None
        if n.op == "keysview":
            it = self.dict_items(n.args[0], st)
            return [k for k, _ in it] if it is not None else None
        if n.op == "valuesview":
            it = self.dict_items(n.args[0], st)
            return [v for _, v in it] if it is not None else None
        if n.op == "enum":
            s = self.seq(n.args[0], st)
            return [mk("tuple", const(i + (cval(n.args[1], 0) or 0)), x) for i, x in enumerate(s)] if s is not None else None
        if n.op == "zip":
            ss = [self.seq(x, st) for x in n.args]
            if all(s is not None for s in ss) and ss:
                return [mk("tuple", *t) for t in zip(*ss)]
            return None
        if n.op == "range" and all(isinstance(cval(x), int) for x in n.args):
            r = range(*[x.args[0] for x in n.args])
            return [const(i) for i in r] if len(r) <= self.unroll else None
        if n.op == "gen":
            return None
        return None

    def elem(self, n, st):
        if n.op == "enum":
            return mk("tuple", mk("idx", n.args[0]), self.elem(n.args[0], st))
        if n.op == "zip":
            return mk("tuple", *[self.elem(x, st) for x in n.args])
        if n.op == "items":
            k = mk("keyof", n.args[0])
            return mk("tuple", k, self.read_sub(n.args[0], k, st))
        if n.op == "keysview":
            return mk("keyof", n.args[0])
        if n.op == "valuesview":
            return self.read_sub(n.args[0], mk("keyof", n.args[0]), st)
        if n.op == "gen":
            if not n.args:
                return mk("elem", n)
            return phi(list(n.args))
        if n.op == "comp":
            s = st.heap.get(mk("seqof", n))
            es = self.seq_elems(s) if s is not None else []
            if es:
                return phi(es)
            vs = [v for v in n.args[2 - 1]]
            return phi(vs) if vs else mk("elem", n)
        if n.op == "new" and n.args[0] == "list":
            s = st.heap.get(mk("seqof", n))
            es = self.seq_elems(s) if s is not None else []
            if es:
                return phi(es)
            return mk("elem", n)
        if n.op in ("list", "tuple", "set") and n.args:
            return phi([x.args[0] if x.op == "star" else x for x in n.args])
        if n.op == "ite":
            return ite(n.args[0], self.elem(n.args[1], st), self.elem(n.args[2], st))
        if n.op == "phi":
            return phi([self.elem(x, st) for x in n.args if x is not UNDEF])
        if n.op == "call" and n.args[0] in ("builtins.sorted", "builtins.reversed", "builtins.list", "builtins.tuple", "builtins.set", "builtins.iter", "builtins.filter") and n.args[1]:
            return self.elem(n.args[1][-1], st)
        return mk("elem", n)

    def seq_elems(self, s):
        out = []
        for x in walk_alts(s):
            if x.op == "seq":
                for y in x.args:
                    z = y.args[1] if y.op == "rep" else y
                    if z not in out:
                        out.append(z)
        return out

    def elements(self, n, st):
        """all element terms a list-like term may hold (over-approximation)"""
        out = []
        for a in alts(n):
            s = self.seq(a, st)
            if s is not None:
                out += s
            elif a.op == "new" and a.args[0] == "list":
                x = st.heap.get(mk("seqof", a))
                if x is not None:
                    out += self.seq_elems(x)
            elif a.op == "comp":
                out += list(a.args[1])
            elif a.op == "gen":
                out += list(a.args)
        return out

    def list_add(self, lst, v, st):
        loc = mk("seqof", lst)
        cur = st.heap.get(loc)
        if cur is None:
            return
        inloop = any(c[0] == "loop" for c in self.ctx)
        def add(s):
            if s.op == "seq":
                item = mk("rep", 0, v) if inloop else v
                if inloop and item in s.args:
                    return s
                return mk("seq", *(s.args + (item,)))
            if s.op == "ite":
                return ite(s.args[0], add(s.args[1]), add(s.args[2]))
            if s.op == "phi":
                return phi([add(x) for x in s.args])
            return s
        st.put(loc, add(cur))

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st):
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in st.env:
            fr = self.stack[-1]
            k = fr.func.cls
            me = st.env.get(fr.func.params[0]) if fr.func.params else NONE
            if k is not None:
                return mk("super", k.full, me)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st)
            args, kwargs = self.args(n, st)
            return self.call_method(b, f.attr, args, kwargs, st, n)
        fv = self.ev(f, st)
        args, kwargs = self.args(n, st)
        return self.call_value(fv, args, kwargs, st, n)

    def args(self, n, st):
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                s = self.seq(v, st)
                if s is not None:
                    args.extend(s)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                items = self.dict_items(v, st)
                if items is not None and all(is_str(kk) for kk, _ in items):
                    for kk, vv in items:
                        kwargs[kk.args[0]] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def call_method(self, b, name, args, kwargs, st, n):
        if b.op == "ite" and self.type_of(b) is None and any(x.op in ("class", "ext", "module") or self.type_of(x) for x in b.args[1:]):
            s1, s2 = self.branch(st, b.args[0], True), self.branch(st, b.args[0], False)
            r1 = self.call_method(b.args[1], name, args, kwargs, s1, n)
            r2 = self.call_method(b.args[2], name, args, kwargs, s2, n)
            st.heap = self.join_heaps(b.args[0], s1.heap, s2.heap)
            st._cow = True
            return ite(b.args[0], r1, r2)
        fv = self.getattr(b, name, st, n, for_call=True)
        if fv.op in ("func", "bound", "closure", "class", "ext") or (fv.op in ("ite",) and all(x.op in ("func", "bound", "closure", "class", "ext") for x in alts(fv))):
            return self.call_value(fv, args, kwargs, st, n)
        if fv.op != "attr" and fv is not attr(b, name):
            # a stored callable or a column named like a method
            if fv.op in ("call", "param", "phi") and st.heap.get(attr(b, name)) is not None:
                return self.call_value(fv, args, kwargs, st, n)
        r = self.model_method(b, name, args, kwargs, st, n)
        a2 = tuple(self.functional(x, st, n) for x in args)
        k2 = {k: self.functional(v, st, n) for k, v in kwargs.items()}
        ev = self.emit(st, "call", n, target=name, recv=b, args=a2, kwargs=k2)
        if r is None:
            r = self.meth_term(b, name, a2, k2)
        ev.result = r
        return r

    def meth_term(self, b, name, args, kwargs):
        if b.op == "ite" and b.args[1].op not in ("const",) and name in ("copy",):
            pass
        return mk("meth", b, name, tuple(args), tuple(sorted(kwargs.items())))

    def functional(self, x, st, n):
        """function-valued argument of an external call -> its body over bound variables"""
        if x.op not in ("closure", "func", "bound"):
            return x
        f = self._callee(x)
        if f is None or len(self.stack) >= self.max_depth or any(fr.func.full == f.full for fr in self.stack) or self.opaque(f):
            return x
        ps = list(f.params)
        if x.op == "bound" and ps:
            ps = ps[1:]
        nd = len(f.node.args.defaults)
        req = ps[: len(ps) - nd] if nd else ps
        argv = [mk("bv", i) for i in range(len(req))]
        s2 = st.fork()
        old = self.ctx
        self.ctx = old + (("loop", self.site(n, "fn"), "callback"),)
        try:
            body = self.call_value(x, argv, {}, s2, n)
        finally:
            self.ctx = old
        st.heap = s2.heap
        st._cow = True
        return mk("lam", len(req), body, f.full if x.op != "closure" else "")

    def _callee(self, x):
        if x.op == "closure":
            return self.closures[x.args[0]][0]
        r = self.P.resolve(x.args[0])
        return r if isinstance(r, Func) else None

    def call_value(self, fv, args, kwargs, st, n):
        o = fv.op
        if o == "ite":
            s1, s2 = self.branch(st, fv.args[0], True), self.branch(st, fv.args[0], False)
            r1 = self.call_value(fv.args[1], args, kwargs, s1, n)
            r2 = self.call_value(fv.args[2], args, kwargs, s2, n)
            if not s1.alive or not s2.alive:
                src = s2 if not s1.alive else s1
                st.heap, st._cow = src.heap, True
            else:
                st.heap = self.join_heaps(fv.args[0], s1.heap, s2.heap)
                st._cow = True
            return ite(fv.args[0], r1, r2)
        if o == "call" and fv.args[0] == "functools.partial" and fv.args[1]:
            kw = dict(fv.args[2])
            kw.update(kwargs)
            return self.call_value(fv.args[1][0], list(fv.args[1][1:]) + args, kw, st, n)
        if o == "func":
            f = self.P.resolve(fv.args[0])
            return self.inline(f, args, kwargs, st, n)
        if o == "bound":
            f = self.P.resolve(fv.args[0])
            k = self.type_of(fv.args[1])
            if fv.args[1].op == "class":
                k = self.P.resolve(fv.args[1].args[0])
            return self.inline(f, [fv.args[1]] + args, kwargs, st, n, k)
        if o == "closure":
            f, env, cls = self.closures[fv.args[0]]
            return self.inline(f, args, kwargs, st, n, cls, closure=env)
        if o == "class":
            return self.instantiate(fv, args, kwargs, st, n)
        if o == "ext":
            return self.call_ext(fv.args[0], args, kwargs, st, n)
        if o == "lam":
            return fv.args[1]
        a2 = tuple(self.functional(x, st, n) for x in args)
        k2 = {k: self.functional(v, st, n) for k, v in kwargs.items()}
        ev = self.emit(st, "call", n, target="?", recv=fv, args=a2, kwargs=k2)
        r = mk("apply", fv, a2, tuple(sorted(k2.items())))
        ev.result = r
        return r

    def bind(self, f, args, kwargs, st, n):
        env, extra = {}, []
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        i = 0
        opaque_star = None
        for x in args:
            if x.op == "star":
                opaque_star = x
                break
            if i < len(pos):
                env[pos[i]] = x
            else:
                extra.append(x)
            i += 1
        unknown_kw = kwargs.get("**")
        extrakw = {}
        bad = None
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in pos or k in f.kwonly:
                if k in env:
                    bad = f"multiple values for argument '{k}'"
                env[k] = v
            elif f.kwarg:
                extrakw[k] = v
            else:
                bad = f"unexpected keyword argument '{k}'"
        if extra and not f.vararg:
            bad = f"too many positional arguments ({len(args)})"
        # defaults
        dpos = pos[len(pos) - len(a.defaults):] if a.defaults else []
        defaults = dict(zip(dpos, a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[k.arg] = d
        for p in pos + f.kwonly:
            if p in env:
                # a value that may be absent keeps the default in that case
                if contains(env[p], ABSENT) and p in defaults:
                    dv = self.default_value(f, p, defaults[p])
                    env[p] = subst_absent(env[p], dv)
                continue
            if opaque_star is not None and p not in f.kwonly:
                env[p] = mk("starred", opaque_star.args[0], p)
            elif unknown_kw is not None:
                d = self.default_value(f, p, defaults[p]) if p in defaults else UNDEF
                env[p] = mk("get", unknown_kw, const(p), d)
            elif p in defaults:
                env[p] = self.default_value(f, p, defaults[p])
            else:
                env[p] = UNDEF
                bad = bad or f"missing argument '{p}'"
        if f.vararg:
            env[f.vararg] = mk("tuple", *extra) if opaque_star is None else opaque_star.args[0]
        if f.kwarg:
            if unknown_kw is not None and not extrakw:
                env[f.kwarg] = unknown_kw
            else:
                o = self.new("dict", n)
                o = mk("new", "dict", self.site(n, "kwargs:" + f.full))
                st.put(mk("keysof", o), mk("keys"))
                for k, v in extrakw.items():
                    self._put_sub(o, const(k), v, st)
                env[f.kwarg] = o
        return env, bad

    def default_value(self, f, p, d):
        v = self.eval_at_module(f.module, d)
        if v is not None and self.immutable(v):
            return v
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
            return mk("default", f.full, p)
        return v if v is not None else mk("default", f.full, p)

    def inline(self, f, args, kwargs, st, n, cls=None, closure=None, undecorated=False):
        # decorators (other than the built-in descriptors) are evaluated, not skipped
        if not undecorated and not isinstance(f.node, ast.Lambda) and closure is None:
            decs = [d for d in f.decorators if not self._builtin_dec(d)]
            if decs and not self.opaque(f):
                r = self.decorated(f, decs, args, kwargs, st, n, cls)
                if r is not None:
                    return r[0]
        env, bad = self.bind(f, args, kwargs, st, n)
        ev = self.emit(st, "call", n, target=f.full, recv=None, args=tuple(args), kwargs=dict(kwargs), bound=env, how=bad)
        depth = len(self.stack)
        if depth >= self.max_depth or any(fr.func.node is f.node for fr in self.stack) or self.opaque(f):
            r = mk("call", f.full, tuple(args), tuple(sorted(kwargs.items())))
            ev.result = r
            if f.full in self.ret_types:
                self.types.setdefault(r, self.ret_types[f.full])
            return r
        oldp = self.callpath
        self.callpath = oldp + ((getattr(n, "lineno", 0), getattr(n, "col_offset", 0)),)
        oldi = self.iters
        caller = self.stack[-1]
        oldcs, caller.callst = caller.callst, st
        try:
            r, out = self._exec_func(f, env, st, cls or f.cls, closure=closure)
        finally:
            caller.callst = oldcs
            self.callpath = oldp
            self.iters = oldi
        st.heap, st._cow = out.heap, True
        if out.alive:
            for g in out.guards:
                if g not in st.guards:
                    st.guards = st.guards + (g,)
        else:
            st.alive = False
        ev.result = r
        return r

    def opaque(self, f):
        return f.full in self.no_inline or (self.inline_pred is not None and not self.inline_pred(f))

    def _builtin_dec(self, d):
        from .project import _decname
        nm = _decname(d)
        return nm in ("property", "classmethod", "staticmethod", "abc.abstractmethod", "abstractmethod") or (nm or "").endswith((".setter", ".deleter")) or (nm or "").startswith(("click.", "cli.", "functools."))

    def decorated(self, f, decs, args, kwargs, st, n, cls):
        """evaluate project decorators on f and call the resulting wrapper"""
        m = f.module
        fr = Frame(Func(m, "<decorators>", ast.parse("def _m(): pass").body[0]), f.cls, st.guards)
        raw = mk("rawfunc", f.full)
        i = self.site(f.node, "raw")
        fn = Func(m, f.qual, f.node, cls=f.cls)
        fn.decorators = []
        self.closures[i] = (fn, {}, cls or f.cls)
        cur = mk("closure", i)
        self.stack.append(fr)
        s0 = State({}, st.heap, st.guards)
        s0._cow = True
        ok = True
        try:
            self.mute += 1
            try:
                for d in reversed(decs):
                    dv = self.ev(d, s0)
                    if dv.op not in ("func", "bound", "closure"):
                        ok = False
                        break
                    cur = self.call_value(dv, [cur], {}, s0, n)
                    if cur.op != "closure":
                        ok = False
                        break
            finally:
                self.mute -= 1
        finally:
            self.stack.pop()
        if not ok:
            return None
        f2, env, c2 = self.closures[cur.args[0]]
        return (self.inline(f2, args, kwargs, st, n, c2, closure=env or {"$": NONE}),)

    def instantiate(self, fv, args, kwargs, st, n):
        k = self.P.resolve(fv.args[0])
        o = mk("new", k.full, self.site(n, "obj:" + k.full))
        init = self.P.find_method(k, "__init__")
        self.born[o] = self.ctx
        ev = self.emit(st, "call", n, target=k.full, recv=None, args=tuple(args), kwargs=dict(kwargs), how=None, result=o)
        ev.result = o
        st.put(mk("ctor", o), mk("tuple", *args))
        if init is not None:
            self.inline(init, [o] + args, kwargs, st, n, k)
        else:
            # exception-like or data class without constructor
            exc = any(True for b in k.node.bases)
            if not exc and (args or kwargs):
                pass
        return o

    # ---------------------------------------------------------------- external models
    def call_ext(self, name, args, kwargs, st, n):
        short = name.split(".")[-1]
        if name in NUMPY_OPS and len(args) == 2 and not kwargs:
            self.emit(st, "call", n, target=name, args=tuple(args), kwargs=kwargs)
            o = NUMPY_OPS[name]
            return bin_(o, *args) if o in ("-", "*", "/") else cmp_(o, *args)
        if name.startswith("builtins."):
            r = self.model_builtin(short, args, kwargs, st, n)
            if r is not None:
                return r
        if short == "tqdm" and args:
            return args[0]
        if short == "OrderedDict" or name == "builtins.dict":
            return self.make_dict(args, kwargs, st, n)
        if name in ("copy.deepcopy", "copy.copy") and args:
            r = self.copy_obj(args[0], st, n, deep=short == "deepcopy")
            if r is not None:
                self.emit(st, "call", n, target=name, args=tuple(args), kwargs=kwargs, result=r)
                return r
        if name in ("pydash.get",) and len(args) >= 2 and is_str(args[1]) and args[1].args[0]:
            cur = args[0]
            for p in args[1].args[0].split("."):
                cur = self.opt_get(cur, const(p), st)
            return cur
        if name == "pydash.set_" and len(args) == 3 and is_str(args[1]):
            cur = args[0]
            ps = args[1].args[0].split(".")
            for p in ps[:-1]:
                cur = self.read_sub(cur, const(p), st)
            self.store_sub(cur, const(ps[-1]), args[2], st, n)
            return args[0]
        if name == "pydash.clone_deep" and args:
            return mk("call", "copy.deepcopy", tuple(args), ())
        if name == "functools.reduce" and len(args) >= 2:
            s = self.seq(args[1], st)
            if s and args[0].op in ("closure", "func"):
                acc = s[0]
                for x in s[1:]:
                    acc = self.call_value(args[0], [acc, x], {}, st, n)
                return acc
        if name in ("os.path.join",):
            flat = []
            for a in args:
                if a.op == "call" and a.args[0] == "os.path.join":
                    flat.extend(a.args[1])
                else:
                    flat.append(a)
            args = flat
        a2 = tuple(self.functional(x, st, n) for x in args)
        k2 = {k: self.functional(v, st, n) for k, v in kwargs.items()}
        ev = self.emit(st, "call", n, target=name, recv=None, args=a2, kwargs=k2)
        if any(x.op == "class" for x in a2) and False:
            pass
        r = mk("call", name, a2, tuple(sorted(k2.items())))
        ev.result = r
        return r

    def opt_get(self, b, k, st):
        v = self.read_sub(b, k, st)
        return v

    def make_dict(self, args, kwargs, st, n):
        o = self.new("dict", n)
        st.put(mk("keysof", o), mk("keys"))
        st.rm(mk("open", o))
        if args:
            a = args[0]
            items = self.dict_items(a, st)
            if items is None:
                s = self.seq(a, st)
                if s is not None and all(x.op == "tuple" and len(x.args) == 2 for x in s):
                    items = [(x.args[0], x.args[1]) for x in s]
            if items is not None:
                for k, v in items:
                    self._put_sub(o, k, v, st)
            else:
                st.put(mk("baseof", o), a)
                st.put(mk("open", o), TRUE)
        for k, v in kwargs.items():
            if k != "**":
                self._put_sub(o, const(k), v, st)
        return o

    def copy_obj(self, x, st, n, deep=True):
        if x.op == "new" and x.args[0] == "dict":
            o = self.new("dict", n)
            items = [(k, v) for k, v in st.heap.items() if k.op == "sub" and k.args[0] is x]
            for k, v in items:
                st.put(sub(o, k.args[1]), v)
            for tag in ("keysof", "open", "baseof", "mixin"):
                v = st.heap.get(mk(tag, x))
                if v is not None:
                    st.put(mk(tag, o), v)
            return o
        if x.op == "new" and x.args[0] == "list":
            o = self.new("list", n)
            v = st.heap.get(mk("seqof", x))
            if v is not None:
                st.put(mk("seqof", o), v)
            return o
        if x.op in ("list", "tuple", "const", "str", "set"):
            return x
        if x.op == "ite" and all(y.op in ("new", "list", "const") for y in alts(x)):
            return ite(x.args[0], self.copy_obj(x.args[1], st, n, deep) or x.args[1], self.copy_obj(x.args[2], st, n, deep) or x.args[2])
        return None

    def model_builtin(self, name, args, kwargs, st, n):
        if name == "dict":
            return self.make_dict(args, kwargs, st, n)
        if name == "list" and not args:
            o = self.new("list", n)
            st.put(mk("seqof", o), mk("seq"))
            return o
        if name in ("list", "tuple") and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None:
                if not s:
                    o = self.new("list", n)
                    st.put(mk("seqof", o), mk("seq"))
                    return o
                return mk(name, *s)
            if args[0].op in ("comp",) and name == "list":
                return args[0]
            if args[0].op == "new" and args[0].args[0] == "list" and name == "list":
                return self.copy_obj(args[0], st, n)
            return mk("call", "builtins." + name, tuple(args), ())
        if name == "set" and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None:
                return mk("set", *s)
        if name == "enumerate" and args:
            return mk("enum", args[0], args[1] if len(args) > 1 else kwargs.get("start", const(0)))
        if name == "zip":
            return mk("zip", *args)
        if name == "range":
            return mk("range", *args)
        if name == "getattr" and len(args) >= 2 and is_str(args[1]):
            return self.getattr(args[0], args[1].args[0], st, n)
        if name == "setattr" and len(args) == 3:
            if is_str(args[1]):
                self.store_attr(args[0], args[1].args[0], args[2], st, n)
            else:
                self.emit(st, "store", n, base=args[0], key=args[1], value=args[2], how="attr")
            return NONE
        if name == "isinstance" and len(args) == 2:
            return self.isinstance_(args[0], args[1], st)
        if name in ("any", "all") and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None:
                return bool_("or" if name == "any" else "and", s)
        if name == "len" and len(args) == 1:
            s = self.seq(args[0], st)
            if s is not None and args[0].op != "set":
                return const(len(s))
            it = self.dict_items(args[0], st) if args[0].op == "new" else None
            if it is not None and not any(contains(v, ABSENT) for _, v in it):
                return const(len(it))
        if name == "bool" and len(args) == 1:
            return args[0]
        if name in ("str", "int", "float") and len(args) == 1 and args[0].op == "const" and isinstance(args[0].args[0], (int, float, str)) and not isinstance(args[0].args[0], bool):
            try:
                return const({"str": str, "int": int, "float": float}[name](args[0].args[0]))
            except Exception:
                return None
        if name == "str" and len(args) == 1 and args[0].op == "str":
            return args[0]
        if name == "map" and len(args) == 2:
            s = self.seq(args[1], st)
            if s is not None and len(s) <= self.unroll:
                return mk("list", *[self.call_value(args[0], [x], {}, st, n) for x in s])
            if args[0].op in ("closure", "func", "bound", "ext"):
                v = self.call_value(args[0], [self.elem(args[1], st)], {}, st, n)
                return mk("comp", "list", (v,), (), (args[1],))
        if name == "sorted" and args:
            s = self.seq(args[0], st)
            if s is not None and not kwargs and all(x.op == "const" for x in s):
                try:
                    return mk("list", *[const(v) for v in sorted(x.args[0] for x in s)])
                except TypeError:
                    pass
        return None

    def isinstance_(self, x, c, st):
        names = c.args if c.op in ("tuple", "list") else (c,)
        t = self.type_of(x)
        if isinstance(t, Class):
            for k in names:
                if k.op == "class" and self.P.resolve(k.args[0]) in self.P.mro(t):
                    return TRUE
        tag = None
        if x.op in ("list", "comp") or (x.op == "new" and x.args[0] == "list"):
            tag = "builtins.list"
        elif x.op == "new" and x.args[0] == "dict":
            tag = "builtins.dict"
        elif x.op == "const" and isinstance(x.args[0], str) or x.op == "str":
            tag = "builtins.str"
        elif x is NONE:
            nt = [k for k in names if k.op not in ("class", "ext") or k.op == "ext" and k.args[0].split(".")[-1] in ("NoneType", "object", "Hashable")]
            if any(k.op == "call" and k.args[0] == "builtins.type" and k.args[1] == (NONE,) or k.op == "ext" for k in nt):
                return TRUE
            return FALSE if not nt else mk("call", "builtins.isinstance", (x, c), ())
        if tag:
            if any(k.op == "ext" and k.args[0] == tag for k in names):
                return TRUE
            if tag != "builtins.dict" and all(k.op == "ext" and k.args[0].startswith("builtins.") for k in names):
                return FALSE
        return mk("call", "builtins.isinstance", (x, c), ())

    def query(self, b, text, st):
        """the mask a pandas query string stands for"""
        try:
            e = ast.parse(re.sub(r"@([A-Za-z_]\w*)", r"_local_\1", text).strip(), mode="eval").body
        except SyntaxError:
            return None

        def go(x):
            if isinstance(x, ast.Constant):
                return const(x.value)
            if isinstance(x, ast.Name):
                return self.lookup(x.id[7:], st) if x.id.startswith("_local_") else self.read_sub(b, const(x.id), st)
            if isinstance(x, (ast.List, ast.Tuple)):
                return mk("list", *[go(y) for y in x.elts])
            if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
                return self.read_sub(go(x.value), go(x.slice), st)
            if isinstance(x, ast.Attribute):
                return self.getattr(go(x.value), x.attr, st, x)
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.Not, ast.Invert)):
                return mk("un", "~", go(x.operand))
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant):
                return const(-x.operand.value)
            if isinstance(x, ast.BinOp) and type(x.op) in BINOPS:
                return bin_(BINOPS[type(x.op)], go(x.left), go(x.right))
            if isinstance(x, ast.BoolOp):
                vs = [go(y) for y in x.values]
                out = vs[0]
                for v in vs[1:]:
                    out = bin_("&" if isinstance(x.op, ast.And) else "|", out, v)
                return out
            if isinstance(x, ast.Compare):
                out, left = None, go(x.left)
                for op, c in zip(x.ops, x.comparators):
                    right = go(c)
                    o = CMPOPS[type(op)]
                    m = cmp_(o, left, right) if o not in ("in", "not in") else mk("meth", left, "isin", (right,), ())
                    m = mk("un", "~", m) if o == "not in" else m
                    out = m if out is None else bin_("&", out, m)
                    left = right
                return out
            raise ValueError
        try:
            return go(e)
        except (ValueError, TypeError, KeyError):
            return None

    def model_method(self, b, name, args, kwargs, st, n):
        """known methods of builtin containers / strings; None = opaque"""
        if name in SERIES_OPS and len(args) == 1 and not kwargs:
            o = SERIES_OPS[name]
            return cmp_(o, b, args[0]) if o not in ("-", "*", "/") else bin_(o, b, args[0])
        if name == "query" and len(args) == 1 and not kwargs and is_str(args[0]) and b.op != "new":
            k = self.query(b, args[0].args[0], st)
            if k is not None:
                return self.read_sub(b, k, st)
        if name in ("items", "keys", "values") and not args and not kwargs:
            return mk({"items": "items", "keys": "keysview", "values": "valuesview"}[name], b)
        if b.op in ("ite",) and name in ("append", "extend", "update", "setdefault", "insert"):
            return None
        if name == "get" and 1 <= len(args) <= 2 and not kwargs:
            d = args[1] if len(args) > 1 else NONE
            items = self.dict_items(b, st)
            if items is not None and args[0].op == "const":
                for k, v in items:
                    if k is args[0]:
                        return subst_absent(v, d)
                return d
            v = st.heap.get(sub(b, args[0]))
            if v is not None and not contains(v, ABSENT):
                return v
            if b.op in ("ite",):
                return ite(b.args[0], self.model_method(b.args[1], name, args, kwargs, st, n), self.model_method(b.args[2], name, args, kwargs, st, n))
            return mk("get", b, args[0], d)
        if name == "append" and len(args) == 1:
            if b.op == "new" and b.args[0] == "list":
                self.list_add(b, args[0], st)
            else:
                loc = mk("seqof", b)
                if loc not in st.heap:
                    s = self.seq(b, st)
                    st.put(loc, mk("seq", *(s if s is not None else [mk("rep", 0, self.elem(b, st))])))
                self.list_add(b, args[0], st)
            return NONE
        if name == "extend" and len(args) == 1 and b.op == "new" and b.args[0] == "list":
            for e in (self.seq(args[0], st) or [mk("elem", args[0])]):
                self.list_add(b, e, st)
            return NONE
        if name == "update" and b.op == "new" and b.args[0] == "dict":
            if args:
                self.dict_update(b, args[0], st)
            for k, v in kwargs.items():
                if k != "**":
                    self._put_sub(b, const(k), v, st)
            return NONE
        if name == "update" and args:
            items = self.dict_items(args[0], st)
            if items is not None:
                for k, v in items:
                    st.put(sub(b, k), v)
        if name == "pop" and b.op == "new" and b.args[0] == "dict" and args:
            v = self.read_sub(b, args[0], st)
            st.put(sub(b, args[0]), ABSENT)
            return v
        if name in ("pop", "remove", "insert") and not kwargs and b.op in ("list", "ite", "phi") and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, (ast.Name, ast.Attribute)):
            # an immutable list value held in a variable or attribute: the variable now holds the edited list
            r = edited(b, name, args)
            if r is not None:
                new_, out = r
                self.assign(n.func.value, new_, st, n)
                return out
        if name == "setdefault" and args:
            v = self.read_sub(b, args[0], st)
            return v
        if name == "copy" and not args:
            return self.copy_obj(b, st, n, deep=False)
        if name == "format" and is_str(b):
            r = fmt_parts(b.args[0], args, kwargs)
            if r is not None:
                return str_(r)
        if name == "join" and is_str(b) and len(args) == 1:
            s = self.seq(args[0], st)
            if s:
                parts = []
                for i, x in enumerate(s):
                    if i:
                        parts.append(b)
                    parts.append(x)
                return str_(parts)
        if is_str(b) and all(x.op == "const" for x in args) and not kwargs and name in ("strip", "lower", "upper", "replace", "split", "startswith", "endswith", "ljust", "zfill", "lstrip", "rstrip", "title", "capitalize"):
            try:
                v = getattr(b.args[0], name)(*[x.args[0] for x in args])
                return mk("list", *[const(x) for x in v]) if isinstance(v, list) else const(v)
            except Exception:
                return None
        if name == "assign" and "**" not in kwargs:
            # df.assign(a=..): new frame with columns
            r = mk("meth", b, "assign", (), tuple(sorted(kwargs.items())))
            for k, v in kwargs.items():
                st.put(sub(r, const(k)), v)
            return r
        return None


def with_key(cur, k):
    if cur.op == "ite":
        return ite(cur.args[0], with_key(cur.args[1], k), with_key(cur.args[2], k))
    if cur.op == "keys" and k not in cur.args:
        return mk("keys", *(cur.args + (k,)))
    return cur


def edited(b, name, args):
    """(list after the edit, value returned) for a literal list, alternative by alternative"""
    if b.op == "ite":
        x, y = edited(b.args[1], name, args), edited(b.args[2], name, args)
        return (ite(b.args[0], x[0], y[0]), ite(b.args[0], x[1], y[1])) if x and y else None
    if b.op == "phi":
        xs = [edited(x, name, args) for x in b.args]
        return (phi([x[0] for x in xs]), phi([x[1] for x in xs])) if all(xs) else None
    if b.op != "list":
        return None
    xs = list(b.args)
    if name == "pop" and len(args) <= 1:
        i = args[0].args[0] if args and args[0].op == "const" else None if args else -1
        if type(i) is not int or not -len(xs) <= i < len(xs):
            return None
        v = xs.pop(i)
        return mk("list", *xs), v
    if name == "remove" and len(args) == 1 and args[0] in xs:
        xs.remove(args[0])
        return mk("list", *xs), NONE
    if name == "insert" and len(args) == 2 and args[0].op == "const" and type(args[0].args[0]) is int:
        xs.insert(args[0].args[0], args[1])
        return mk("list", *xs), NONE
    return None


def subst_absent(v, d):
    if v is ABSENT:
        return d
    if v.op == "ite":
        return ite(v.args[0], subst_absent(v.args[1], d), subst_absent(v.args[2], d))
    if v.op == "phi":
        return phi([subst_absent(x, d) for x in v.args])
    return v


def walk_alts(s):
    return alts(s)


def fmt_parts(tmpl, args, kwargs):
    import string
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(tmpl):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            head = field
            if head == "":
                v = args[auto]
                auto += 1
            elif head.isdigit():
                v = args[int(head)]
            elif head in kwargs:
                v = kwargs[head]
            else:
                return None
            if v.op == "star":
                return None
            if spec:
                if "{" in spec:
                    inner = []
                    for l2, f2, s2, c2 in string.Formatter().parse(spec):
                        if l2:
                            inner.append(const(l2))
                        if f2 is None:
                            continue
                        if s2 or c2:
                            return None
                        if f2 == "":
                            w = args[auto]
                            auto += 1
                        elif f2.isdigit():
                            w = args[int(f2)]
                        elif f2 in kwargs:
                            w = kwargs[f2]
                        else:
                            return None
                        if w.op == "star":
                            return None
                        if w.op == "const" and not isinstance(w.args[0], str):
                            w = const(str(w.args[0]))
                        inner.append(w)
                    v = mk("fmt", v, str_(inner))
                else:
                    v = mk("fmt", v, const(spec))
            elif v.op == "const" and not isinstance(v.args[0], str):
                v = const(str(v.args[0]))
            out.append(v)
    except (ValueError, IndexError):
        return None
    return out


def _as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


# -------------------------------------------------------------------- ordering helpers
def ctx_ids(ev):
    return [(c[0], c[1]) for c in ev.ctx]


def dominates(a, b):
    """a is executed, and completed normally, on every path that reaches b (same loop iteration)"""
    if a.idx >= b.idx:
        return False
    bg = set(b.guards)
    if not all(g in bg for g in a.guards):
        return False
    # a's loop/try/handler context must enclose b's
    ca, cb = ctx_ids(a), ctx_ids(b)
    ca = [c for c in ca if c[0] != "with"]
    cb = [c for c in cb if c[0] != "with"]
    return cb[: len(ca)] == ca


def jointly_dominates(group, b):
    """on every path that reaches b some event of the group was executed (branches covered by resolution on their guards)"""
    bg = set(b.guards)
    cb = [c for c in ctx_ids(b) if c[0] != "with"]
    sets = set()
    for a in group:
        if a.idx >= b.idx:
            continue
        ca = [c for c in ctx_ids(a) if c[0] != "with"]
        if cb[: len(ca)] != ca:
            continue
        sets.add(frozenset(g for g in a.guards if g not in bg))
    work = list(sets)
    while work:
        x = work.pop()
        if not x:
            return True
        for y in list(sets):
            for g in x:
                if (g[0], not g[1]) in y:
                    z = (x - {g}) | (y - {(g[0], not g[1])})
                    if z not in sets and len(sets) < 400:
                        sets.add(z)
                        work.append(z)
    return False
