"""Interned value-flow terms (a gated value-flow graph with structural sharing).

A Node is (op, args); args are Nodes, tuples or plain constants.  Equal nodes are identical objects.
"""

class Node:
    __slots__ = ("op", "args", "uid", "_kids", "_leaves")

    def __init__(self, op, args, uid):
        self.op, self.args, self.uid = op, args, uid
        self._kids = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def kids(self):
        if self._kids is None:
            out = []
            def rec(a):
                if isinstance(a, Node):
                    out.append(a)
                elif isinstance(a, tuple):
                    for x in a:
                        rec(x)
            rec(self.args)
            self._kids = tuple(out)
        return self._kids


_table = {}


def mk(op, *args):
    key = (op, _key(args))
    n = _table.get(key)
    if n is None:
        n = Node(op, args, len(_table) + 1)
        _table[key] = n
    return n


def _key(a):
    if isinstance(a, Node):
        return ("N", a.uid)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(n):
    return n.op == "const"


def cval(n, default=None):
    return n.args[0] if isinstance(n, Node) and n.op == "const" else default


def is_str(n):
    return n.op == "const" and isinstance(n.args[0], str)


def top(tag=""):
    return mk("top", tag)


# ---------------------------------------------------------------- constructors with normalisation
_FLIP = {"!=": "==", "is not": "is", "not in": "in"}


def neg(n):
    if n.op == "not":
        return n.args[0]
    if n.op == "const":
        try:
            return const(not n.args[0])
        except Exception:
            pass
    return mk("not", n)


def truth(n):
    """normalise a condition: returns (node, polarity)"""
    pol = True
    while True:
        if n.op == "not":
            n, pol = n.args[0], not pol
        elif n.op == "call" and n.args[0] in ("builtins.bool", "bool") and len(n.args[1]) == 1:
            n = n.args[1][0]
        else:
            return n, pol


def cmp_(op, a, b):
    if op in _FLIP:
        return neg(cmp_(_FLIP[op], a, b))
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return cmp_("<=", b, a)
    if a.op == "const" and b.op == "const":
        try:
            x, y = a.args[0], b.args[0]
            if op == "==":
                return const(x == y)
            if op == "is":
                if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                    return const(x is y)
            if op == "<":
                return const(x < y)
            if op == "<=":
                return const(x <= y)
            if op == "in":
                return const(x in y)
        except Exception:
            pass
    if op == "is" and b.op == "const" and b.args[0] is None and a.op in ("new", "list", "tuple", "str", "func", "class", "comp"):
        return FALSE
    if op == "in" and b.op in ("list", "tuple", "set") and a.op == "const" and all(x.op == "const" for x in b.args):
        return const(a.args[0] in [x.args[0] for x in b.args])
    if op in ("==", "is") and a.op == "const" and b.op != "const":
        a, b = b, a
    if op in ("==",) and a.op != "const" and b.op != "const" and a.uid > b.uid:
        a, b = b, a
    return mk("cmp", op, a, b)


def bool_(op, items):
    out = []
    for i, x in enumerate(items):
        if x.op == "bool" and x.args[0] == op:
            out.extend(x.args[1])
            continue
        if x.op == "const":
            t = bool(x.args[0])
            if op == "and":
                if t:
                    if i == len(items) - 1:
                        out.append(x)
                    continue
                out.append(x)
                break
            else:
                if not t:
                    if i == len(items) - 1:
                        out.append(x)
                    continue
                out.append(x)
                break
        out.append(x)
    if not out:
        return const(op == "and")
    if len(out) == 1:
        return out[0]
    if all(x.op == "const" for x in out):
        v = out[0].args[0]
        for x in out[1:]:
            v = (v and x.args[0]) if op == "and" else (v or x.args[0])
        return const(v)
    # drop duplicates keeping order
    seen, o2 = set(), []
    for x in out:
        if x.uid not in seen:
            seen.add(x.uid)
            o2.append(x)
    if len(o2) == 1:
        return o2[0]
    return mk("bool", op, tuple(o2))


_COMM = {"+", "*", "&", "|", "^"}
_FOLD = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b,
}


def isnum(n):
    return n.op == "const" and isinstance(n.args[0], (int, float)) and not isinstance(n.args[0], bool)


def bin_(op, a, b):
    if a.op == "const" and b.op == "const" and op in _FOLD:
        x, y = a.args[0], b.args[0]
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            try:
                return const(_FOLD[op](x, y))
            except Exception:
                pass
        if isinstance(x, str) and isinstance(y, str) and op == "+":
            return const(x + y)
    if op == "+" and (a.op == "str" or b.op == "str" or is_str(a) or is_str(b)):
        return str_((a, b))
    if op == "+" and a.op in ("list", "tuple") and b.op == a.op:
        return mk(a.op, *(a.args + b.args))
    return mk("bin", op, a, b)


def un_(op, a):
    if op == "not":
        return neg(a)
    if a.op == "const" and isinstance(a.args[0], (int, float)) and not isinstance(a.args[0], bool):
        if op == "-":
            return const(-a.args[0])
        if op == "+":
            return a
    return mk("un", op, a)


def str_(parts):
    out = []
    for p in parts:
        if p.op == "str":
            out.extend(p.args)
        else:
            out.append(p)
    o2 = []
    for p in out:
        if is_str(p) and o2 and is_str(o2[-1]):
            o2[-1] = const(o2[-1].args[0] + p.args[0])
        else:
            o2.append(p)
    o2 = [p for p in o2 if not (is_str(p) and p.args[0] == "")]
    if not o2:
        return const("")
    if len(o2) == 1 and is_str(o2[0]):
        return o2[0]
    return mk("str", *o2)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if c.args[0] else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE and c.op in ("cmp", "bool"):
        return c
    return mk("ite", c, a, b)


def attr(b, name):
    return mk("attr", b, name)


def sub(b, k):
    if k.op == "const" and b.op in ("tuple", "list") and isinstance(k.args[0], int) and not any(x.op == "star" for x in b.args):
        try:
            return b.args[k.args[0]]
        except IndexError:
            pass
    if k.op == "slice" and b.op in ("tuple", "list") and all(x.op == "const" for x in k.args):
        try:
            return mk(b.op, *b.args[slice(*(x.args[0] for x in k.args))])
        except Exception:
            pass
    return mk("sub", b, k)


# ---------------------------------------------------------------- traversal
def walk(n):
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        yield x
        st.extend(x.kids())


def contains(n, pred):
    if isinstance(pred, Node):
        t = pred
        return any(x is t for x in walk(n))
    return any(pred(x) for x in walk(n))


def alts(n, limit=64):
    """the alternatives a gated term may take (gates dropped)"""
    out, st, seen = [], [n], set()
    while st and len(out) < limit:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "ite":
            st.append(x.args[2])
            st.append(x.args[1])
        elif x.op == "phi":
            st.extend(reversed(x.args))
        elif x.op == "boolval":
            st.extend(reversed(x.args[1]))
        else:
            out.append(x)
    return out


def guarded_alts(n, guards=(), limit=200):
    """[(guards, leaf)] for a gated term; guards are (cond, polarity)"""
    out = []
    def rec(x, g):
        if len(out) >= limit:
            return
        if x.op == "ite":
            c = x.args[0]
            rec(x.args[1], g + split_guard(c, True))
            rec(x.args[2], g + split_guard(c, False))
        elif x.op == "phi":
            for y in x.args:
                rec(y, g)
        else:
            out.append((g, x))
    rec(n, tuple(guards))
    return out


def split_guard(c, pol):
    c2, p = truth(c)
    pol = pol if p else not pol
    if c2.op == "bool":
        if c2.args[0] == "and" and pol:
            r = ()
            for x in c2.args[1]:
                r += split_guard(x, True)
            return r
        if c2.args[0] == "or" and not pol:
            r = ()
            for x in c2.args[1]:
                r += split_guard(x, False)
            return r
    return ((c2, pol),)


def saturate(guards):
    """the literals guards imply: conjunctions split, disjunctions with one way left decided"""
    lits, ors = [], []
    for c, p in guards:
        for l in split_guard(c, p):
            lits.append(l)
    changed = True
    while changed:
        changed = False
        known = set(lits)
        for c, p in list(lits):
            if c.op != "bool" or (c.args[0] == "or") != p:
                continue
            left = [x for x in c.args[1] if not any(split_guard(l, not q)[0] in known and len(split_guard(l, not q)) == 1 for l, q in split_guard(x, p))]
            if len(left) == 1:
                for l in split_guard(left[0], p):
                    if l not in known:
                        lits.append(l)
                        changed = True
    return lits


def phi(items):
    flat, seen = [], set()
    for x in items:
        for y in (x.args if x.op == "phi" else (x,)):
            if y.uid not in seen:
                seen.add(y.uid)
                flat.append(y)
    if len(flat) == 1:
        return flat[0]
    flat.sort(key=lambda n: n.uid)
    return mk("phi", *flat)


# ---------------------------------------------------------------- printing
def show(n, depth=0, maxd=9):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ", ".join(show(x, depth, maxd) for x in n) + ")"
        return repr(n)
    if depth > maxd:
        return "…"
    s = lambda x: show(x, depth + 1, maxd)
    o, a = n.op, n.args
    if o == "const":
        return repr(a[0])
    if o == "param":
        return str(a[0])
    if o == "global":
        return a[0].split(".")[-1]
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "get":
        return f"{s(a[0])}.get({s(a[1])},{s(a[2])})"
    if o == "meth":
        kw = "".join(f", {k}={s(v)}" for k, v in a[3])
        return f"{s(a[0])}.{a[1]}({', '.join(s(x) for x in a[2])}{kw})"
    if o == "call":
        kw = "".join(f", {k}={s(v)}" for k, v in a[2])
        return f"{a[0]}({', '.join(s(x) for x in a[1])}{kw})"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "not":
        return f"not {s(a[0])}"
    if o == "bool":
        return "(" + f" {a[0]} ".join(s(x) for x in a[1]) + ")"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "phi":
        return "{" + " | ".join(s(x) for x in a) + "}"
    if o == "new":
        return f"<new {a[0]}#{a[1]}>"
    if o == "elem":
        return f"elem({s(a[0])})"
    if o == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "str":
        return "f'" + "".join(x.args[0] if is_str(x) else "{" + s(x) + "}" for x in a) + "'"
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if o in ("func", "class"):
        return f"<{o} {a[0]}>"
    return f"{o}({', '.join(s(x) for x in a)})"
