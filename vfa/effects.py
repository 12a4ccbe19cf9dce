"""Alias roots of terms and mutation events."""
from .terms import *
from .project import Class

ACCESSORS = {"loc", "iloc", "at", "iat", "values", "index", "columns", "T"}
# methods that change their receiver, whatever it is
INPLACE_ANY = {"append", "extend", "remove", "clear", "setdefault", "popitem", "reverse", "discard", "appendleft",
               "popleft", "sort", "fill", "itemset", "setflags", "set", "unset", "merge_in", "move_to_end", "__setitem__",
               "__delitem__", "__setattr__", "setfield", "partition", "intersection_update", "difference_update",
               "symmetric_difference_update"}
# change their receiver for containers and frames (never for str / compiled objects, which have none of these)
INPLACE_ARGS = {"update": 1, "insert": 2, "pop": 0, "add": 1}
MUT_FUNCS = {"random.shuffle": 0, "numpy.random.shuffle": 0, "pydash.unset": 0, "pydash.set_with": 0, "pydash.assign": 0,
             "pydash.merge": 0, "pydash.update": 0, "pydash.defaults": 0, "numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0,
             "numpy.putmask": 0, "numpy.fill_diagonal": 0, "heapq.heappush": 0, "heapq.heapify": 0, "heapq.heappop": 0,
             "bisect.insort": 0, "pydash.set_": 0, "pydash.pull": 0, "pydash.extend": 0, "operator.setitem": 0, "operator.delitem": 0,
             "object.__setattr__": 0}
# results that share storage with their first argument / receiver
VIEW_METHS = {"view", "ravel", "reshape", "transpose", "squeeze", "swapaxes", "to_numpy", "get_group_view", "__getitem__", "get"}
SHALLOW_METHS = {"copy"}
COPY_KEYS = {"cmp", "not", "bin", "un", "bool", "list", "slice", "comp", "meth", "call", "tuple", "set", "elemmask"}


def roots(n, dicts=None, _d=0, _seen=None):
    """{(root node, path)}: what the object denoted by n may be, as access paths"""
    if _d > 40:
        return set()
    o, a = n.op, n.args
    if o in ("param", "global", "default", "module", "class", "self", "ext", "shared", "name"):
        return {(n, ())}
    if o == "attr":
        if a[0].op == "call" and a[0].args[0] == "copy.copy" and a[0].args[1]:      # a shallow copy shares its attributes
            return {(r, p + ("." + a[1],)) for r, p in roots(a[0].args[1][0], dicts, _d + 1)}
        return {(r, p + ("." + a[1],)) for r, p in roots(a[0], dicts, _d + 1)}
    if o == "sub":
        b, k = a
        if b.op == "attr" and b.args[1] in ("loc", "iloc", "at", "iat"):
            if k.op == "slice" or k.op == "tuple" and len(k.args) == 2 and k.args[0].op == "slice" and k.args[1].op in ("slice", "const"):
                return {(r, p + (VIEW,)) for r, p in roots(b.args[0], dicts, _d + 1)}
            return set()
        if k.op == "slice":
            return {(r, p + (VIEW,)) for r, p in roots(b, dicts, _d + 1)}
        if k.op in COPY_KEYS and not (k.op in ("call", "meth") and scalar_key(k)):
            return set()
        if b.op == "call" and b.args[0] == "copy.copy" and b.args[1]:
            return {(r, p + ("[]",)) for r, p in roots(b.args[1][0], dicts, _d + 1)}
        if b.op == "meth" and b.args[1] == "copy" and not b.args[2]:
            inner = roots(b.args[0], dicts, _d + 1)
            if dicts is not None:
                return {(r, p + ("[]",)) for r, p in inner if dicts(r, p)}
            return set()
        step = "[%r]" % k.args[0] if k.op == "const" else "[]"
        return {(r, p + (step,)) for r, p in roots(b, dicts, _d + 1)}
    if o == "elem" or o == "get":
        out = {(r, p + ("[]",)) for r, p in roots(a[0], dicts, _d + 1)}
        if o == "get" and len(a) > 2 and isinstance(a[2], Node):
            out |= roots(a[2], dicts, _d + 1)
        return out
    if o == "ite":
        return roots(a[1], dicts, _d + 1) | roots(a[2], dicts, _d + 1)
    if o == "phi":
        s = set()
        for x in a:
            s |= roots(x, dicts, _d + 1)
        return s
    if o == "bool":
        s = set()
        for x in a[1]:
            if x.op not in ("cmp", "not"):
                s |= roots(x, dicts, _d + 1)
        return s
    if o == "mu":
        return roots(a[2], dicts, _d + 1) if isinstance(a[2], Node) else set()
    if o == "meth":
        if a[1] == "copy" and (dict(a[3]).get("deep") is FALSE or a[2] and a[2][0] is FALSE):
            return {(r, p + (SHALLOW,)) for r, p in roots(a[0], dicts, _d + 1)}
        if a[1] in VIEW_METHS:
            return {(r, p + ("~",)) for r, p in roots(a[0], dicts, _d + 1)}
        return set()
    if o in ("items", "keysview", "valuesview"):
        return {(r, p) for r, p in roots(a[0], dicts, _d + 1)}
    if o == "call" and a[0] in ("builtins.iter", "builtins.reversed", "numpy.asarray", "numpy.ravel", "builtins.vars") and a[1]:
        return {(r, p + ("~",)) for r, p in roots(a[1][0], dicts, _d + 1)}
    if o == "upd" or o == "rowsel":
        return set()
    return set()


SHALLOW = "~copy"      # a shallow copy: its values are the original's, its columns and labels are its own
RELABEL = {"drop", "rename", "sort_values", "sort_index", "reset_index", "set_index", "dropna", "drop_duplicates", "insert", "pop", "set_axis", "rename_axis"}
VIEW = "~slice"        # a slice of a table: only element writes (.loc, .iloc, .values, columns) reach the original


def scalar_key(k):
    """a computed key that is a scalar (string/number) rather than a mask or list"""
    if k.op == "call":
        return k.args[0] in ("builtins.str", "builtins.int", "builtins.len", "builtins.min", "builtins.max", "os.path.basename")
    if k.op == "meth":
        return k.args[1] in ("format", "join", "lower", "upper", "strip", "replace", "index", "group")
    return False


def through(n):
    """the store goes to elements of the object behind the accessor"""
    return n.op == "attr" and n.args[1] in ("loc", "iloc", "at", "iat", "values")


TABLES = {".raw_data", ".structured_data", ".structured_summary", ".diagnostic_data", ".diagnostic_summary", ".matrix"}


def column(p):
    """the slice is one of a single column, whose elements are the table's own"""
    i = min(p.index(x) for x in (VIEW, SHALLOW) if x in p)
    return i > 1 and (p[i - 1][:1] == "[" and p[i - 1][1:2] in "'\"" or p[i - 1][:1] == ".") and p[i - 2] in TABLES


def mask(k):
    """a condition on the elements, which selects elements and not a new column"""
    return k.op == "cmp" or k.op == "bool" or k.op == "bin" and k.args[0] in ("&", "|") and any(mask(x) for x in k.args[1:]) or k.op in ("un", "not") and mask(k.args[-1]) \
        or k.op == "call" and k.args[0].split(".")[-1] in ("isnan", "isinf", "isfinite", "isna", "isnull", "notna") or k.op == "meth" and k.args[1] in ("isna", "isnull", "notna", "isin", "between", "duplicated")


def strip(p):
    """drop trailing view/accessor steps: the object itself"""
    p = [x for x in p if x not in (VIEW, SHALLOW)]
    while p and (p[-1] in ("~", ".loc", ".iloc", ".at", ".iat", ".values", ".T")):
        p.pop()
    return tuple(p)


class Mut:
    __slots__ = ("ev", "root", "path", "what", "rebind", "via")

    def __init__(self, ev, root, path, what, rebind=None, via=None):
        self.ev, self.root, self.path, self.what, self.rebind, self.via = ev, root, path, what, rebind, via

    def target(self):
        return show(self.root) + "".join(self.path)

    def __repr__(self):
        return f"{self.what} of {self.target()} at {self.ev.where()}"


def mutations(events, dicts=None, fresh=None):
    """every event that changes an existing object, with the access paths of the object changed"""
    for e in events:
        if e.kind in ("store", "del"):
            if e.how == "attr":
                for r, p in roots(e.base, dicts):
                    yield Mut(e, r, strip(p), "attribute assignment ." + str(cval(e.key, "?")), rebind=cval(e.key))
            else:
                for r, p in roots(e.base, dicts):
                    if p and p[-1] in (VIEW, SHALLOW) and not through(e.base) and not (mask(e.key) or column(p)):
                        continue        # a new column of the slice, or an element of a list copy
                    yield Mut(e, r, strip(p), ("deletion" if e.kind == "del" else "assignment") + " of item " + show(e.key))
        elif e.kind == "aug":
            for r, p in roots(e.base, dicts):
                if VIEW in p and not column(p):
                    continue
                yield Mut(e, r, strip(p), "augmented assignment", via="aug")
        elif e.kind == "call":
            kw = e.kwargs or {}
            if e.recv is not None:
                nm = e.target
                inpl = kw.get("inplace")
                hit = None
                if inpl is not None and inpl is not FALSE and inpl.op == "const" and inpl.args[0]:
                    hit = nm + "(inplace=True)"
                elif nm in INPLACE_ANY and not is_immut(e.recv):
                    hit = nm
                elif nm in INPLACE_ARGS and (len(e.args) + len(kw)) >= INPLACE_ARGS[nm] and not is_immut(e.recv):
                    hit = nm
                if hit:
                    for r, p in roots(e.recv, dicts):
                        if r.op == "ext" and not p or VIEW in p or p and p[-1] == SHALLOW and nm in RELABEL:
                            continue
                        yield Mut(e, r, strip(p), "in-place " + hit)
            elif isinstance(e.target, str) and e.target in MUT_FUNCS and len(e.args) > MUT_FUNCS[e.target]:
                for r, p in roots(e.args[MUT_FUNCS[e.target]], dicts):
                    yield Mut(e, r, strip(p), "in-place " + e.target)
            if "out" in kw:
                for r, p in roots(kw["out"], dicts):
                    yield Mut(e, r, strip(p), "out= of " + str(e.target))


def is_immut(n):
    return n.op in ("const", "str", "fmt", "tuple")
