"""reading comparisons and quantifiers out of guard terms"""
from .common import *

PASS_CALL = {"numpy.where", "numpy.any", "builtins.len", "builtins.any", "builtins.sum", "numpy.sum", "numpy.count_nonzero", "numpy.nonzero", "numpy.flatnonzero",
             "builtins.bool", "numpy.argwhere", "builtins.list", "builtins.tuple", "numpy.size"}
PASS_METH = {"any", "sum", "nonzero", "to_numpy", "tolist", "dropna", "copy", "item"}
CLEAN_CALL = {"numpy.asarray", "numpy.array", "pandas.Series", "builtins.float", "builtins.list"}
CLEAN_METH = {"to_numpy", "copy", "dropna", "astype_float"}


def truthiness(n):
    """True / False / None (unknown) of a leaf term"""
    if n.op == "const":
        return bool(n.args[0])
    if n.op in ("tuple", "list"):
        return bool(n.args)
    if n.op == "str":
        return True if any(p.op == "const" and p.args[0] for p in n.args if isinstance(p, Node)) or any(isinstance(x, str) and x for x in n.args) else None
    if n in (UNDEF, ABSENT):
        return None
    if n.op in ("func", "class", "new"):
        return True if n.op != "new" or n.args[0] not in ("list", "dict", "set") else None
    return None


def consistent(gs):
    d = {}
    eqs = {}
    for g, p in gs:
        if d.get(g, p) != p:
            return False
        d[g] = p
        if g.op == "cmp" and g.args[0] == "==" and g.args[2].op == "const" and p:
            if eqs.setdefault(g.args[1], g.args[2]) is not g.args[2]:
                return False
    return True


def expand(gs, limit=64):
    """guards with gated (ite) conditions -> list of plain guard sets"""
    outs = [()]
    for g, p in gs:
        opts = []
        if g.op == "ite":
            for hs, leaf in guarded_alts(g):
                t = truthiness(leaf)
                if t is None:
                    opts.append(tuple(hs) + tuple(split_guard(leaf, p)))
                elif t == p:
                    opts.append(tuple(hs))
        elif g.op == "cmp" and g.args[0] == "is" and g.args[2] is NONE and g.args[1].op == "ite":
            for hs, leaf in guarded_alts(g.args[1]):
                if leaf is NONE:
                    t = True
                elif leaf.op in ("const", "str", "tuple", "list", "new", "func", "class"):
                    t = False
                else:
                    t = None
                if t is None:
                    opts.append(tuple(hs) + ((mk("cmp", "is", leaf, NONE), p),))
                elif t == p:
                    opts.append(tuple(hs))
        else:
            opts = [((g, p),)]
        outs = [o + x for o in outs for x in opts]
        outs = [o for o in outs if consistent(o)][:limit]
    # nested
    res = []
    for o in outs:
        if any(g.op == "ite" or (g.op == "cmp" and g.args[0] == "is" and g.args[1].op == "ite" and g.args[2] is NONE) for g, _ in o) and o != tuple(gs):
            res += expand(o, limit)
        else:
            res.append(o)
    return res[:limit]


def simplify(gs):
    """drop compound guards the atomic ones already settle"""
    facts = {}
    for g, p in gs:
        if g.op != "bool":
            facts[g] = p
            if g.op == "cmp" and g.args[0] == "==" and p:
                facts.setdefault(("eq", g.args[1]), g.args[2])

    def known(x, pol):
        t, p = truth(x)
        want = pol if p else not pol
        if t in facts:
            return facts[t] == want
        if t.op == "cmp" and t.args[0] == "==" and t.args[2].op == "const":
            v = facts.get(("eq", t.args[1]))
            if v is not None and v.op == "const" and v is not t.args[2]:
                return want is False
        return False

    out = []
    for g, p in gs:
        if g.op == "bool":
            if g.args[0] == "and" and not p and any(known(x, False) for x in g.args[1]):
                continue
            if g.args[0] == "or" and p and any(known(x, True) for x in g.args[1]):
                continue
        if g.op == "cmp" and g.args[0] == "==" and not p and g.args[2].op == "const":
            v = facts.get(("eq", g.args[1]))
            if v is not None and v.op == "const" and v is not g.args[2]:
                continue
        out.append((g, p))
    return tuple(out)


def leaves(g, pol, q=None):
    """comparisons inside a guard: yields (cmp node, polarity, quantifier); quantifier None | exists | forall"""
    if g.op == "not":
        yield from leaves(g.args[0], not pol, q)
    elif g.op == "un" and g.args[0] in ("~", "not", "invert"):
        yield from leaves(g.args[1], not pol, q)
    elif g.op == "bool":
        for x in g.args[1]:
            yield from leaves(x, pol, q)
    elif g.op == "cmp":
        op, a, b = g.args[0], g.args[1], g.args[2]
        if op in ("<", "<=") and a.op == "const" and isinstance(a.args[0], (int, float)) and countlike(b):
            n = a.args[0] + (1 if op == "<" else 0)
            yield from leaves(b, pol, ("exists" if pol else "forall") if n == 1 else f"at least {n} of")
        elif op in ("==",) and b.op == "const" and b.args[0] == 0 and countlike(a):
            yield from leaves(a, not pol, "exists" if not pol else "forall")
        elif op in ("<", "<=") and b.op == "const" and isinstance(b.args[0], (int, float)) and countlike(a):
            n = b.args[0] + (1 if op == "<=" else 0)
            yield from leaves(a, not pol, ("exists" if not pol else "forall") if n == 1 else f"at least {n} of")
        else:
            yield g, pol, q
    elif g.op == "call" and g.args[0] in ("numpy.all", "builtins.all") and g.args[1]:
        yield from leaves(g.args[1][0], pol, "forall" if pol else "exists")
    elif g.op == "call" and g.args[0] in PASS_CALL and g.args[1]:
        yield from leaves(g.args[1][0], pol, q or ("exists" if pol else "forall"))
    elif g.op == "meth" and g.args[1] == "all":
        yield from leaves(g.args[0], pol, "forall" if pol else "exists")
    elif g.op == "meth" and g.args[1] in ("any", "sum"):
        yield from leaves(g.args[0], pol, q or ("exists" if pol else "forall"))
    elif g.op == "meth" and g.args[1] in ("to_numpy", "tolist", "item", "copy", "nonzero"):
        yield from leaves(g.args[0], pol, q)
    elif g.op == "attr" and g.args[1] in ("size", "values", "empty", "index", "shape"):
        p = not pol if g.args[1] == "empty" else pol
        yield from leaves(g.args[0], p, q or ("exists" if p else "forall"))
    elif g.op == "sub":
        # len(frame[mask]) / where(mask)[0]
        if g.args[1].op == "const" or g.args[1].op == "slice":
            yield from leaves(g.args[0], pol, q)
        else:
            yield from leaves(g.args[1], pol, q)
    elif g.op == "comp":
        for x in g.args[1]:
            yield from leaves(x, pol, q)
        for x in g.args[2]:
            yield from leaves(x, pol, q)


def countlike(n):
    return (n.op == "call" and n.args[0] in ("builtins.len", "builtins.sum", "numpy.sum", "numpy.count_nonzero", "numpy.size") or n.op == "attr" and n.args[1] == "size"
            or n.op == "meth" and n.args[1] in ("sum",) or n.op == "sub" and n.args[0].op == "attr" and n.args[0].args[1] == "shape")


def relation(cmpn, pol):
    """(op, a, b) with op in < <= > >= == !=, polarity applied"""
    op, a, b = cmpn.args[0], cmpn.args[1], cmpn.args[2]
    if op not in FLIP:
        return None, a, b
    if not pol:
        op = {"<": ">=", "<=": ">", "==": "!=", "!=": "==", ">": "<=", ">=": "<"}.get(op)
    return op, a, b


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def unwrap(n):
    """drop views and conversions that keep the values"""
    while True:
        if n.op == "meth" and n.args[1] in ("to_numpy", "copy", "dropna") and not n.args[2]:
            n = n.args[0]
        elif n.op == "attr" and n.args[1] == "values":
            n = n.args[0]
        elif n.op == "call" and n.args[0] in ("numpy.asarray", "numpy.array", "pandas.Series", "builtins.float") and len(n.args[1]) == 1 and not n.args[2]:
            n = n.args[1][0]
        else:
            return n


AGG = {"max": "max", "min": "min", "nanmax": "max", "nanmin": "min", "amax": "max", "amin": "min"}


def aggregate(n):
    """(column term, 'max'|'min'|other name|None)"""
    n = unwrap(n)
    if n.op == "meth" and not n.args[2]:
        if n.args[1] in AGG:
            return unwrap(n.args[0]), AGG[n.args[1]]
        return n.args[0], n.args[1]
    if n.op == "call" and n.args[0].startswith(("numpy.", "builtins.")) and len(n.args[1]) == 1:
        s = n.args[0].split(".")[-1]
        if s in AGG:
            return unwrap(n.args[1][0]), AGG[s]
        return n.args[1][0], s
    return n, None


def satisfiable(gs, limit=12):
    """can the guards hold together, reading them as formulas over opaque atoms?"""
    import itertools
    atoms = []

    def rec(g):
        if g.op == "bool":
            for x in g.args[1]:
                rec(x)
        elif g.op == "not":
            rec(g.args[0])
        elif g.op == "ite":
            for x in g.args:
                rec(x)
        elif truthiness(g) is None and g not in atoms:
            atoms.append(g)
    for g, _ in gs:
        rec(g)
    if len(atoms) > limit:
        return consistent(gs)

    def val(g, env):
        if g.op == "bool":
            f = all if g.args[0] == "and" else any
            return f(val(x, env) for x in g.args[1])
        if g.op == "not":
            return not val(g.args[0], env)
        if g.op == "ite":
            return val(g.args[1], env) if val(g.args[0], env) else val(g.args[2], env)
        t = truthiness(g)
        return env[g] if t is None else t
    for vs in itertools.product((True, False), repeat=len(atoms)):
        env = dict(zip(atoms, vs))
        if all(val(g, env) == p for g, p in gs) and consistent([(a, v) for a, v in env.items()]):
            return True
    return False
