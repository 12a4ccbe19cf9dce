"""P01: writer/reader composition."""
from .common import *
from .tables import vwalk
from .preds import unwrap

EXPLANATION = ("Symbolic composition of every writer with its reader: as_dict is evaluated on an arbitrary instance, from_dict is evaluated on the very dictionary term it "
               "returned, and each attribute of the reloaded object is expressed in terms of the attributes of the saved one. Rules: every saved item comes back in its "
               "own place and from no other item, what was absent stays absent, no loader reads a key the writer does not write, encoders and decoders match, and the "
               "file layer drops nothing but raw data on request.")

LOSSY = {"head", "tail", "round", "dropna", "sample", "drop", "fillna", "drop_duplicates", "nlargest", "nsmallest", "truncate", "clip", "abs", "unique"}
ME = mk("param", "self")


def subst(n, m):
    memo = {}
    tested = set(m.values())

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, Node):
            return x
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        a = [rec(y) for y in x.args]
        if x.op == "ite":
            r = ite(decide(a[0]), a[1], a[2])
        elif x.op == "not":
            r = neg(decide(a[0]))
        elif x.op == "cmp":
            r = cmp_(a[0], a[1], a[2]) if a[0] in ("is", "==") else mk("cmp", *a)
        elif x.op == "bool":
            r = bool_(a[0], [decide(y) for y in a[1]]) if all(y.op in ("cmp", "not", "bool", "const") or y in tested for y in a[1]) else boolval(a)
        elif x.op == "boolval":
            r = boolval(a)
        else:
            r = mk(x.op, *a)
        memo[x] = r
        return r
    return rec(n)


def boolval(a):
    op, items = a[0], list(a[1])
    out = []
    for i, x in enumerate(items):
        if x.op == "const" and i < len(items) - 1:
            t = bool(x.args[0])
            if (op == "or" and t) or (op == "and" and not t):
                out.append(x)
                break
            continue
        out.append(x)
    return out[0] if len(out) == 1 else mk("boolval", op, tuple(out))


def decide(c):
    if c.op == "const":
        return const(bool(c.args[0]))
    if c.op == "cmp" and c.args[0] in ("is", "==") and c.args[1].op == "const" and c.args[2].op == "const":
        return const(c.args[1].args[0] is c.args[2].args[0] or c.args[1].args[0] == c.args[2].args[0])
    return c


def path_of(n):
    """attr chain below self, or None"""
    p = []
    while n.op == "attr":
        p.append(n.args[1])
        n = n.args[0]
    return tuple(reversed(p)) if n is ME and p else None


def norm(name):
    return name.lstrip("_")


def tops(n, deep=None):
    """top-level attributes of self a term's value is computed from"""
    out = set()
    for x in (deep(n) if deep else vwalk(n)):
        if x.op == "attr" and x.args[0] is ME:
            out.add(norm(x.args[1]))
    return out


def deepwalk(n, heap, limit=6):
    """vwalk following objects built on the way"""
    seen, st = set(), [(n, 0)]
    idx = {}
    for loc, v in heap.items():
        if loc.op in ("attr", "sub") and loc.args[0].op == "new":
            idx.setdefault(loc.args[0], []).append(v)
    while st:
        x, d = st.pop()
        for y in vwalk(x):
            if y.uid in seen:
                continue
            seen.add(y.uid)
            yield y
            if y.op == "new" and d < limit:
                for v in idx.get(y, ()):
                    if isinstance(v, Node):
                        st.append((v, d + 1))


def peel(n, d=0):
    """the saved term below encoders and decoders that undo each other"""
    if d > 30:
        return n
    n = unwrap(n)
    if n.op == "meth" and n.args[1] in ("to_dict", "tolist", "copy", "sort_index", "to_list"):
        return peel(n.args[0], d + 1)
    if n.op == "call" and n.args[1] and n.args[0].split(".")[-1] in ("DataFrame", "Series", "from_dict", "asarray", "array", "list", "tuple", "set", "frozenset", "deepcopy", "copy", "dict"):
        return peel(n.args[1][0], d + 1)
    return n


def orient(n):
    kw = dict(n.args[3])
    o = n.args[2][0] if n.args[2] else kw.get("orient")
    return "dict" if o is None else cval(o)


def writer_items(it, res, st):
    """{saved path: [key path]} and {key: term} of the dictionary returned by a writer"""
    keys = {}
    for loc, v in st.heap.items():
        if loc.op == "sub" and loc.args[0] is res and is_const(loc.args[1]) and v is not ABSENT:
            keys[cval(loc.args[1])] = v
    items = {}

    def rec(v, key, d=0):
        for x in vwalk(v):
            if x.op == "new" and d < 2:
                for loc, w in st.heap.items():
                    if loc.op == "sub" and loc.args[0] is x and isinstance(w, Node):
                        rec(w, key + (cval(loc.args[1]),), d + 1)
            # maximal attr chains
        chains = [path_of(x) for x in vwalk(v) if x.op == "attr"]
        chains = [p for p in chains if p and p[0] != "__class__"]
        for p in chains:
            if any(q != p and q[:len(p)] == p for q in chains):
                continue
            items.setdefault(p, []).append(key)
    for k, v in keys.items():
        rec(v, (k,))
    return keys, items


def resolve(heap, obj, path):
    cur = obj
    for name in path:
        nxt = None
        for nm in (name, "_" + name, norm(name)):
            v = heap.get(attr(cur, nm))
            if v is not None and v is not ABSENT:
                nxt = v
                break
        if nxt is None:
            return None
        cur = nxt
    return cur


def check(c):
    c.rule("restored", "every item the writer saves is found again in the reloaded object")
    c.rule("own-place", "each restored item is filled from the same item of the saved object and from no other")
    c.rule("absence", "an item saved as absent reloads as absent, an item saved as zero or empty is not replaced by a default")
    c.rule("keys", "every key the reader takes without a fallback is written by the writer")
    c.rule("codec", "tables and arrays are decoded by the inverse of how they were encoded, with no lossy step in between")
    c.rule("row-labels", "tables whose row labels identify samples are saved with their row labels")
    c.rule("identity", "the saved form names the class that saved it, so that generic loading rebuilds the same kind of object")
    c.rule("file-form", "the file holds the whole saved form (without raw data only when that was asked) and the file loader passes it on unchanged but for the recorded path")
    n = 0
    for k in c.P.all_classes():
        fa, fd = c.P.find_method(k, "as_dict"), c.P.find_method(k, "from_dict")
        if fa is None or fd is None:
            continue
        own = "as_dict" in k.methods or "from_dict" in k.methods or "__init__" in k.methods
        if not own:
            continue
        compose(c, k, fa, fd)
        n += 1
    rules(c)
    files(c)
    c.need("restored", 25)
    c.need("own-place", 25)


def ctor_values(c, k):
    init = c.P.find_method(k, "__init__")
    if init is None:
        return {}
    it = c.interp(types={ME: k})
    _, st, _ = c.run(it, init, self_node=ME, cls=k)
    out = {}
    for loc, v in st.heap.items():
        if loc.op == "attr" and loc.args[0] is ME and isinstance(v, Node):
            out[norm(loc.args[1])] = v
    return out


def compose(c, k, fa, fd):
    it = c.interp(types={ME: k})
    res, st, _ = c.run(it, fa, self_node=ME, cls=k)
    d = [x for x in alts(res) if x.op == "new"]
    if len(d) != 1:
        c.notes.append(f"{k.name}.as_dict: saved form not a single dictionary")
        return
    d = d[0]
    keys, items = writer_items(it, d, st)
    if not keys:
        return
    ctor = ctor_values(c, k)
    forms = [("", dict(st.heap))]
    if "raw_data" in keys:
        h = {l: v for l, v in st.heap.items() if not (l.op == "sub" and l.args[0] is d and l.args[1] is const("raw_data"))}
        h[sub(d, const("raw_data"))] = ABSENT
        forms.append(("without raw data", h))
    reloaded = []
    for label, heap in forms:
        it2 = c.interp(types={ME: k})
        r, st2, ev2 = c.run(it2, fd, cls=k, args={"d": d}, heap=heap)
        objs = [x for x in alts(r) if x.op == "new"]
        if len(objs) != 1:
            c.notes.append(f"{k.name}.from_dict: {label}: result not a single object")
            continue
        reloaded.append((label, objs[0], st2.heap, ev2, heap))
    if not reloaded:
        return
    savedtops = {norm(p[0]) for p in items}
    exp = explicit(reloaded[0][3], reloaded[0][1])
    # -- identity
    for key, at in (("@class", "__name__"), ("@module", "__module__")):
        v = keys.get(key)
        if v is not None:
            ok = v is attr(attr(ME, "__class__"), at) or v is attr(mk("call", "builtins.type", (ME,), ()), at) or cval(v) == (k.name if at == "__name__" else k.module.name)
            okk = ok or v.op not in ("const", "attr")
            c.ob("identity", f"{k.name}:{key}", okk, f"the saved form of {k.name} carries {key} = {show(v)}", fa.where())
    label0, obj, heap, evs, h0 = reloaded[0]
    # -- restored / own place / absence
    for p, ks in sorted(items.items()):
        A = norm(p[0])
        V = None
        found = derived = False
        for label, o, hp, _, _ in reloaded:
            v = resolve(hp, o, p)
            if v is None and len(p) > 1:
                v = resolve(hp, o, p[:1])
            if v is None:
                continue
            term = ME
            for nm in p:
                term = attr(term, nm)
            if any(x is term for x in deepwalk(v, hp)):
                found = True
            elif len(p) == 1 and A not in exp and ctor_derived(ctor.get(A)) and any(x is not NONE for x in alts(v)):
                derived = True
        c.ob("restored", f"{k.name}:{'.'.join(p)}", found or derived, f"{'.'.join(p)} is saved (as {'/'.join(map(str, ks[0]))}) but the object reloaded from it does not have it", fd.where())
    done = set()
    whole = {norm(p[0]) for p in items if len(p) == 1}
    only_parts = savedtops - whole
    for label, o, hp, _, hsrc in reloaded:
        names = {norm(l.args[1]) for l in hp if l.op == "attr" and l.args[0] is o}
        for A in sorted(names & (set(ctor) | exp)):
            V = resolve(hp, o, (A,))
            if V is None or A in only_parts:
                continue
            derived = A not in exp and (ctor_derived(ctor.get(A)) or (ctor.get(A) is not None and ctor[A].op == "new"))
            ts = tops(V) & savedtops or (tops(V, lambda z, hp=hp: deepwalk(z, hp)) & savedtops)
            if not ts or derived:
                continue
            if A in ts and V.op == "new":
                ts = {A}
            c.ob("own-place", f"{k.name}:{A}", ts == {A}, f"after reloading {label}, {A} is computed from {', '.join(sorted(ts))}", fd.where())
            if A in done or ts != {A}:
                continue
            done.add(A)
            absence(c, k, A, V, ctor, keys, fd, hp)
            codec(c, k, A, V, fd)
            if A in whole:
                terms = {x for x in walk(V) if x.op == "attr" and x.args[0] is ME and norm(x.args[1]) == A}
                w = when_present(V, terms)
                lost = [x for x in alts(w) if not any(y in terms for y in deepwalk(x, hp))]
                cv = ctor.get(A)
                if lost and terms and not (cv is not None and all(is_default(x) for x in lost)):
                    c.ob("restored", f"{k.name}:{A} always", False, f"{A} is not restored in every state: it may reload as {show(lost[0])[:100]}", fd.where())
        # objects nested in the reloaded object: same items by position
        nested(c, k, o, hp, fd, label)
    # -- keys
    readkeys(c, k, fd, keys)


def is_default(x):
    return x.op == "default"


def ctor_derived(v):
    """the constructor computes this attribute (rather than storing a parameter)"""
    if v is None:
        return False
    ys = [peel(x) for x in alts(v)]
    if any(y.op == "param" for y in ys):
        return False
    return any(not (y.op in ("const", "new", "default") or (y.op == "call" and not y.args[1] and not y.args[2])) for y in ys)


def explicit(evs, obj):
    """attributes the reader itself sets on the reloaded object"""
    out = set()
    for e in evs:
        if e.kind == "store" and e.base is obj and e.how == "attr" and not any(f.name == "__init__" for f in e.stack):
            out.add(norm(cval(e.key) if isinstance(e.key, Node) else e.key))
    return out


def when_present(n, terms):
    """the term for an instance on which the item is present (not None, not empty)"""
    memo = {}

    def tr(x):
        if x in terms:
            return TRUE
        if x.op == "not":
            return neg(tr(x.args[0]))
        if x.op in ("bool", "boolval"):
            ys = [tr(y) for y in x.args[1]]
            stop = x.args[0] == "or"
            if any(y.op == "const" and bool(y.args[0]) == stop for y in ys):
                return const(stop)
            return bool_(x.args[0], ys)
        if x.op == "cmp" and x.args[0] == "is" and x.args[2] is NONE:
            if x.args[1] in terms or all(y in terms or holds(y) for y in alts(rec(x.args[1]))):
                return FALSE
        if x.op == "ite":
            return ite(tr(x.args[0]), tr(x.args[1]), tr(x.args[2]))
        if x.op == "meth" and any(y in terms for y in walk(x.args[0])) and x.args[1] in ("as_dict", "to_dict", "tolist", "copy"):
            return TRUE
        return x

    def holds(x):
        return x.op in ("meth", "call", "new", "comp") and any(y in terms for y in walk(x))

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, Node):
            return x
        if x in memo:
            return memo[x]
        if x.op == "ite":
            r = ite(tr(x.args[0]), rec(x.args[1]), rec(x.args[2]))
        else:
            r = mk(x.op, *[rec(y) for y in x.args])
        memo[x] = r
        return r
    return rec(n)


def absence(c, k, A, V, ctor, keys, fd, heap):
    """V with the saved item absent / zero"""
    terms = {x for x in walk(V) if x.op == "attr" and x.args[0] is ME and norm(x.args[1]) == A}
    cv = ctor.get(A)
    for val, what in ((NONE, "None"), (const(0), "0")):
        w = subst(V, {t: val for t in terms})
        # the writer's own encoding of the absent item
        enc = None
        for kk, kv in keys.items():
            if any(t in set(walk(kv)) for t in terms) and (not isinstance(kk, str) or not kk.startswith("@")):
                enc = subst(kv, {t: val for t in terms})
        if val is NONE:
            if enc is None or not terms or not all(x.op in ("const", "new", "list", "dict", "tuple") or raises(x) for x in alts(enc)):
                continue
            if all(raises(x) for x in alts(enc)):
                continue
            bad = [x for x in alts(w) if x is not NONE and not raises(x)]
        else:
            if not (len(terms) == 1 and enc is val):
                continue
            bad = [x for x in alts(w) if not any(y is val for y in walk(x))]
        if not bad:
            c.ob("absence", f"{k.name}:{A}={what}", True, "", fd.where())
            continue
        if cv is not None:
            ps = {x for x in walk(cv) if x.op == "param"}
            z = subst(cv, {x: val for x in ps})
            if any(x is not val for x in alts(z)):
                continue    # the constructor never leaves it so
        c.ob("absence", f"{k.name}:{A}={what}", False, f"{A} saved as {what} reloads as {show(bad[0])[:120]}", fd.where())


def raises(x):
    """a method or item of None is taken: no value results"""
    return any(y.op in ("meth", "attr", "sub") and y.args[0] is NONE for y in walk(x))


def codec(c, k, A, V, fd):
    lossy = None
    for x in vwalk(V):
        if x.op == "meth" and x.args[1] in LOSSY and tops(x.args[0]) == {A}:
            lossy = f"passes through {x.args[1]}()"
        if x.op == "call" and x.args[1] and x.args[0].split(".")[-1] in ("DataFrame", "from_dict"):
            y = unwrap(x.args[1][0])
            if y.op == "meth" and y.args[1] == "to_dict":
                kw = dict(x.args[2])
                dec = cval(kw.get("orient", const("columns")), "?")
                enc = orient(y)
                if x.args[0].split(".")[-1] == "DataFrame":
                    dec = "columns"
                good = {"columns": ("dict", "list", "series", "records"), "index": ("index",), "tight": ("tight",)}
                c.ob("codec", f"{k.name}:{A}", dec not in good or enc in good[dec] or enc is None, f"{A} is written as to_dict({enc!r}) and read back as {dec!r}", fd.where())
                if k.name == "BEEPDataset":
                    c.ob("row-labels", f"{k.name}:{A}", enc in ("dict", "index", "split", "tight"), f"the row labels of {A} are not saved (to_dict({enc!r}))", fd.where())
            if y.op == "attr" and y.args[1] == "T" or (y.op == "meth" and y.args[1] == "transpose"):
                lossy = "is transposed"
    if lossy:
        c.ob("codec", f"{k.name}:{A}", False, f"{A} {lossy} between saving and reloading", fd.where())


def nested(c, k, obj, heap, fd, label):
    """attributes assigned on values held by the reloaded object (model.coef_ = ...): the value is the same attribute of the saved one"""
    held = {}
    for loc, v in heap.items():
        if loc.op == "attr" and loc.args[0] is obj and isinstance(v, Node):
            if v.op == "new":
                inner(c, k, norm(loc.args[1]), v, heap, fd, label)
            else:
                held[v] = norm(loc.args[1])
    for loc, v in heap.items():
        if loc.op == "attr" and loc.args[0] in held and isinstance(v, Node):
            paths = {path_of(x) for x in vwalk(v) if x.op == "attr"} - {None}
            paths = {p for p in paths if len(p) == 2 and not p[0].startswith("__")}
            if paths:
                want = (held[loc.args[0]], norm(loc.args[1]))
                got = {(norm(a), norm(b)) for a, b in paths}
                c.ob("own-place", f"{k.name}:{'.'.join(want)}", got == {want}, f"after reloading {label}, {'.'.join(want)} is filled from {', '.join('.'.join(g) for g in sorted(got))}", fd.where())


def inner(c, k, name, o, heap, fd, label):
    """an object built by the reader: what it stores unchanged comes from the same part of the saved object"""
    for loc, v in heap.items():
        if loc.op != "attr" or loc.args[0] is not o or not isinstance(v, Node):
            continue
        if path_of(v) and path_of(v)[0] == name and len(path_of(v)) == 2:
            c.ob("own-place", f"{k.name}:{name}.{norm(loc.args[1])}", norm(path_of(v)[1]) == norm(loc.args[1]),
                 f"after reloading {label}, {name}.{loc.args[1]} is filled from {'.'.join(path_of(v))}", fd.where())
        if v.op == "new":
            for l2, w in heap.items():
                if l2.op == "sub" and l2.args[0] is v and is_str(l2.args[1]) and isinstance(w, Node):
                    p = path_of(w)
                    if p and len(p) == 2 and p[0] == name:
                        c.ob("own-place", f"{k.name}:{name}[{cval(l2.args[1])}]", norm(p[1]) == cval(l2.args[1]),
                             f"after reloading {label}, {name} {cval(l2.args[1])!r} is filled from {'.'.join(p)}", fd.where())


def readkeys(c, k, fd, keys):
    dn = mk("param", "d")
    it = c.interp(types={ME: k})
    _, st, evs = c.run(it, fd, cls=k, args={"d": dn})
    need = {}
    for e in evs:
        for t in terms_of(e):
            for x in walk(t):
                if x.op == "sub" and x.args[0] is dn and is_str(x.args[1]):
                    need.setdefault(cval(x.args[1]), e)
    for key, e in sorted(need.items()):
        if any(known_in(g, dn, key) for g in e.guards):
            continue
        c.ob("keys", f"{k.name}:{key}", key in keys, f"from_dict takes {key!r}, which as_dict does not write", e.where())


def known_in(g, dn, key):
    cnd, pol = g
    return pol and any(x.op == "cmp" and x.args[0] == "in" and x.args[1] is const(key) and x.args[2] is dn for x in walk(cnd))


def terms_of(e):
    for nm in ("args", "value", "recv", "result"):
        v = getattr(e, nm, None)
        if isinstance(v, Node):
            yield v
        elif isinstance(v, (list, tuple)):
            for y in v:
                if isinstance(y, Node):
                    yield y
    if getattr(e, "kwargs", None):
        for y in e.kwargs.values():
            if isinstance(y, Node):
                yield y


# ---------------------------------------------------------------- cycle advancement rules
def rules(c):
    """json/parse_json pairs: each constructor argument is filled from its own attribute"""
    for full, ser in (("beep.protocol.maccor_to_biologic_mb.CycleAdvancementRulesSerializer", "beep.protocol.maccor_to_biologic_mb.CycleAdvancementRules"),
                      ("beep.protocol.biologic_mb_to_maccor.CycleTransitionRulesSerializer", "beep.protocol.biologic_mb_to_maccor.CycleTransitionRules")):
        try:
            k, kd = c.cls(full), c.cls(ser)
        except AnalysisError:
            continue
        fj, fp = c.P.find_method(k, "json"), c.P.find_method(k, "parse_json")
        if fj is None or fp is None:
            continue
        params = [a.arg for a in fj.node.args.args if a.arg != "self"]
        it = c.interp(types={ME: k, mk("param", params[0]): kd})
        src = mk("param", params[0])
        res, st, evs = c.run(it, fj, self_node=ME, cls=k)
        dumps = [e for e in evs if e.kind == "call" and e.target == "json.dumps" and e.args]
        if len(dumps) != 1:
            continue
        obj = dumps[0].args[0]
        wr = {cval(l.args[1]): v for l, v in st.heap.items() if l.op == "sub" and l.args[0] is obj and is_const(l.args[1])}
        it2 = c.interp(types={ME: k})
        r, st2, ev2 = c.run(it2, fp, self_node=ME, cls=k)
        o = [x for x in alts(r) if x.op == "new"]
        if len(o) != 1:
            continue
        loads = [e.result for e in ev2 if e.kind == "call" and e.target == "json.loads"]
        if len(loads) != 1:
            continue
        data = loads[0]
        rkeys = {}
        for loc, v in st2.heap.items():
            if loc.op == "attr" and loc.args[0] is o[0] and isinstance(v, Node):
                ks = {cval(x.args[1]) for x in fill(v, st2.heap, ev2) if x.op == "sub" and x.args[0] is data}
                rkeys[loc.args[1]] = ks
        for A, ks in sorted(rkeys.items()):
            src_attrs = set()
            for kk in ks:
                if kk in wr:
                    for x in fill(wr[kk], st.heap, evs):
                        if x.op == "attr" and x.args[0] is src:
                            src_attrs.add(norm(x.args[1]))
                c.ob("keys", f"{k.name}:{kk}", kk in wr, f"parse_json takes {kk!r}, which json does not write", fp.where())
            if ks:
                c.ob("own-place", f"{k.name}:{A}", src_attrs <= {norm(A)}, f"{A} is reloaded from {', '.join(sorted(src_attrs))}", fp.where())
                c.ob("restored", f"{k.name}:{A}", norm(A) in src_attrs, f"{A} is not reloaded from the saved {A}", fp.where())
            else:
                c.ob("restored", f"{k.name}:{A}", norm(A) not in {norm(x.args[1]) for v in wr.values() for x in fill(v, st.heap, evs) if x.op == "attr" and x.args[0] is src}, f"{A} is saved but not reloaded", fp.where())
        transitions(c, k, wr, st, evs, r, st2, ev2, fp)


def fill(v, heap, evs):
    """terms a container term is made of, including what is put into it in loops"""
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        for y in walk(x):
            if y.uid in seen:
                continue
            seen.add(y.uid)
            yield y
            if y.op == "new":
                for loc, w in heap.items():
                    if loc.op in ("sub", "attr") and loc.args[0] is y and isinstance(w, Node):
                        stack += [w] + ([loc.args[1]] if loc.op == "sub" else [])
                for e in evs:
                    if e.kind == "call" and e.recv is y:
                        stack += [a for a in e.args]
                    if e.kind == "store" and getattr(e, "base", None) is y:
                        stack += [z for z in (e.value, getattr(e, "key", None)) if isinstance(z, Node)]


def transitions(c, k, wr, st, evs, r, st2, ev2, fp):
    """(source, target) -> count maps: the first of the pair is saved and read back as the source, the second as the target"""
    o = [x for x in alts(r) if x.op == "new"][0]
    for A, wv in sorted(wr.items(), key=lambda z: str(z[0])):
        ds = {}
        for x in fill(wv, st.heap, evs):
            if x.op == "new":
                for e in evs:
                    for loc, v in e.heap.items() if getattr(e, "heap", None) else ():
                        if loc.op == "sub" and loc.args[0] is x and is_str(loc.args[1]):
                            ds.setdefault(cval(loc.args[1]), set()).add(v)
        target = None
        for loc, v in st2.heap.items():
            if loc.op == "attr" and loc.args[0] is o and norm(loc.args[1]) == A and v.op == "new":
                target = v
        if target is not None and ds:
            pairs(c, k, A, ds, target, ev2, fp)


def pairs(c, k, A, w, target, ev2, fp):
    pos = {}
    for key, vs in w.items():
        for v in vs:
            p = pair_role(v)
            if p is not None:
                pos.setdefault(key, set()).add(p)
    r = {}
    for e in ev2:
        if e.kind == "store" and e.base is target and isinstance(getattr(e, "key", None), Node):
            kt = e.key
            if kt.op == "tuple" and len(kt.args) == 2:
                for i in (0, 1):
                    if kt.args[i].op == "sub" and is_str(kt.args[i].args[1]):
                        r.setdefault(cval(kt.args[i].args[1]), set()).add(i)
                if e.value.op == "sub" and is_str(e.value.args[1]):
                    r.setdefault(cval(e.value.args[1]), set()).add("value")
    for key in sorted(set(pos) & set(r)):
        c.ob("own-place", f"{k.name}:{A}:{key}", pos[key] == r[key], f"{key!r} is saved as part {sorted(map(str, pos[key]))} of a transition and read back as part {sorted(map(str, r[key]))}", fp.where())
    for key in sorted(set(r) - set(w)):
        if w:
            c.ob("keys", f"{k.name}:{A}:{key}", False, f"transitions are read by {key!r}, which is not written", fp.where())


def pair_role(v):
    """0/1: which half of the key of a mapping's item; 'value': the mapped value"""
    if v.op == "sub" and v.args[0].op == "keyof" and v.args[1].op == "const":
        return v.args[1].args[0]
    if v.op == "sub" and v.args[1].op == "keyof":
        return "value"
    if v.op == "sub" and v.args[1].op == "const" and v.args[0].op == "sub" and v.args[0].args[1].op == "const" and v.args[0].args[0].op == "elem":
        if v.args[0].args[1].args[0] == 0:
            return v.args[1].args[0]
    if v.op == "sub" and v.args[0].op == "elem" and v.args[1] is const(1):
        return "value"
    return None


# ---------------------------------------------------------------- files
def files(c):
    for k in c.P.all_classes():
        fw, fa = k.methods.get("to_json_file"), c.P.find_method(k, "as_dict")
        if fw is not None and fa is not None:
            it = c.interp(types={ME: k})
            res, st, _ = c.run(it, fa, self_node=ME, cls=k)
            full = {cval(l.args[1]) for l, v in st.heap.items() if l.op == "sub" and l.args[0] is res and v is not ABSENT}
            it = c.interp(types={ME: k})
            _, st2, evs = c.run(it, fw, self_node=ME, cls=k)
            for e in evs:
                if e.kind == "call" and isinstance(e.target, str) and e.target.split(".")[-1] in ("dumpfn", "dump") and e.args and e.args[0].op == "new":
                    have = {}
                    for l, v in e.heap.items():
                        if l.op == "sub" and l.args[0] is e.args[0]:
                            have[cval(l.args[1])] = v
                    bad = []
                    for key in full:
                        v = have.get(key)
                        if v is None or v is ABSENT:
                            bad.append((key, "never written"))
                        elif v.op == "ite" and any(x is ABSENT for x in alts(v)):
                            if key != "raw_data":
                                bad.append((key, f"dropped when {show(v.args[0])}"))
                            else:
                                if any(x is ABSENT for x in alts(subst(v, {mk("param", "omit_raw"): FALSE}))):
                                    bad.append((key, f"dropped when not asked ({show(v.args[0])})"))
                    if "raw_data" in full and not bad:
                        v = have.get("raw_data")
                    c.ob("file-form", f"{k.name}.to_json_file", not bad, f"{', '.join(f'{a} is {b}' for a, b in bad)}", e.where())
                    if len(e.args) > 1:
                        ps = [x for x in walk(e.args[1]) if x.op == "param" and x is not ME]
                        c.ob("file-form", f"{k.name}.to_json_file target", bool(ps), f"saved to {show(e.args[1])}, not to the file asked for", e.where())
        fl = k.methods.get("from_json_file")
        if fl is not None and c.P.find_method(k, "from_dict") is not None:
            it = c.interp(types={ME: k}, no_inline=(c.P.find_method(k, "from_dict").full,))
            r, st, evs = c.run(it, fl, cls=k)
            loaded = {e.result for e in evs if e.kind == "call" and isinstance(e.target, str) and e.target.split(".")[-1] in ("load", "loads", "loadfn")}
            calls = [e for e in evs if e.kind == "call" and "from_dict" in str(e.target)]
            for e in evs:
                if e.kind in ("store", "del") and getattr(e, "base", None) in loaded and isinstance(getattr(e, "key", None), Node):
                    key = cval(e.key)
                    src = {cval(x.args[1]) for x in walk(e.value) if x.op in ("sub", "get") and x.args[0] in loaded} if e.kind == "store" and isinstance(e.value, Node) else set()
                    c.ob("file-form", f"{k.name}.from_json_file:{key}", e.kind == "store" and (key == "paths" or src == {key}), f"the loaded {key!r} is {'removed' if e.kind == 'del' else 'overwritten'} before the object is rebuilt", e.where())
                if e.kind == "call" and e.recv in loaded and e.target in ("pop", "clear", "popitem"):
                    c.ob("file-form", f"{k.name}.from_json_file:{e.target}", False, "part of the loaded form is dropped before the object is rebuilt", e.where())
            for e in calls:
                a = [x for x in e.args if x.op not in ("class", "param")] or list(e.args)
                if a and loaded:
                    c.ob("file-form", f"{k.name}.from_json_file", any(x in loaded for y in a for x in walk(y)), "the object is not rebuilt from what was loaded", e.where())
