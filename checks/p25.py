"""P25: recorded structuring parameters are the ones used."""
from .probe import *
from .preds import consistent

EXPLANATION = ("Interprocedural argument-flow analysis of structure() of every run class with all callees inlined: the recorded dictionary is compared parameter by "
               "parameter with the values given; every interpolation, range, axis, exclusion and threshold reached is traced back to the parameter of its meaning; "
               "a client probe compares the object after unstructure() with a freshly constructed one.")

DP = "beep.structure.base.BEEPDatapath"
INTERP = "beep.structure.base.interpolate_df"
STATE = "beep.structure.base.step_is_chg_state"


CONV = {"builtins.list", "builtins.tuple", "builtins.int", "builtins.float", "numpy.array", "numpy.asarray", "copy.copy", "copy.deepcopy", "builtins.str"}


def params_in(t):
    return {x.args[0] for x in walk(t) if x.op == "param"}


def leaves(t):
    """the alternatives of a value, through `a or b`"""
    out = []
    for _, x in guarded_alts(t):
        if x.op == "bool" and x.args[0] == "or":
            for y in x.args[1]:
                out += leaves(y)
        elif x.op == "call" and x.args[0] in CONV and len(x.args[1]) == 1:
            out += leaves(x.args[1][0])
        elif x.op == "comp" and len(x.args) == 4 and len(x.args[3]) == 1 and not x.args[2] and len(x.args[1]) == 1 and x.args[1][0].op == "elem":
            out += leaves(x.args[3][0])
        else:
            out.append(x)
    return out


def only(t, names, consts=()):
    """every alternative of t is one of the parameters or one of the constants, and the parameters do occur"""
    ls = leaves(t)
    P = [mk("param", n) for n in names]
    return any(x in P for x in ls) and all(x in P or x.op in ("const", "list", "tuple") and (x in consts or x.op != "const") or x.op == "new" for x in ls)


def check(c):
    c.rule("recorded", "each recorded structuring parameter is the value structuring was given for it")
    c.rule("reaches", "each parameter of structuring reaches the step it names")
    c.rule("resolution", "the requested number of points and range are what the interpolation uses")
    c.rule("cleared", "unstructuring leaves the run as it was before structuring")
    base = c.cls(DP)
    me = mk("param", "self")
    for k in [base] + sorted(c.P.subclasses(base), key=lambda s: s.full):
        f = c.P.find_method(k, "structure")
        pn = [p for p in f.params[1:] + f.kwonly]
        pars = {p: mk("param", "given_" + p) for p in pn}
        it = c.interp(types={me: k}, no_inline={INTERP, STATE})
        res, st, evs = c.run(it, f, self_node=me, cls=k, args=pars)
        rec = st.heap.get(attr(me, "structuring_parameters"))
        items = None
        if rec is not None:
            items = it.dict_items(rec, st)
        if items is None:
            c.ob("recorded", f"{k.name}", rec is not None, "structuring records no parameters", f.where())
            c.notes.append(f"{k.name}: the recorded parameters are not a known dictionary")
        else:
            d = {cval(a): b for a, b in items}
            for p in pn:
                v = d.get(p)
                if isinstance(v, Node) and v.op == "new":
                    v = copied(v, evs)
                c.ob("recorded", f"{k.name}: {p}", v is pars[p], f"{p} is recorded as {show(v) if v is not None else 'nothing'}", f.where())
            for n, v in d.items():
                if n not in pars:
                    c.ob("recorded", f"{k.name}: {n}", not params_in(v) & {"given_" + p for p in pn}, f"a parameter is recorded under the name {n}", f.where())
        reaches(c, k, f, evs, me)
        cleared(c, k)
    inner(c)
    c.need("recorded", 40)
    c.need("reaches", 30)
    c.need("cleared", 25)


def copied(v, evs):
    for e in evs:
        if e.kind == "call" and e.result is v and e.target in ("copy.copy", "copy.deepcopy", "builtins.list", "builtins.tuple"):
            return e.args[0]
    return v


def names(e):
    return {s.name for s in e.stack}


def reaches(c, k, f, evs, me):
    G = lambda *a: ["given_" + x for x in a]
    dfs = [e for e in evs if e.kind == "call" and e.target == INTERP]
    reg = [e for e in dfs if "interpolate_diagnostic_cycles" not in names(e)]
    dia = [e for e in dfs if "interpolate_diagnostic_cycles" in names(e)]
    if not reg or not dia:
        c.notes.append(f"{k.name}: structure does not interpolate through interpolate_df")
        return
    b = lambda e, n: (e.bound or {}).get(n)
    seen = set()
    for e in reg:
        lab = f"{k.name}:{e.fn.qual}"
        r = b(e, "resolution")
        c.ob("reaches", lab + ": resolution", r is not None and only(r, G("resolution")), f"the cycles are interpolated to {show(r) if r is not None else 'the default number of'} points", e.where())
        ax = b(e, "field_name")
        pp = params_in(ax) if ax is not None else set()
        charge = charging(e)
        want = {True: "charge_axis", False: "discharge_axis"}.get(charge)
        if want:
            seen.add(want)
            # the axis may be replaced by test_time for waveforms
            ls = leaves(ax) if ax is not None else []
            ok = mk("param", "given_" + want) in ls and all(x is mk("param", "given_" + want) or x.op == "const" for x in ls)
            c.ob("reaches", f"{lab}: {want}", ok, f"{'charge' if charge else 'discharge'} steps are interpolated along {show(ax) if ax is not None else 'the default axis'}", e.where())
        rg = b(e, "field_range")
        ok = rg is not None and any(mk("param", "given_v_range") is x for x in leaves(rg))
        c.ob("reaches", lab + ": v_range", ok, f"the range interpolated over never is the given v_range", e.where())
        if rg is not None:
            # the given range is used for the voltage axis
            for gs, x in guarded_alts(rg, e.guards):
                if mk("param", "given_v_range") in leaves(x):
                    other = [g for g, p in gs if p and g.op == "cmp" and g.args[0] == "==" and (ax is None or g.args[1] is ax or g.args[1] in leaves(ax)) and g.args[2].op == "const" and g.args[2].args[0] != "voltage"]
                    c.ob("reaches", lab + ": v_range on voltage", not other, f"the voltage range is used on the axis {show(other[0].args[2]) if other else ''}", e.where())
        # exclude_cycles
        df = b(e, "dataframe")
        dep = excluded(e, evs)
        if dep is None:
            c.notes.append(f"{k.name}: cannot tell how exclude_cycles is applied")
        else:
            c.ob("reaches", lab + ": exclude_cycles", dep, "excluded cycles are not left out", e.where())
    for want in ("charge_axis", "discharge_axis"):
        if want not in seen:
            c.notes.append(f"{k.name}: no interpolation recognised for {want}")
    for e in dia:
        r = b(e, "resolution")
        c.ob("reaches", f"{k.name}:{e.fn.qual}: diagnostic_resolution", r is not None and only(r, G("diagnostic_resolution")), f"diagnostic steps are interpolated to {show(r) if r is not None else 'the default number of'} points", e.where())
    # summary thresholds: charge_capacity >= nominal_capacity * full_fast_charge
    th = []
    for e in evs:
        if "summarize_cycles" not in names(e) or e.kind != "call":
            continue
        for t in list(e.args) + ([e.recv] if e.recv is not None else []) + list((e.kwargs or {}).values()):
            for x in walk(t):
                if x.op == "cmp" and params_in(x) & set(G("nominal_capacity", "full_fast_charge")):
                    th.append((x, e))
    full = [(x, e) for x, e in th if set(G("nominal_capacity", "full_fast_charge")) <= params_in(x)]
    if th or any("summarize_cycles" in names(e) for e in evs):
        c.ob("reaches", f"{k.name}: nominal_capacity and full_fast_charge", bool(full), "the fast-charge threshold does not use both parameters", (th[0][1].where() if th else f.where()))
    swapped = [(x, q) for x, e in full for q in G("nominal_capacity", "full_fast_charge") for w in walk(x) if w.op == "bool" and w.args[0] == "or" and mk("param", q) in w.args[1] or
               w.op == "ite" and w.args[0] is mk("param", q) and w.args[1] is mk("param", q)]
    for x, q in swapped:
        c.ob("reaches", f"{k.name}: {q[6:]} as given", False, f"a given {q[6:]} of zero is replaced by another value", f.where())
    # parameters do not appear anywhere they do not belong
    crossed = {"resolution": "diagnostic_resolution", "diagnostic_resolution": "resolution"}
    sm = [e for e in evs if e.kind == "call" and (e.bound or {}) and "structure" in names(e) and all(n == "structure" or n.startswith("_") for n in names(e))]
    for e in sm:
        for n, v in e.bound.items():
            if not isinstance(v, Node):
                continue
            if v.op == "param" and str(v.args[0]).startswith("given_"):
                p = v.args[0][6:]
                allowed = {"diagnostic_resolution": {"time_resolution", "voltage_resolution", "diagnostic_resolution", "resolution"}}.get(p, {p})
                have = set(e.bound)
                if n in [q[6:] for q in G()] or n in f.params or n in allowed or n in ("time_resolution", "voltage_resolution"):
                    c.ob("reaches", f"{k.name}: {p} as {n}", n in allowed, f"{p} is passed as {n}", e.where())


def charging(e):
    """True when the interpolated step was selected as charging, False when as discharging"""
    df = (e.bound or {}).get("dataframe")
    got = set()
    for x in walk(df) if df is not None else ():
        if x.op == "call" and x.args[0] == STATE:
            kw = dict(x.args[2])
            v = kw.get("chg") or (x.args[1][1] if len(x.args[1]) > 1 else None)
            got.add(cval(v) if v is not None else None)
    return got.pop() if len(got) == 1 else None


def excluded(e, evs):
    """is the cycle loop restricted by exclude_cycles (True/False), None when unknown"""
    px = mk("param", "given_exclude_cycles")
    for x in e.ctx:
        if x[0] == "loop" and len(x) > 2 and isinstance(x[2], Node) and contains(x[2], lambda y: y is px):
            return True
    if any(contains(g, lambda y: y is px) for g, _ in e.guards):
        return True
    df = (e.bound or {}).get("dataframe")
    if df is not None and contains(df, lambda y: y is px):
        return True
    return False


def cleared(c, k):
    K = {"K": mk("class", k.full)}
    mod = c.cls(DP).module.name
    it1, _, (o1, s1, e1) = probe(c, "def _p(K, raw, md):\n    o = K(raw, md)\n    return o\n", K, mod)
    it2, _, (o2, s2, e2) = probe(c, "def _p(K, raw, md):\n    o = K(raw, md)\n    o.structure()\n    return o\n", K, mod)
    it3, _, (o3, s3, e3) = probe(c, "def _p(K, raw, md):\n    o = K(raw, md)\n    o.structure()\n    o.unstructure()\n    return o\n", K, mod)
    f = c.P.find_method(k, "unstructure")
    if o1.op != "new" or o2.op != "new" or o3.op != "new":
        c.notes.append(f"{k.name}: probe of unstructure not resolved")
        return
    stores = {cval(e.key) for e in e2 if e.kind == "store" and e.how == "attr" and e.base is o2 and any(x.name == "structure" for x in e.stack)}
    for a in sorted(x for x in stores if isinstance(x, str)):
        v1, v3 = s1.heap.get(attr(o1, a)), s3.heap.get(attr(o3, a))
        ok = same(v1, it1, s1, v3, it3, s3)
        if ok:
            v4 = anyway(c, k, f, a)
            ok = v4 is None
            v3 = v4 or v3
        c.ob("cleared", f"{k.name}.{a}", ok, f"after unstructure {a} is {show(v3) if v3 is not None else 'missing'}, not {show(v1) if v1 is not None else 'absent'}", f.where())


def anyway(c, k, f, a):
    """what unstructure leaves in attribute a of some object (None when nothing): whatever state the object is in"""
    me = mk("param", "self")
    _, st, evs = c.run(c.interp(types={me: k}), f, self_node=me, cls=k)
    old = attr(me, a)
    v = st.heap.get(old)
    if v is None:
        v = old
    for gs, leaf in guarded_alts(v, ()):
        if leaf is not old:
            continue
        # left as it is: only where it was empty already
        if any((not pol and g is old) or (pol and g.op == "cmp" and g.args[0] in ("is", "==") and old in g.args[1:] and NONE in g.args[1:])
               or (pol and g.op == "not" and g.args[0] is old) or (pol and g.op == "attr" and g.args[1] == "empty" and g.args[0] is old)
               or (pol and g.op == "cmp" and g.args[0] == "not in") or (not pol and g.op == "call" and g.args[0] == "builtins.hasattr") for g, pol in gs):
            continue
        return leaf
    return None


def same(a, ia, sa, b, ib, sb):
    if a is b:
        return True
    if a is None or b is None:
        return a is None and b in (NONE, ABSENT)
    if a.op == "new" and b.op == "new" and a.args[0] == b.args[0]:
        if a.args[0] == "dict":
            x, y = ia.dict_items(a, sa), ib.dict_items(b, sb)
            return x is not None and y is not None and len(x) == len(y) == 0
        return True
    if a.op == "new" and a.args[0] == "dict" and b.op != "new":
        return False
    return False


def inner(c):
    """interpolate_df uses the number of points and the range it is given"""
    try:
        f = c.func(INTERP)
    except AnalysisError:
        c.notes.append("interpolate_df not found")
        return
    it = c.interp()
    res, st, evs = c.run(it, f)
    R, FR, FN = mk("param", "resolution"), mk("param", "field_range"), mk("param", "field_name")
    grids = [e for e in evs if e.kind == "call" and e.target in ("numpy.linspace", "pandas.date_range", "numpy.arange")]
    for e in grids:
        kw = e.kwargs or {}
        if e.target == "numpy.linspace":
            n = kw.get("num") or (e.args[-1] if e.args and (e.args[-1] is R or len(e.args) >= 3 or e.args[0].op == "star") else None)
            c.ob("resolution", "interpolate_df: number of points", n is R, f"the grid has {show(n) if n is not None else 'the default number of'} points", e.where())
            rng = [a for a in list(e.args) + [kw[x] for x in ("start", "stop") if x in kw] if a is not R]
            ok = any(contains(a, lambda x: x is FR) for a in rng)
            c.ob("resolution", "interpolate_df: range", ok, "the grid ignores the range given", e.where())
            ends = [x for x in ("endpoint", "retstep") if x in kw]
            c.ob("resolution", "interpolate_df: end point", kw.get("endpoint") in (None, TRUE), "the end of the range is left out", e.where())
        elif e.target == "pandas.date_range":
            c.ob("resolution", "interpolate_df: dates", kw.get("periods") is R or R in e.args, "the grid ignores the number of points given", e.where())
    if not grids:
        c.notes.append("interpolate_df: no grid recognised")
