"""P15: operations refuse objects in the wrong state."""
from .probe import *
from .preds import consistent

EXPLANATION = ("Typestate analysis with client probes: for every run, featurizer, feature-matrix and model class, a short client that brings an object into a state by "
               "public operations (loaded from a legacy file, loaded but not structured, restructured away, not featurized, not trained) and then uses the operation "
               "under test is analysed with all callees and decorators inlined; every path must end in a raise before anything is returned, written or changed. "
               "Conversely the operations that make results available are checked to set them, and to set them only once nothing can fail any more.")

DP = "beep.structure.base.BEEPDatapath"
FZ = "beep.features.base.BEEPFeaturizer"
FM = "beep.features.base.BEEPFeatureMatrix"
EXP = "beep.model.BEEPLinearModelExperiment"

LEGACY = '''
def _p(K, b, p, ch, s, ci, fn):
    d = {"barcode": b, "protocol": p, "channel_id": ch, "summary": s, "cycles_interpolated": ci}
    o = K.from_dict(d)
    return o.%s
'''
FRESH = '''
def _p(K, raw, fn):
    o = K(raw)
    return o.%s
'''
CLEARED = '''
def _p(K, raw, fn):
    o = K(raw)
    o.structure()
    o.unstructure()
    return o.%s
'''
FEAT_INIT = '''
def _p(K, F, raw, h):
    o = K(raw)
    return F(o)
'''
FEAT_SAVE = '''
def _p(F, dp, fn):
    f = F(dp)
    return f.%s
'''
FEAT_JOIN = '''
def _p(F, M):
    f = F(None)
    return M([f])
'''
MODEL = '''
def _p(E, x, y, t, n, fn):
    e = E(x, y, t, n)
    return e.%s
'''
MATRIX = '''
def _p(M, f, fn):
    m = M(f)
    m.matrix = None
    return m.%s
'''


def refused(c, rule, label, src, params, where, mod):
    it, f, (res, st, evs) = probe(c, src, params, mod)
    wr = effects_of(evs)
    # None.method() fails as well
    nd = [e.idx for e in evs if rule == "no-features" and e.kind == "call" and e.recv is NONE and not e.guards and not in_try(e)]
    if src is FEAT_JOIN:      # the loop over the one featurizer given is entered
        nd += [e.idx for e in evs if e.kind == "raise" and not in_try(e) and all(p and g.op not in ("call", "meth", "cmp", "bool", "param", "not") and not contains(g, lambda x: x.op == "param") for g, p in e.guards)]
    ok = res.op == "never" or bool(nd)
    wr = [e for e in wr if not nd or e.idx < nd[0]]
    c.ob(rule, label, ok, "the operation goes through", where)
    if ok:
        c.ob(rule, label + " (no output)", not wr, f"{wr[0].target if wr else ''} happens before the refusal", wr[0].where() if wr else where)
    return ok


def in_try(e):
    return any(x[0] == "try" for x in e.ctx)


def short(call):
    return call.split("(")[0]


def check(c):
    c.rule("legacy", "a run loaded from a legacy file refuses validation, structuring and saving")
    c.rule("unstructured", "cycle-life queries refuse a run that is not structured")
    c.rule("unstructured-run", "featurizers refuse a run that is not structured")
    c.rule("no-features", "a featurizer without features refuses to be saved")
    c.rule("untrained", "an untrained experiment refuses to predict and to be saved")
    c.rule("available", "a successful operation leaves its results available on every path")
    c.rule("accepted", "the operation is not refused in the state it needs")
    c.rule("commit-last", "results become visible on the object only after everything that can fail")
    base = c.cls(DP)
    runs = [base] + sorted(c.P.subclasses(base), key=lambda s: s.full)
    for k in runs:
        K = {"K": mk("class", k.full)}
        for call in ("validate()", "structure()", "unstructure()", "as_dict()", "to_json_file(fn)"):
            n = short(call)
            f = c.P.find_method(k, n)
            if f is None:
                c.notes.append(f"{k.name}.{n} not found")
                continue
            refused(c, "legacy", f"{k.name}.{n}", LEGACY % call, K, f.where(), base.module.name)
        for call in ("get_cycle_life()", "cycles_to_capacities()", "capacities_to_cycles()"):
            n = short(call)
            f = c.P.find_method(k, n)
            if f is None:
                c.notes.append(f"{k.name}.{n} not found")
                continue
            refused(c, "unstructured", f"{k.name}.{n}", FRESH % call, K, f.where(), base.module.name)
            refused(c, "unstructured", f"{k.name}.{n} after unstructure", CLEARED % call, K, f.where(), base.module.name)
        # loading a current file / not refusing
        for call in ("validate()", "as_dict()", "structure()", "unstructure()"):
            n = short(call)
            f = c.P.find_method(k, n)
            if f:
                it, _, (res, st, evs) = probe(c, FRESH % call, K, base.module.name)
                c.ob("accepted", f"{k.name}.{n}", res.op != "never", "the operation is refused on every run", f.where())
    me = mk("param", "self")
    for k in runs:
        f = c.P.find_method(k, "structure")
        it = c.interp(types={me: k})
        res, st, evs = c.run(it, f, self_node=me, cls=k)
        tables = ["structured_data", "structured_summary"]
        for a in tables:
            v = st.heap.get(attr(me, a))
            c.ob("available", f"{k.name}.{a}", v is not None and all(x is not NONE for _, x in guarded_alts(v)), "structuring can end without it", f.where())
        last(c, f"{k.name}.structure", me, tables + ["diagnostic_data", "diagnostic_summary"], evs)
    fz = c.cls(FZ)
    for k in sorted(c.P.subclasses(fz), key=lambda s: s.full):
        if c.P.subclasses(k):
            continue
        init = c.P.find_method(k, "__init__")
        mod = fz.module.name
        refused(c, "unstructured-run", k.name, FEAT_INIT, {"F": mk("class", k.full), "K": mk("class", DP)}, init.where(), mod)
        for call in ("as_dict()", "to_json_file(fn)"):
            f = c.P.find_method(k, short(call))
            if f:
                refused(c, "no-features", f"{k.name}.{short(call)}", FEAT_SAVE % call, {"F": mk("class", k.full)}, f.where(), mod)
        refused(c, "no-features", f"BEEPFeatureMatrix of {k.name}", FEAT_JOIN, {"F": mk("class", k.full), "M": mk("class", FM)}, c.func(FM + ".__init__").where(), mod)
        f = c.P.find_method(k, "create_features")
        it = c.interp(types={me: k})
        res, st, evs = c.run(it, f, self_node=me, cls=k)
        v = st.heap.get(attr(me, "features"))
        c.ob("available", f"{k.name}.features", v is not None and all(x is not NONE for _, x in guarded_alts(v)), "featurizing can end without features", f.where())
        last(c, f"{k.name}.create_features", me, ["features"], evs)
    ex = c.cls(EXP)
    E = {"E": mk("class", ex.full)}
    for call in ("predict(x)", "as_dict()", "to_json_file(fn)"):
        f = c.P.find_method(ex, short(call))
        if f:
            refused(c, "untrained", f"{ex.name}.{short(call)}", MODEL % call, E, f.where(), ex.module.name)
    for n in ("train", "train_and_score"):
        f = c.P.find_method(ex, n)
        if f is None:
            continue
        it = c.interp(types={me: ex})
        res, st, evs = c.run(it, f, self_node=me, cls=ex)
        v = st.heap.get(attr(me, "model"))
        c.ob("available", f"{ex.name}.{n}", v is not None and all(x is not NONE for _, x in guarded_alts(v)), "training can end without a model", f.where())
        stores = [e for e in evs if e.kind == "store" and e.how == "attr" and e.base is me and cval(e.key) == "model"]
        for s in stores:
            vals = set(x for _, x in guarded_alts(s.value)) | {s.value}
            fit = [e for e in evs if e.kind == "call" and e.target.split(".")[-1] == "fit" and e.recv is not None and (e.recv in vals or set(x for _, x in guarded_alts(e.recv)) & vals)]
            late = [e for e in fit if e.idx > s.idx]
            c.ob("commit-last", f"{ex.name}.{n}", not late, "the model becomes visible before it is fitted", s.where())
    # matrix
    fm = c.cls(FM)
    for call in ("as_dict()", "to_json_file(fn)"):
        f = c.P.find_method(fm, short(call))
        if f:
            refused(c, "no-features", f"{fm.name}.{short(call)}", MATRIX % call, {"M": mk("class", fm.full)}, f.where(), fm.module.name)
    c.need("legacy", 20)
    c.need("unstructured", 20)
    c.need("unstructured-run", 8)
    c.need("no-features", 16)


SAFE = {"debug", "info", "warning", "warn", "dict", "list", "tuple", "isinstance", "len", "str", "copy", "deepcopy", "bool", "set", "type", "repr", "update", "items", "keys", "format"}


def last(c, label, me, attrs, evs):
    st = [e for e in evs if e.kind == "store" and e.how == "attr" and e.base is me and cval(e.key) in attrs]
    if not st:
        raise AnalysisError(f"{label} stores none of {attrs}")
    for s in st:
        mine = {attr(me, a) for a in attrs} | {x for _, x in guarded_alts(s.value)} | {s.value}
        bad = None
        for e in evs:
            if e.idx <= s.idx or not consistent(tuple(s.guards) + tuple(e.guards)):
                continue
            if e.kind == "raise":
                bad = e
            elif e.kind == "call" and e.target.split(".")[-1] not in SAFE and not e.target.startswith("logging"):
                r = e.recv if e.recv is not None else (e.args[0] if e.args else None)
                if r is not None and any(m is x for x in walk(r) for m in mine):
                    continue
                bad = e
            if bad:
                break
        c.ob("commit-last", label, bad is None, f"{show(s.base)}.{cval(s.key)} is set before {bad.target if bad is not None and bad.kind == 'call' else 'an error that can still be raised'} at {bad.where() if bad is not None else ''}", s.where())
