from .common import *
from .tables import rows, given, columns, vwalk
from vfa.effects import roots

EXPLANATION = ("Information-flow analysis of train_and_score and of the data splitter: values are labelled by the part (training or test) and the kind (features or "
               "targets) of the split they come from; every fit, scoring and dataset construction is checked against the labels of its operands, and the "
               "tables that are split are checked for statistics computed over all samples and for row alignment of features and targets.")

FIT = {"fit", "fit_transform", "partial_fit", "fit_predict"}
STATS = {"median", "mean", "mode", "std", "var", "min", "max", "quantile", "sum"}
SPLIT_FN = "train_test_split"


def strip_given(n):
    """replace 'x if x is not None else whole' by x for split results"""
    memo = {}

    def rec(x):
        if not isinstance(x, Node):
            return tuple(rec(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        r = mk(x.op, *[rec(a) for a in x.args])
        if r.op == "sub" and r.args[0].op == "sub" and r.args[1].op == "const" and r.args[0].args[1].op == "slice" and r.args[0].args[0].op == "call" and r.args[0].args[0].args[0].endswith(SPLIT_FN):
            call, sl = r.args[0].args
            try:
                r = mk("sub", call, const(range(2 * len(call.args[1]))[slice(*(y.args[0] for y in sl.args))][r.args[1].args[0]]))
            except Exception:
                pass
        if r.op == "ite" and r.args[0].op == "cmp" and r.args[0].args[0] == "is" and r.args[0].args[2] is NONE and is_part(r.args[0].args[1]):
            r = r.args[2]
        memo[x] = r
        return r
    return rec(n)


def is_part(n):
    return n.op == "sub" and n.args[0].op == "call" and n.args[0].args[0].endswith(SPLIT_FN) and n.args[1].op == "const"


def label(n):
    """(part, position of the split table) of a train_test_split result"""
    i = n.args[1].args[0]
    m = 2 * len(n.args[0].args[1])
    if i < 0:
        i += m
    return ("train" if i % 2 == 0 else "test", n.args[0].args[1][i // 2])


def parts(n):
    return {label(x) for x in walk(n) if is_part(x)}


def check(c):
    c.rule("fit-on-train-only", "every fit during train_and_score sees only the training part, features with features and targets with targets")
    c.rule("scored-on-test", "the reported test errors compare the test targets with predictions for the test features")
    c.rule("scaler-refit", "the scaling applied to the test part was learned from the training part")
    c.rule("no-statistics-before-split", "the tables that are split carry no statistic computed over all samples")
    c.rule("aligned", "features and targets that are split have the same samples in the same order")
    c.rule("dataset-parts", "each dataset's train and test tables come from the two disjoint sides of the same fold, features and targets of the same samples")
    c.rule("groups-split-whole", "with grouping columns the folds are drawn over groups, not samples")
    me = mk("param", "self")
    P = c.P
    k = c.cls("beep.model.BEEPLinearModelExperiment")
    f = P.find_method(k, "train_and_score")
    init = P.find_method(k, "__init__")
    if f is None or init is None:
        raise AnalysisError("train_and_score not found")
    it = c.interp(types={me: k})
    res, st, evs = c.run(it, f, self_node=me, cls=k)
    itn = c.interp(types={me: k})
    _, sti, evi = c.run(itn, init, self_node=me, cls=k)
    flow(c, k, me, evs, res)
    source(c, k, me, sti, evi, evs, "BEEPLinearModelExperiment")
    ks = c.cls("beep.prediction.beep_data_splitter.BEEPDataSplitter")
    fs, ins = P.find_method(ks, "split"), P.find_method(ks, "__init__")
    if fs is not None:
        it = c.interp(types={me: ks})
        _, _, es = c.run(it, fs, self_node=me, cls=ks)
        datasets(c, ks, me, es)
        itn = c.interp(types={me: ks})
        _, sti, evi = c.run(itn, ins, self_node=me, cls=ks)
        source(c, ks, me, sti, evi, es, "BEEPDataSplitter")
    same_column(c, k)
    c.need("fit-on-train-only", 2)
    c.need("dataset-parts", 4)


def flow(c, k, me, evs, res):
    split = [e for e in evs if e.kind == "call" and isinstance(e.target, str) and e.target.endswith(SPLIT_FN)]
    feats, targs = attr(me, "X"), attr(me, "y")
    if not split:
        # another way of splitting: only the coarse rule can be decided
        c.notes.append("train_and_score does not use train_test_split")
    seen_scaler = False
    for e in evs:
        if e.kind != "call" or e.recv is None:
            continue
        args = [strip_given(a) for a in e.args] + [strip_given(v) for v in e.kwargs.values()]
        recv = strip_given(e.recv)
        if e.target in FIT and not refitted(evs, e):
            for a in args:
                ps = parts(a)
                # the split term itself contains the whole tables; look outside of split results
                whole = outside(a, (feats, targs))
                bad = None
                if any(p == "test" for p, _ in ps):
                    bad = "the test part"
                elif whole and split:
                    bad = f"all samples ({show(whole)})"
                c.ob("fit-on-train-only", f"{k.name}.train_and_score:{what(recv)}.{e.target}", not bad, f"{what(recv)}.{e.target} is given {bad}", e.where())
            if len(args) >= 2 and split:
                l0, l1 = parts(args[0]), parts(args[1])
                if len(l0) == 1 and len(l1) == 1:
                    (p0, t0), (p1, t1) = next(iter(l0)), next(iter(l1))
                    c.ob("fit-on-train-only", f"{k.name}.train_and_score:{what(recv)}.{e.target} operands", p0 == p1 and t0 is feats and t1 is targs,
                         f"fit pairs {p0} {show(t0)} with {p1} {show(t1)}", e.where())
            if recv is attr(me, "scaler") and not any(p == "test" for a in args for p, _ in parts(a)) and any(p == "train" for a in args for p, _ in parts(a)):
                seen_scaler = True
        if e.target in ("transform",) and split and any(p == "test" for a in args for p, _ in parts(a)):
            ok = seen_scaler if recv is attr(me, "scaler") else not any(x in (feats, targs) for x in walk(recv)) or parts(recv) and all(p == "train" for p, _ in parts(recv))
            c.ob("scaler-refit", f"{k.name}.train_and_score:{what(recv)}.transform", bool(ok), "the test part is scaled with a scaler that was not fitted on the training part", e.where())
    # scoring: metric(y, y_pred) calls that involve the test part
    n = 0
    for e in evs:
        if e.kind == "call" and e.recv is None and isinstance(e.target, str) and (e.target.endswith("_score_arrays") or e.target.startswith("sklearn.metrics.")) and e.args:
            a = [strip_given(x) for x in (e.bound or {}).values()] if e.bound else [strip_given(x) for x in e.args]
            a = [x for x in a if parts(x)]
            if len(a) != 2:
                continue
            truth_, pred = None, None
            for x in a:
                if any(y.op == "meth" and y.args[1] == "predict" for y in walk(x)):
                    pred = x
                else:
                    truth_ = x
            if truth_ is None or pred is None:
                continue
            lt = {(p, t) for p, t in parts(truth_)}
            lp = {p for p, t in last_predict(pred)}
            n += 1
            if any(p == "test" for p, _ in lt) or "test" in lp:
                ok = lt == {("test", targs)} and lp == {"test"}
            else:
                ok = {t for _, t in lt} == {targs}
            c.ob("scored-on-test", f"{k.name}.train_and_score:{e.target.split('.')[-1]}:{'/'.join(sorted(lp))}", ok,
                 f"scoring compares {sorted((p, show(t)) for p, t in lt)} with predictions for {sorted(lp)}", e.where())


def same_column(c, k):
    """a metric is given the same target of the true and of the predicted values"""
    me = mk("param", "self")
    for f in k.methods.values():
        ps = [p for p in f.params if p != "self"]
        if not {"y", "y_pred"} <= set(ps) and not f.name.startswith("_score"):
            continue
        it = c.interp(types={me: k})
        res, st, evs = c.run(it, f, self_node=me, cls=k)
        for e in evs:
            if e.kind != "call":
                continue
            a = list(e.args or ())
            if len(a) == 1 and a[0].op in ("tuple", "list"):
                a = list(a[0].args)
            if len(a) != 2 or any(not (x.op == "sub" and x.args[0].op == "param" and x.args[0].args[0] in ps) for x in a) or a[0].args[0] is a[1].args[0]:
                continue
            c.ob("scored-on-test", f"{k.name}.{f.name}:columns", a[0].args[1] is a[1].args[1], f"{show(a[0], 4)} is compared with {show(a[1], 4)}", e.where())


def refitted(evs, e):
    """the next use of the same estimator is another full fit: this one has no effect"""
    for x in evs:
        if x.idx > e.idx and x.kind == "call" and x.recv is e.recv and x.target in FIT | {"transform", "predict", "inverse_transform"}:
            return x.target in ("fit", "fit_transform") and all(g in e.guards for g in x.guards)
    return False


def last_predict(n):
    for y in walk(n):
        if y.op == "meth" and y.args[1] == "predict" and y.args[2]:
            x = y.args[2][0]
            return parts(x.args[2][0]) if x.op == "meth" and x.args[1] == "transform" and x.args[2] else parts(x)
    return set()


def outside(n, whole):
    """an occurrence of the whole table that is not inside a split result"""
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.uid in seen or is_part(x):
            continue
        seen.add(x.uid)
        if x in whole:
            return x
        if x.op == "meth" and x.args[1] in ("fit", "fit_transform"):
            continue            # its own obligation
        st.extend(x.kids())
    return None


def what(n):
    if n.op == "attr":
        return n.args[1]
    for x in alts(n):
        if x.op == "call":
            s = x.args[0].split(".")[-1]
            return "cross-validation" if s.endswith("CV") else "model"
    return n.op


def source(c, k, me, sti, evi, evs, name):
    X, y = sti.heap.get(attr(me, "X")), sti.heap.get(attr(me, "y"))
    if X is None or y is None:
        return
    # statistics over all samples that end up in the tables
    for lab, t in (("X", X), ("y", y)):
        found = set()
        for n in vwalk(t):
            if n.op == "meth" and n.args[1] in ("fillna", "apply", "replace", "interpolate", "sub", "div"):
                for x in [y2 for z in list(n.args[2]) + [v for _, v in n.args[3]] for y2 in walk(z)]:
                    if x.op == "meth" and x.args[1] in STATS and not x.args[2]:
                        found.add("imputation" if n.args[1] in ("fillna", "apply") and contains(n, lambda q: q.op == "meth" and q.args[1] == "fillna") else "scaling")
            if n.op == "meth" and n.args[1] in ("fit_transform", "transform") or n.op == "call" and n.args[0].split(".")[-1] in ("scale", "normalize", "minmax_scale", "robust_scale"):
                found.add("scaling")
            if n.op == "bin" and n.args[0] in ("-", "/") and any(x.op == "meth" and x.args[1] in STATS for x in alts(n.args[2])):
                found.add("scaling")
        for w in sorted(found):
            c.ob("no-statistics-before-split", f"{name}.{lab}:{w}", False, f"{name}.__init__ applies {w} computed over all samples to {lab}, which is split into training and test parts afterwards")
        c.ob("no-statistics-before-split", f"{name}.{lab}", True)
    ra, rb = rows(X), rows(y)
    c.ob("aligned", name, ra is rb or unknown_rows(ra) or unknown_rows(rb), f"{name}: X has the samples of {show(ra, 5)[:200]} and y those of {show(rb, 5)[:200]}")


def unknown_rows(n):
    return any(x.op in ("mu", "top", "elem", "apply") for x in alts(n))


def fold(n):
    """(side, what was split) for the fold indices in a term; complements change sides"""
    out, seen = set(), set()
    st = [(n, True)]
    while st:
        x, pos = st.pop()
        if (x.uid, pos) in seen:
            continue
        seen.add((x.uid, pos))
        if x.op == "sub" and x.args[1].op == "const" and x.args[1].args[0] in (0, 1) and x.args[0].op == "elem":
            s = x.args[0].args[0]
            if s.op == "meth" and s.args[1] == "split":
                out.add(("train" if (x.args[1].args[0] == 0) == pos else "test", s))
                continue
        if x.op == "not" or x.op == "un" and x.args[0] == "~":
            st.append((x.args[-1], not pos))
        elif x.op == "meth" and x.args[1] in ("difference", "drop", "symmetric_difference"):
            st.append((x.args[0], pos))
            st += [(y, not pos) for z in list(x.args[2]) + [v for _, v in x.args[3]] for y in [z]]
        elif x.op == "call" and x.args[0] in ("numpy.setdiff1d", "numpy.delete"):
            st.append((x.args[1][0], pos))
            st += [(y, not pos) for y in x.args[1][1:]]
        elif x.op == "bin" and x.args[0] == "-":
            st += [(x.args[1], pos), (x.args[2], not pos)]
        else:
            st += [(y, pos) for y in x.kids()]
    return out


def datasets(c, k, me, evs):
    feats, targs = attr(me, "X"), attr(me, "y")
    for e in evs:
        if e.kind != "call":
            continue
        if e.recv is not None and e.target == "split" and e.args and any(x.op == "call" and "model_selection" in x.args[0] for x in alts(e.recv)):
            grouped = [(g, p) for g, p in e.guards if g.op == "cmp" and g.args[1] is attr(me, "split_columns")]
            if grouped and grouped[0][1] is False:
                src = e.args[0]
                gk = any("Group" in x.args[0] for x in alts(e.recv) if x.op == "call") and (len(e.args) > 2 or "groups" in e.kwargs)
                uniq = contains(src, lambda x: x.op == "meth" and x.args[1] in ("unique", "drop_duplicates", "keys", "groups") or x.op == "call" and x.args[0].split(".")[-1] in ("unique", "set") or x.op == "attr" and x.args[1] in ("groups", "categories", "index") and not x.args[0] is feats)
                rowsrc = src in (feats, targs) or src.op == "sub" and src.args[0] in (feats, targs) or src.op == "attr" and src.args[0] in (feats, targs)
                c.ob("groups-split-whole", f"{k.name}.split", bool(gk or uniq or not rowsrc), f"with grouping columns the folds are drawn over {show(src)}: samples of one group land in both parts", e.where())
            elif grouped:
                c.ob("groups-split-whole", f"{k.name}.split ungrouped", True)
        if isinstance(e.target, str) and e.target.endswith(".BEEPDataset") and e.recv is None:
            kw = dict(e.kwargs)
            names = ["train_X", "train_y", "test_X", "test_y"]
            for i, a in enumerate(e.args):
                kw[names[i]] = a
            for nme in names:
                if nme not in kw:
                    continue
                v = kw[nme]
                part, kind = nme.split("_")
                fs = fold(v)
                sides = {s for s, _ in fs}
                if not fs and any(fold(x) for x in kw.values()) and table_roots(v, (feats, targs)):
                    c.ob("dataset-parts", f"{k.name}.split:{nme} part", False, f"{nme} is not restricted to one side of the fold", e.where())
                if fs:
                    c.ob("dataset-parts", f"{k.name}.split:{nme} part", sides == {part}, f"{nme} takes its samples from the {'/'.join(sorted(sides))} side of the fold", e.where())
                tabs = table_roots(v, (feats, targs))
                if tabs:
                    want = feats if kind == "X" else targs
                    c.ob("dataset-parts", f"{k.name}.split:{nme} table", tabs == {want}, f"{nme} takes its values from {', '.join(sorted(show(t) for t in tabs))}", e.where())
                if kind == "X":
                    for s in columns(v):
                        if s[0] in ("root",) or s[0] == "sel" and s[1] is not attr(me, "feature_labels") and not (s[1].op == "comp"):
                            c.ob("dataset-parts", f"{k.name}.split:{nme} columns", s[0] == "sel" and s[1].op not in ("bin",) and contains(s[1], attr(me, "feature_labels")),
                                 f"{nme} has columns {show(s[1])} instead of the features", e.where())
            for part in ("train", "test"):
                a, b = kw.get(part + "_X"), kw.get(part + "_y")
                if a is None or b is None:
                    continue
                ra, rb = rows(a), rows(b)
                ok = ra is rb
                if not ok and ra.op == "rowpick" and rb.op == "rowpick":
                    ok = ra.args[1] is rb.args[1]
                if not ok and {s for s, _ in fold(ra)} == {part} == {s for s, _ in fold(rb)}:
                    ok = True
                c.ob("dataset-parts", f"{k.name}.split:{part} rows", ok or not (fold(ra) or fold(rb)), f"{part} features and targets are picked by different rows", e.where())


def table_roots(n, tabs):
    """the tables a selection takes its values from (not those only used to choose rows)"""
    cur = [n]
    out = set()
    seen = set()
    while cur:
        x = cur.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x in tabs:
            out.add(x)
        elif x.op == "sub":
            cur.append(x.args[0])
        elif x.op == "attr" and x.args[1] in ("loc", "iloc", "values"):
            cur.append(x.args[0])
        elif x.op == "meth":
            cur.append(x.args[0])
        elif x.op in ("ite",):
            cur += list(x.args[1:])
        elif x.op == "phi":
            cur += list(x.args)
        elif x.op == "call" and x.args[1]:
            cur.append(x.args[1][0])
    return out
