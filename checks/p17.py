from .common import *
from .tables import rows, columns, axis_of, given, is_index, rows_of_index

EXPLANATION = ("Value-provenance analysis of training and prediction: the table a model predicts from is traced back through scaling, imputation and row "
               "selection to the selection of the trained feature labels; output labels, output index, the list of left-out samples and each cleaning "
               "threshold are checked against the quantity they must be built from; the model and scaler used are the ones training stored.")

SORTERS = ("builtins.sorted", "builtins.set", "numpy.sort", "numpy.unique", "builtins.reversed")


def check(c):
    c.rule("features", "the model predicts from exactly the trained features in training order")
    c.rule("scaling", "predictions use the scaling and the model that training stored")
    c.rule("labels", "outputs are labelled with the targets in training order")
    c.rule("samples", "each output carries the index of its own sample")
    c.rule("left-out", "the samples reported as left out are exactly the input samples that were not predicted")
    c.rule("missing", "missing features are never filled in")
    c.rule("thresholds", "each nan threshold drops what it documents, relative to the right dimension")
    c.rule("training", "training fits features against the targets, and records the labels of the table it trained on")
    P = c.P
    me = mk("param", "self")
    k = c.cls("beep.model.BEEPLinearModelExperiment")
    pf, tf, inf = (P.find_method(k, n) for n in ("predict", "train", "__init__"))
    if pf is None or tf is None or inf is None:
        raise AnalysisError("predict/train not found")
    it = c.interp(types={me: k})
    res, st, evs = c.run(it, pf, self_node=me, cls=k)
    predict(c, k, me, it, res, st, evs)
    it = c.interp(types={me: k})
    _, st, evs = c.run(it, tf, self_node=me, cls=k)
    train(c, k, me, st, evs)
    it = c.interp(types={me: k})
    _, st, evi = c.run(it, inf, self_node=me, cls=k)
    init(c, k, me, st, evi)
    thresholds(c, k, me, inf, evi, st, P.find_method(k, "predict"), evs=c.run(c.interp(types={me: k}), pf, self_node=me, cls=k)[2])
    ks = c.cls("beep.prediction.beep_data_splitter.BEEPDataSplitter")
    f = P.find_method(ks, "__init__")
    it = c.interp(types={me: ks})
    _, st, evi = c.run(it, f, self_node=me, cls=ks)
    thresholds(c, ks, me, f, evi, st, None, [])
    X, fl = st.heap.get(attr(me, "X")), st.heap.get(attr(me, "feature_labels"))
    c.need("features", 1)
    c.need("labels", 1)
    c.need("thresholds", 4)


def reorder(n):
    return [x for x in walk(n) if x.op == "call" and x.args[0] in SORTERS or x.op == "meth" and x.args[1] in ("sort", "sort_values", "sort_index", "intersection", "union") or x.op == "comp"]


def predict(c, k, me, it, res, st, evs):
    FL, TG = attr(me, "feature_labels"), attr(me, "targets")
    model, scaler = attr(me, "model"), attr(me, "scaler")
    calls = [e for e in evs if e.kind == "call" and e.recv is not None and e.target == "predict"]
    final = []
    for e in calls:
        c.ob("scaling", f"{k.name}.predict:model", all(x is model or x.op not in ("attr", "new", "call") for x in alts(e.recv)), f"predictions come from {show(e.recv)}, not from the trained model", e.where())
        if not e.args:
            continue
        T = e.args[0]
        final.append((e, T))
        leaves = alts(T)
        for t in leaves:
            if t.op == "meth" and t.args[1] in ("transform", "fit_transform"):
                c.ob("scaling", f"{k.name}.predict:scaler", t.args[1] == "transform" and (t.args[0] is scaler or t.args[0].op not in ("attr", "new", "call", "meth")),
                     f"the features are scaled by {show(t.args[0])}.{t.args[1]}, not by the scaling learned in training", e.where())
                Z = t.args[2][0] if t.args[2] else None
            else:
                cols = columns(t)
                if any(x[0] in ("sel", "root") for x in cols):
                    c.ob("scaling", f"{k.name}.predict:scaler", False, "the model predicts from unscaled features", e.where())
                Z = t
            if Z is None:
                continue
            for s in columns(Z):
                if s[0] == "?":
                    continue
                if s[0] in ("sel", "reindex"):
                    key = s[1]
                    ok = key is FL or key.op not in ("call", "comp", "meth", "list", "attr", "bin")
                    if key.op == "call" and key.args[0] in ("builtins.list", "builtins.tuple") and key.args[1] and key.args[1][0] is FL:
                        ok = True
                    if key.op == "comp" and same_order(key, FL):
                        ok = True
                    if key.op == "meth" and key.args[1] in ("copy", "tolist") and key.args[0] is FL:
                        ok = True
                    c.ob("features", f"{k.name}.predict:selection", ok, f"the features are selected by {show(key)} instead of the trained labels in training order", e.where())
                elif s[0] in ("root", "drop", "filter"):
                    c.ob("features", f"{k.name}.predict:selection", False, f"the columns of {show(s[1])} are used as they come, not in training order", e.where())
                if s[0] == "reindex":
                    c.ob("missing", f"{k.name}.predict:reindex", refused(evs, e, FL), "features missing from the input are filled in by reindexing", e.where())
    # stores of missing features
    for e in evs:
        if e.kind == "store" and e.how == "sub" and (contains(e.key, FL)):
            c.ob("missing", f"{k.name}.predict:store", False, f"column {show(e.key)} is filled in before predicting", e.where())
        if e.kind == "call" and e.target in ("add", "union") and False:
            pass
    c.ob("missing", f"{k.name}.predict", True)
    # result
    outs = guarded_alts(res)
    for g, r in outs:
        if r.op != "tuple" or len(r.args) != 2:
            continue
        frame, dropped = r.args
        for fr in alts(frame):
            if fr.op == "call" and fr.args[0] == "pandas.DataFrame":
                kw = dict(fr.args[2])
                names = ["data", "index", "columns"]
                for i, a in enumerate(fr.args[1][:3]):
                    kw[names[i]] = a
                cl = kw.get("columns")
                c.ob("labels", f"{k.name}.predict", cl is not None and (cl is TG or all(x is TG or x.op not in ("call", "meth", "list", "comp", "attr") for x in alts(cl)) or listlike(cl, TG)),
                     f"the outputs are labelled {show(cl) if cl is not None else 'by position'}, not with the targets in training order")
                ix = kw.get("index")
                data = kw.get("data")
                for e, T in final:
                    if data is not None and (e.result is data or contains(data, e.result)):
                        want = rows(T)
                        if ix is None:
                            c.ob("samples", f"{k.name}.predict", False, "the outputs are not given the index of their samples", e.where())
                        elif is_index(ix):
                            have = rows_of_index(ix)
                            c.ob("samples", f"{k.name}.predict", have is want, f"the outputs carry the index of {show(have, 6)[:150]} but were predicted from {show(want, 6)[:150]}", e.where())
                        leftout(c, k, me, dropped, want, it, st)
            elif fr.op == "meth" and fr.args[1] == "predict":
                c.ob("labels", f"{k.name}.predict", False, "the outputs are returned without labels")


def listlike(n, t):
    return n.op == "call" and n.args[0] in ("builtins.list", "builtins.tuple", "pandas.Index") and n.args[1] and n.args[1][0] is t or n.op == "meth" and n.args[1] == "copy" and n.args[0] is t


def same_order(comp, FL):
    """[f for f in feature_labels if ...] keeps the training order (a filter drops features, which only matters if one is missing)"""
    return comp.args[0] == "list" and len(comp.args[3]) == 1 and comp.args[3][0] is FL and all(v.op == "elem" and v.args[0] is FL for v in comp.args[1]) and not comp.args[2]


def refused(evs, call, FL):
    for e in evs:
        if e.kind == "raise" and e.idx < call.idx:
            for g, p in e.guards:
                if contains(g, FL) and contains(g, lambda x: x.op == "attr" and x.args[1] == "columns") and (g, not p) in call.guards and (g.op in ("comp", "bin", "meth") or g.op == "cmp" and any(cval(x) == 0 for x in g.args[1:])):
                    return True
    return False


def leftout(c, k, me, dropped, predicted, it, st):
    for d in alts(dropped):
        if d.op == "comp":
            src = d.args[3]
            conds = d.args[2]
            if len(src) != 1:
                continue
            ok, why = True, ""
            if is_index(src[0]):
                r = rows_of_index(src[0])
                if contains(r, lambda x: x.op == "meth" and x.args[1] == "dropna" and axis_of(x) == 0):
                    ok, why = False, f"only samples of {show(r, 4)[:100]} are considered"
            neg_ = [x for x in conds if x.op == "not" and x.args[0].op == "cmp" and x.args[0].args[0] == "in"]
            pos_ = [x for x in conds if x.op == "cmp" and x.args[0] == "in"]
            if pos_ and not neg_:
                ok, why = False, "it lists the samples that were predicted"
            for x in neg_:
                tgt = x.args[0].args[2]
                if is_index(tgt):
                    r = rows_of_index(tgt)
                    if r is not predicted:
                        ok, why = False, f"membership is tested in {show(r, 4)[:100]}, not in the predicted samples"
            if not conds:
                ok, why = False, "it lists every sample"
            if len(conds) > 1 and neg_:
                ok, why = False, f"it leaves out samples failing {', '.join(show(x, 5) for x in conds if x not in neg_)}"
            c.ob("left-out", f"{k.name}.predict", ok, f"the reported left-out samples are wrong: {why}")
        elif positional(d) is not None:
            c.ob("left-out", f"{k.name}.predict", False, f"the reported left-out samples are picked by position ({show(positional(d), 4)[:100]}), wherever the dropped samples were")
        elif d.op == "new" and d.args[0] == "list" or d.op == "list" and not d.args:
            # an empty report must only be returned when nothing was dropped
            for g, x in guarded_alts(dropped):
                if x is d:
                    c.ob("left-out", f"{k.name}.predict empty", bool(g) or not row_changing(predicted) or dropped.op == "phi", "no sample is ever reported as left out")


def positional(n):
    """the slice of an index that n lists, or None"""
    while True:
        if n.op == "call" and n.args[0] in ("builtins.list", "builtins.tuple", "builtins.sorted") and n.args[1]:
            n = n.args[1][0]
        elif n.op == "meth" and n.args[1] in ("tolist", "to_list", "copy", "to_numpy"):
            n = n.args[0]
        elif n.op == "attr" and n.args[1] == "values":
            n = n.args[0]
        else:
            break
    if n.op == "sub" and n.args[1].op == "slice" and is_index(n.args[0]):
        return n
    if n.op == "attr" and n.args[1] == "index" and n.args[0].op == "sub" and n.args[0].args[0].op == "attr" and n.args[0].args[0].args[1] == "iloc" and n.args[0].args[1].op == "slice":
        return n
    return None


def row_changing(n):
    return contains(n, lambda x: x.op == "meth" and x.args[1] == "dropna")


def train(c, k, me, st, evs):
    TG = attr(me, "targets")
    X, y = mk("param", "X"), mk("param", "y")
    fits = [e for e in evs if e.kind == "call" and e.recv is not None and e.target == "fit" and len(e.args) == 2]
    m = st.heap.get(attr(me, "model"))
    for e in fits:
        a, b = e.args
        lab = "model" if m is not None and e.recv is m else "search"
        fa, fb = table_of(a), table_of(b)
        if fa and fb:
            c.ob("training", f"{k.name}.train:{lab} features", fa <= {X, attr(me, "X")}, f"{lab} is fitted on {', '.join(map(show, fa))} as features", e.where())
            c.ob("training", f"{k.name}.train:{lab} targets", fb <= {y, attr(me, "y")}, f"{lab} is fitted on {', '.join(map(show, fb))} as targets", e.where())
        for t in alts(b):
            if t.op == "sub" and t.args[1].op == "sub" and t.args[1].args[0] is TG:
                c.ob("training", f"{k.name}.train:{lab} target column", cval(t.args[1].args[1]) in (0, -1), f"{lab} is trained on target {show(t.args[1])}", e.where())
        scaled = contains(a, lambda x: x.op == "meth" and x.args[1] in ("fit_transform", "transform"))
        c.ob("scaling", f"{k.name}.train:{lab}", scaled, f"{lab} is fitted on unscaled features although predictions are scaled", e.where())
    if m is not None:
        ok = any(e.recv is m for e in fits)
        c.ob("training", f"{k.name}.train:model", ok or not fits, "the stored model is not the one that was fitted on the features and targets")
    for e in evs:
        if e.kind == "call" and e.recv is not None and e.target in ("fit_transform", "fit") and len(e.args) == 1 and e.recv.op in ("call", "new", "meth"):
            # a scaler that is fitted but not kept
            keep = st.heap.get(attr(me, "scaler"))
            if keep is None or not (keep is e.recv or keep is e.result or contains(keep, e.recv)):
                c.ob("scaling", f"{k.name}.train:kept", False, "training scales with a scaler that is not kept for predictions", e.where())
    c.ob("scaling", f"{k.name}.train:kept", True)


def table_of(n):
    out, seen, stk = set(), set(), [n]
    while stk:
        x = stk.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "param" or x.op == "attr" and x.args[0].op == "param" and x.args[1] in ("X", "y"):
            out.add(x)
        elif x.op == "sub" or x.op == "attr":
            stk.append(x.args[0])
        elif x.op == "meth":
            if x.args[1] in ("transform", "fit_transform") and x.args[2]:
                stk.append(x.args[2][0])
            else:
                stk.append(x.args[0])
        elif x.op == "ite":
            stk += [x.args[1], x.args[2]]
        elif x.op == "phi":
            stk += list(x.args)
    return out


def init(c, k, me, st, evs):
    X, FL = st.heap.get(attr(me, "X")), st.heap.get(attr(me, "feature_labels"))
    y, TG = st.heap.get(attr(me, "y")), st.heap.get(attr(me, "targets"))
    if X is not None and FL is not None:
        for f in alts(FL):
            x = f
            while x.op == "meth" and x.args[1] in ("tolist", "to_list", "copy") or x.op == "call" and x.args[0] in ("builtins.list", "builtins.tuple") and x.args[1]:
                x = x.args[0] if x.op == "meth" else x.args[1][0]
            if x.op == "attr" and x.args[1] == "columns":
                a = {q[:2] for q in map(tuple, columns(x.args[0]))}
                c.ob("training", f"{k.name}: feature labels", colbase(x.args[0]) == colbase(X), "the recorded feature labels are not the columns of the training table")
            elif x.op == "call" and x.args[0] in SORTERS or x.op == "comp" and x.args[2]:
                c.ob("training", f"{k.name}: feature labels", False, f"the recorded feature labels {show(f, 5)[:120]} are not the columns of the training table in their order")
    if y is not None and TG is not None:
        for s in columns(y):
            if s[0] == "sel":
                c.ob("training", f"{k.name}: target columns", s[1] is TG or s[1].op not in ("call", "comp", "list"), f"the training targets are {show(s[1])}, the recorded ones {show(TG)}")
    c.ob("training", f"{k.name}: constructor", True)


def colbase(n, d=0):
    """drop steps that keep columns and their order, down to the step that fixed them"""
    while d < 80:
        d += 1
        if n.op == "sub" and n.args[0].op == "attr" and n.args[0].args[1] in ("loc", "iloc") and n.args[1].op != "tuple":
            n = n.args[0].args[0]
        elif n.op == "meth" and n.args[1] in ("apply", "copy", "replace", "fillna", "astype", "dropna") and not (n.args[1] == "dropna" and axis_of(n) != 0):
            n = n.args[0]
        elif n.op == "ite":
            a, b = colbase(n.args[1], d + 1), colbase(n.args[2], d + 1)
            return a if a is b else ite(n.args[0], a, b)
        else:
            break
    return n


def thresholds(c, k, me, initf, evi, sti, predf, evs):
    ps = [p for p in initf.params + initf.kwonly if p.endswith("_thresh")]
    used = set()
    stored = {}
    for loc, v in sti.heap.items():
        if loc.op == "attr" and loc.args[0] is me and v.op == "param" and v.args[0] in ps:
            stored[loc.args[1]] = v.args[0]
    # crossed storage
    for a, p in stored.items():
        norm = lambda s: s.replace("_nan", "").replace("_drop", "")
        others = [q for q in ps if q != p and norm(q) == norm(a)]
        c.ob("thresholds", f"{k.name}.{a}", not others, f"self.{a} holds {p}, not {others[0] if others else ''}")
    for phase, es in (("train", evi), ("predict", evs)):
        for e in es:
            if e.kind != "call" or e.recv is None or e.target != "dropna" or "thresh" not in e.kwargs:
                continue
            th = e.kwargs["thresh"]
            names = set()
            for x in walk(th):
                if x.op == "param" and x.args[0] in ps:
                    names.add(x.args[0])
                elif x.op == "attr" and x.args[0] is me and x.args[1] in stored:
                    names.add(stored[x.args[1]])
                elif x.op == "attr" and x.args[0] is me and x.args[1] in ps:
                    names.add(x.args[1])
            if len(names) != 1:
                continue
            n = names.pop()
            used.add(n)
            ax = axis_of(mk("meth", e.recv, "dropna", tuple(e.args), tuple(sorted(e.kwargs.items()))))
            want = 1 if "feature" in n else 0
            if ax is not None:
                c.ob("thresholds", f"{k.name}:{n} axis", ax == want, f"{n} drops {'features' if ax == 1 else 'samples'}", e.where())
            if ("predict" in n) != (phase == "predict"):
                c.ob("thresholds", f"{k.name}:{n} phase", False, f"{n} is applied in {phase}ing", e.where())
            dim = dimension(th, me)
            if dim is not None:
                c.ob("thresholds", f"{k.name}:{n} dimension", dim == (0 if want == 1 else 1), f"{n} is taken relative to the number of {'samples' if dim == 0 else 'features'}", e.where())
            bases = []
            for x in walk(th):
                if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and cval(x.args[1]) == 1:
                    bases.append(x.args[0].args[0])
                elif x.op == "call" and x.args[0] == "builtins.len" and x.args[1] and x.args[1][0].op == "attr" and x.args[1][0].args[1] == "columns":
                    bases.append(x.args[1][0].args[0])
            if bases and want == 0:
                have = {y for x in bases for y in alts(colbase(x))}
                over = {y for y in alts(colbase(e.recv))}
                wider = not (have & over) and all(y.op == "sub" and any(z in have for z in alts(colbase(y.args[0]))) for y in over)
                c.ob("thresholds", f"{k.name}:{n} width", not wider, f"{n} is taken of the number of columns of {show(bases[0], 4)[:100]}, not of the table whose samples are dropped", e.where())
            # plain fraction, not complemented
            comp = contains(th, lambda x: x.op == "bin" and x.args[0] == "-" and any(y.op == "param" and y.args[0] == n or y.op == "attr" and y.args[0] is me for y in (x.args[1], x.args[2])))
            c.ob("thresholds", f"{k.name}:{n} fraction", not comp, f"{n} is used as its complement in {show(th)}", e.where())
    for p in ps:
        if "predict" in p and predf is None:
            continue
        c.ob("thresholds", f"{k.name}:{p} used", p in used or flows(evi + list(evs), me, p, stored), f"{p} has no effect")


def flows(evs, me, p, stored):
    """the threshold reaches some call other than through dropna"""
    names = [mk("param", p)] + [attr(me, a) for a, q in stored.items() if q == p]
    for e in evs:
        if e.kind == "call":
            if isinstance(e.target, str) and e.target.split(".")[-1] in ("warning", "info", "error", "debug", "format"):
                continue
            for a in ([e.recv] if e.recv is not None else []) + list(e.args) + list(e.kwargs.values()):
                if isinstance(a, Node) and any(contains(a, n) for n in names):
                    return True
        for g, _ in e.guards:
            if any(contains(g, n) for n in names):
                return True
    return False


def dimension(th, me):
    """0: relative to the number of rows, 1: of columns"""
    dims = set()
    for x in walk(th):
        if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[1].op == "const":
            dims.add(x.args[1].args[0])
        elif x.op == "call" and x.args[0] == "builtins.len" and x.args[1]:
            a = x.args[1][0]
            if a.op == "attr" and (a.args[1] in ("columns", "feature_labels")):
                dims.add(1)
            elif a.op == "attr" and a.args[1] == "index" or columns(a)[0][0] in ("sel", "root") and a.op != "attr":
                dims.add(0)
    return dims.pop() if len(dims) == 1 else None
