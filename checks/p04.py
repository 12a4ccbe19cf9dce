from .common import *
from vfa.effects import mutations, roots

EXPLANATION = ("Interprocedural mutation analysis of the model, data splitter, dataset, feature matrix and principal component classes and of the commands' train and "
               "predict operations: every store, deletion or in-place call is resolved to the access path of the object it changes, through instance "
               "attributes that alias constructor arguments; none may change an object the caller passed in, and predicting may not change the "
               "state that predictions are made from.")

CLASSES = ["beep.model.BEEPLinearModelExperiment", "beep.prediction.beep_data_splitter.BEEPDataSplitter", "beep.prediction.beep_data_splitter.BEEPDataset",
           "beep.features.base.BEEPFeatureMatrix", "beep.features.principal_components.PrincipalComponents"]
FITS = {"fit", "fit_transform", "partial_fit", "set_params"}
SER = ("from_dict", "from_json_file", "from_file")


def check(c):
    c.rule("arguments-untouched", "no operation changes a table or object passed in by the caller")
    c.rule("predict-stateless", "predicting changes nothing that a later prediction reads")
    P = c.P
    fm = c.cls("beep.features.base.BEEPFeatureMatrix")
    me = mk("param", "self")
    for full in CLASSES:
        k = P.resolve(full)
        if not isinstance(k, Class):
            continue
        for kk in [k] + P.subclasses(k):
            one(c, kk, fm, me)
    c.need("arguments-untouched", 15)


def one(c, k, fm, me):
    P = c.P
    ms = {}
    for b in reversed(P.mro(k)):
        for n, f in b.methods.items():
            if n == "__init__" or not n.startswith("_"):
                ms[n] = f
    alias = {}
    ty = {mk("param", "feature_matrix"): fm, mk("param", "target_matrix"): fm}
    if "__init__" in ms:
        it = c.interp(types=dict(ty, **{me: k}) if False else {**ty, me: k})
        _, st, evs = c.run(it, ms["__init__"], self_node=me, cls=k)
        for loc, v in st.heap.items():
            if loc.op == "attr" and loc.args[0] is me and isinstance(v, Node):
                for r, p in roots(v):
                    if r.op == "param" and r is not me:
                        alias.setdefault("." + loc.args[1], set()).add((r.args[0], p))
        report(c, k, "__init__", evs, me, alias)
    for n, f in sorted(ms.items()):
        if n == "__init__":
            continue
        t = {**ty, me: k, attr(me, "feature_matrix"): fm, attr(me, "target_matrix"): fm}
        if f.is_classmethod or f.is_static:
            it = c.interp(types=ty)
            _, _, evs = c.run(it, f, cls=k)
        else:
            it = c.interp(types=t)
            _, _, evs = c.run(it, f, self_node=me, cls=k)
        report(c, k, n, evs, me, alias)
        if n == "predict":
            stateless(c, k, evs, me)


def report(c, k, n, evs, me, alias):
    for m in mutations(evs):
        if m.via == "aug" and not m.path:
            continue
        tgt = None
        if m.root.op == "param" and m.root is not me:
            if n in SER and not m.path:
                pass
            tgt = (m.root.args[0], m.target())
        elif m.root is me and m.path and m.path[0] in alias:
            src = sorted(x for x, _ in alias[m.path[0]])[0]
            tgt = (src, m.target())
        if tgt:
            c.ob("arguments-untouched", f"{k.name}.{n}:{tgt[1]}:{m.what if m.rebind else m.what.split(' of ')[0]}", False,
                 f"{k.name}.{n}: {m.what} on {tgt[1]}, which the caller passed as {tgt[0]}", m.ev.where())
    c.ob("arguments-untouched", f"{k.name}.{n}", True)


def stateless(c, k, evs, me):
    read = set()
    for e in evs:
        for x in [e.recv, e.value, e.base, e.key] + list(e.args or ()) + list((e.kwargs or {}).values()) + [g for g, _ in e.guards]:
            if isinstance(x, Node):
                for y in walk(x):
                    if y.op == "attr" and y.args[0] is me:
                        read.add(y.args[1])
    for m in mutations(evs):
        if m.root is not me:
            continue
        a = m.path[0][1:] if m.path and m.path[0].startswith(".") else m.rebind
        if a in read:
            c.ob("predict-stateless", f"{k.name}.predict:{a}", False, f"predict changes self.{a}, which predictions are made from ({m.what})", m.ev.where())
    for e in evs:
        if e.kind == "call" and e.recv is not None and e.target in FITS:
            for r, p in roots(e.recv):
                if r is me:
                    c.ob("predict-stateless", f"{k.name}.predict:{e.target}", False, f"predict refits {show(e.recv)}", e.where())
    c.ob("predict-stateless", f"{k.name}.predict", True)
