from .common import *
from vfa.effects import mutations, roots

EXPLANATION = ("Interprocedural mutation analysis of every featurizer: constructor, validate, create_features and all other public methods are "
               "analysed with their callees inlined; each store, deletion or in-place call is resolved to the access path of the object it "
               "changes; none may change the run (or anything in it), the hyperparameters passed in, or the class's default hyperparameters. "
               "The functions over runs in beep.features are analysed in their own right too.")

RUN = ("structured_datapath", "processed_cycler_run", "datapath", "cycler_run", "structured_run", "cell_struct", "diag_struct", "pcycler_run")


def is_default(r):
    return r.op == "global" and r.args[0].endswith(".DEFAULT_HYPERPARAMETERS")


def methods(P, k):
    out = {}
    for b in reversed(P.mro(k)):
        for n, f in b.methods.items():
            if not f.is_static:
                out[n] = f
    return {n: f for n, f in out.items() if n == "__init__" or not n.startswith("_")}


def check(c):
    c.rule("run-untouched", "no operation of a featurizer changes the run it is given")
    c.rule("hyperparameters-untouched", "no operation changes the hyperparameters passed in, nor the published defaults")
    c.rule("helpers", "no function over runs changes the run")
    P = c.P
    base = c.cls("beep.features.base.BEEPFeaturizer")
    dp = c.cls("beep.structure.base.BEEPDatapath")
    for k in [base] + P.subclasses(base):
        me = mk("param", "self")
        ms = methods(P, k)
        alias = {}      # self attribute -> what it aliases
        if "__init__" in ms:
            f = ms["__init__"]
            it = c.interp(types={me: k, mk("param", "structured_datapath"): dp})
            _, st, evs = c.run(it, f, self_node=me, cls=k)
            for e in evs:
                if e.kind == "store" and e.how == "attr" and e.base is me and isinstance(e.value, Node):
                    for r, p in roots(e.value):
                        if r.op == "param" and r is not me:
                            alias.setdefault("." + str(cval(e.key)), set()).add((r.args[0], p))
                        elif any(x == ".DEFAULT_HYPERPARAMETERS" for x in p) or r.op == "class" or is_default(r):
                            alias.setdefault("." + str(cval(e.key)), set()).add(("DEFAULT_HYPERPARAMETERS", p))
            report(c, k, "__init__", evs, me, alias)
        for n, f in sorted(ms.items()):
            if n == "__init__":
                continue
            if f.is_classmethod:
                it = c.interp()
                _, _, evs = c.run(it, f)
            else:
                it = c.interp(types={me: k, attr(me, "datapath"): dp})
                _, _, evs = c.run(it, f, self_node=me, cls=k)
            report(c, k, n, evs, me, alias)
    for mod in P.modules.values():
        if not mod.name.startswith("beep.features"):
            continue
        for f in mod.funcs.values():
            if not (f.params and (f.params[0] in RUN or set(f.params) & set(RUN))):
                continue
            ty = {mk("param", p): dp for p in f.params if p in RUN and p not in ("cell_struct", "diag_struct")}
            it = c.interp(types=ty)
            _, _, evs = c.run(it, f)
            for m in mutations(evs):
                if m.root.op == "param" and m.root.args[0] in RUN:
                    c.ob("helpers", f"{f.qual}:{m.target()}", False, f"{m.what} on {m.target()}", m.ev.where())
            c.ob("helpers", f.full, True)
        for k in mod.classes.values():
            if k in P.subclasses(base) or k is base:
                continue
            for n, f in k.methods.items():
                if not (set(f.params) & set(RUN)):
                    continue
                ty = {mk("param", p): dp for p in f.params if p in RUN and p not in ("cell_struct", "diag_struct")}
                me = mk("param", "self")
                if f.is_classmethod or f.is_static:
                    it = c.interp(types=ty)
                    _, _, evs = c.run(it, f)
                else:
                    it = c.interp(types=dict(ty, **{}))
                    _, _, evs = c.run(it, f, self_node=me, cls=k)
                for m in mutations(evs):
                    if m.root.op == "param" and m.root.args[0] in RUN:
                        c.ob("helpers", f"{f.qual}:{m.target()}", False, f"{m.what} on {m.target()}", m.ev.where())
                c.ob("helpers", f.full, True)
    c.need("run-untouched", 40)
    c.need("helpers", 5)


def report(c, k, n, evs, me, alias):
    for m in mutations(evs):
        if m.via == "aug" and not m.path:
            continue
        what = None
        if m.root is me:
            p = m.path
            if ".DEFAULT_HYPERPARAMETERS" in p or m.rebind == "DEFAULT_HYPERPARAMETERS":
                what = ("hyperparameters-untouched", m.target())
            elif p and p[0] == ".datapath":
                what = ("run-untouched", m.target())
            elif p and p[0] in alias:
                for src, _ in alias[p[0]]:
                    if src == "structured_datapath":
                        what = ("run-untouched", m.target())
                    elif src in ("hyperparameters", "DEFAULT_HYPERPARAMETERS"):
                        what = ("hyperparameters-untouched", m.target())
        elif m.root.op == "param" and m.root.args[0] in RUN:
            what = ("run-untouched", m.target())
        elif m.root.op == "param" and m.root.args[0] == "hyperparameters":
            what = ("hyperparameters-untouched", m.target())
        elif is_default(m.root) or ".DEFAULT_HYPERPARAMETERS" in m.path or m.rebind == "DEFAULT_HYPERPARAMETERS":
            what = ("hyperparameters-untouched", m.target())
        if what:
            c.ob(what[0], f"{m.ev.fn.qual}:{what[1]}", False, f"{k.name}.{n}: {m.what} on {what[1]}", m.ev.where())
    c.ob("run-untouched", f"{k.name}.{n}", True)
    c.ob("hyperparameters-untouched", f"{k.name}.{n}", True)
