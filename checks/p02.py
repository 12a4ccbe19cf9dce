from .common import *
from vfa.effects import mutations

EXPLANATION = ("Interprocedural mutation analysis: every public method of every cycler-run class is analysed with its callees "
               "inlined; each store, deletion or in-place call is resolved to the access path of the object it changes; none "
               "may change (or rebind) the raw data table or the attached diagnostic configuration.")

DP = "beep.structure.base.BEEPDatapath"
PROT = ("raw_data", "_diagnostic", "diagnostic")


def entry_points(c, k):
    seen = {}
    for b in reversed(c.P.mro(k)):
        for n, f in b.methods.items():
            if n.startswith("_") or f.is_classmethod or f.is_static:
                continue
            seen[n] = f
    return sorted(seen.items())


def check(c):
    c.rule("raw-untouched", "no public operation of a run changes or rebinds its raw data or diagnostic configuration")
    c.rule("config-frozen", "no public operation of a diagnostic configuration changes it")
    base = c.cls(DP)
    classes = [base] + c.P.subclasses(base)
    for k in classes:
        me = mk("param", "self")
        for n, f in entry_points(c, k):
            own = f.cls is k
            it = c.interp(types={me: k})
            _, _, evs = c.run(it, f, self_node=me, cls=k)
            bad = []
            for m in mutations(evs):
                if m.root is not me:
                    continue
                p = m.path
                if n == "unstructure" and m.rebind in PROT[1:] and not p:
                    continue    # removing the structuring detaches the configuration; it does not change it
                if m.rebind in PROT and not p:
                    bad.append(m)
                elif p and p[0].lstrip(".") in PROT:
                    # item assignment / in-place / attribute assignment on or below
                    if m.via == "aug" and len(p) < 2 and p[0] != ".raw_data":
                        continue
                    bad.append(m)
            for m in bad:
                # report once, at the class that declares the changing code
                c.ob("raw-untouched", f"{m.ev.fn.qual}:{m.target()}", False, f"{k.name}.{n}: {m.what} on {m.target()}", m.ev.where())
            c.ob("raw-untouched", f"{k.name}.{n}", True)
    cfg = c.cls("beep.structure.diagnostic.DiagnosticConfig")
    me = mk("param", "self")
    for n, f in entry_points(c, cfg):
        it = c.interp(types={me: cfg})
        _, _, evs = c.run(it, f, self_node=me, cls=cfg)
        for m in mutations(evs):
            if m.root is me:
                c.ob("config-frozen", f"{m.ev.fn.qual}:{m.target()}", False, f"{m.what} on {m.target()}", m.ev.where())
        c.ob("config-frozen", f"{cfg.name}.{n}", True)
    c.need("raw-untouched", 100)
    c.need("config-frozen", 1)
