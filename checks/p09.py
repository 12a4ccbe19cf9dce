from .cli import *
from .p07 import written_path

EXPLANATION = ("Control-dependence analysis of the structure and featurize commands: every call that structures a run, writes a structured "
               "output, creates features, keeps or writes a featurizer is reached only under the truth of the first item validate() returned for "
               "that same object; nothing structuring or writing is reached under --validation-only; the value recorded is that item.")

STEPS = {"structure": ("structure", "autostructure", "to_json_file"), "featurize": ("create_features",)}


def verdicts(vs):
    """{verdict term: receiver}"""
    out = {}
    for v in vs:
        if v.result is not None:
            out[sub(v.result, const(0))] = receiver(v)
    return out


def positive(g, pol, vd):
    """the verdict the guard asserts, if any"""
    if pol and g in vd:
        return g
    if g.op == "call" and g.args[0] == "builtins.bool" and pol and g.args[1][0] in vd:
        return g.args[1][0]
    if g.op == "cmp" and g.args[0] in ("is", "==") and g.args[1] in vd and g.args[2] in (TRUE, FALSE) and pol == (g.args[2] is TRUE):
        return g.args[1]
    if g.op == "phi" and pol and all(a in vd for a in g.args):
        return g.args[0]
    return None


def bad_use(g, vd):
    """the guard misreads the verdict: the pair itself (always true), or the reason"""
    for v in vd:
        if g is v.args[0]:
            return "the (verdict, reason) pair, which is always true"
        if g is sub(v.args[0], const(1)):
            return "the reason instead of the verdict"
    return None


def check(c):
    c.rule("validated-first", "structuring / featurizing is reached only under the validation verdict of the same object")
    c.rule("validation-only", "nothing is structured or written in validation-only mode")
    c.rule("recorded", "the verdict recorded is the one validation returned")
    c.rule("validates", "the command validates each input it processes")
    cmds = commands(c)
    for name, steps in STEPS.items():
        if name not in cmds:
            raise AnalysisError(f"command {name} not found")
        cmd = cmds[name]
        it, res, st, evs = cmd.surface()
        vs = [e for e in evs if e.kind == "call" and tname(e) == "validate"]
        c.ob("validates", name, bool(vs), f"{name} never validates its inputs")
        vd = verdicts(vs)
        acts = [e for e in evs if e.kind == "call" and tname(e) in steps]
        if name == "featurize":
            fs = {receiver(e) for e in acts}
            feat = set()
            for f in fs:
                if f is not None:
                    feat |= set(alts(f))
            # keeping or writing the featurizer itself
            for e in evs:
                if e.kind != "call":
                    continue
                if e.recv is not None and e.target in ("append", "extend", "add") or written_path(e) is not None:
                    for a in e.args:
                        if a in fs or any(x in feat for x in alts(a)):
                            acts.append(e)
        if not acts:
            raise AnalysisError(f"{name}: no structuring/featurizing step found")
        for e in acts:
            lab = f"{name}: {tname(e)}"
            who = receiver(e) if tname(e) in steps else e.args[0]
            got = [positive(g, p, vd) for g, p in e.guards]
            got = [x for x in got if x is not None]
            msg = f"{tname(e)} is reached without validation having succeeded"
            for g, p in e.guards:
                b = bad_use(g, vd)
                if b:
                    msg = f"{tname(e)} is decided on {b}"
            ok = bool(got)
            if ok and who is not None:
                ok = any(vd[x] is who or set(alts(vd[x])) & set(alts(who)) for x in got)
                if not ok:
                    msg = f"{tname(e)} is applied to {show(who)}, but validation ran on {show(vd[got[0]])}"
            c.ob("validated-first", lab, ok, msg, e.where())
            if name == "structure":
                vo = mk("param", "validation_only")
                c.ob("validation-only", lab, (vo, False) in e.guards, f"{tname(e)} runs in validation-only mode", e.where())
        if name == "structure":
            osj = obj(cmd, "output_status_json")
            for e in evs:
                w = written_path(e)
                if w is not None and osj not in list(e.args) + list((e.kwargs or {}).values()):
                    c.ob("validation-only", f"structure: writes {tname(e)}", (mk("param", "validation_only"), False) in e.guards, "a file is written in validation-only mode", e.where())
        # what is recorded
        key = "validated" if name == "structure" else "valid"
        for e in evs:
            if e.kind == "store" and cval(e.key) == key:
                for gs, leaf in guarded_alts(e.value, e.guards):
                    if leaf in (FALSE, NONE, UNDEF, ABSENT):
                        # recorded false: not where validation succeeded
                        c.ob("recorded", f"{name}: {key} false", not any(positive(g, p, vd) is not None for g, p in gs), "a valid input is recorded as invalid", e.where())
                        continue
                    ok = leaf in vd or leaf.op == "call" and leaf.args[0] == "builtins.bool" and leaf.args[1][0] in vd or any(positive(g, p, vd) is not None for g, p in gs)
                    c.ob("recorded", f"{name}: {key}", ok, f"{key} is recorded as {show(leaf)}, not as validation reported", e.where())
    c.need("validated-first", 4)
