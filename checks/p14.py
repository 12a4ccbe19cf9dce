from .configs import *
import re

from vfa import regex as rx

EXPLANATION = ("The dispatcher's decisions are read as guards over name patterns, the patterns (from the yaml tables) as regular languages, and the set of "
               "names each loader receives is computed by regular-language algebra (derivatives, complement, intersection) over all names: inclusion and "
               "emptiness decide own-format dispatch, reachability and refusal, with a shortest file name as witness. Loading of processed files is "
               "decided by control dependence on the class of what was loaded, and legacy recognition by the keys present.")

# which loader a naming pattern belongs to: the cycler whose configuration carries it
OWNER = {"ARBIN_CONFIG": "ArbinDatapath", "FastCharge_CONFIG": "ArbinDatapath", "MACCOR_CONFIG": "MaccorDatapath", "xTesladiag_CONFIG": "MaccorDatapath",
         "INDIGO_CONFIG": "IndigoDatapath", "BIOLOGIC_CONFIG": "BiologicDatapath", "NEWARE_CONFIG": "NewareDatapath", "NOVONIX_CONFIG": "NovonixDatapath"}
# names documented (docstrings, documentation, sample data) for each cycler
NAMES = {"2017-05-09_test-TC-contact_CH33.csv": "ArbinDatapath", "FastCharge_000025_CH8.csv": "ArbinDatapath", "PreDiag_000287_000128short.092": "MaccorDatapath",
         "xTESLADIAG_000038.078": "MaccorDatapath", "xTESLADIAG_000019_CH70.070": "MaccorDatapath", "PredictionDiagnostics_000109_tztest.010": "MaccorDatapath",
         "indigo_test_sample.h5": "IndigoDatapath", "formation_test_C05.txt": "BiologicDatapath", "neware_test.csv": "NewareDatapath",
         "NCR18650_a_timeseries.csv": "BatteryArchiveDatapath"}


class Unknown(Exception):
    pass


def check(c):
    c.rule("own-loader", "a name that only one cycler's pattern matches goes to that cycler's loader")
    c.rule("right-name", "a loader reads only names its own pattern matches")
    c.rule("reachable", "some name is dispatched to each cycler's loader")
    c.rule("documented", "the documented sample names go to their loaders")
    c.rule("refused", "a name no pattern matches is refused with an error")
    c.rule("file-passed", "the loader gets the file asked for")
    c.rule("processed", "a processed file is returned as an object only if it is one, read as legacy only if it is plain data, and refused otherwise")
    c.rule("legacy-by-content", "a saved run counts as legacy exactly when its raw data or metadata are missing")
    dispatch(c)
    processed(c)
    legacy(c)


# ---------------------------------------------------------------- raw files
def patterns_in(n, configs, me, out):
    """(function, pattern string) of every match in a guard"""
    for x in walk(n):
        if x.op == "call" and x.args[0] in ("re.match", "re.search", "re.fullmatch") and len(x.args[1]) >= 2:
            try:
                out.add((x.args[0], value_of(x.args[1][0], configs)))
            except (KeyError, TypeError, IndexError):
                raise Unknown(show(x, 4))
        elif x.op == "meth" and x.args[1] in ("match", "search", "fullmatch"):
            raise Unknown(show(x, 4))
        elif textual(x, me):
            out.add(("re.match", textual(x, me)))


def textual(x, me):
    """a plain text test of the name, as a pattern"""
    name = mk("param", me.params[0])
    if x.op == "cmp" and x.args[0] == "in" and is_str(x.args[1]) and x.args[2] is name:
        return ".*" + re.escape(x.args[1].args[0])
    if x.op == "meth" and x.args[1] in ("startswith", "endswith") and x.args[0] is name and len(x.args[2]) == 1 and is_str(x.args[2][0]):
        t = re.escape(x.args[2][0].args[0])
        return t if x.args[1] == "startswith" else ".*" + t + "$"
    return None


def holds(g, v, ix, configs, me=None):
    """the guard, for a name with the match results v"""
    if g.op == "not":
        return not holds(g.args[0], v, ix, configs, me)
    if g.op == "bool":
        xs = (holds(x, v, ix, configs, me) for x in g.args[1])
        return all(xs) if g.args[0] == "and" else any(xs)
    if g.op == "cmp" and g.args[0] in ("is", "==") and g.args[2] is NONE:
        return not holds(g.args[1], v, ix, configs, me)
    if g.op == "call" and g.args[0] == "builtins.bool":
        return holds(g.args[1][0], v, ix, configs, me)
    if g.op == "call" and g.args[0] in ("builtins.any", "builtins.all") and g.args[1][0].op in ("list", "tuple"):
        ys = g.args[1][0].args
        xs = (holds(x, v, ix, configs, me) for x in (ys[0] if len(ys) == 1 and isinstance(ys[0], tuple) else ys))
        return all(xs) if g.args[0] == "builtins.all" else any(xs)
    if g.op == "call" and g.args[0] in ("re.match", "re.search", "re.fullmatch"):
        if len(g.args[1]) > 2 or g.args[2]:
            raise Unknown("flags")
        return v[ix[(g.args[0], value_of(g.args[1][0], configs))]]
    if textual(g, me):
        return v[ix[("re.match", textual(g, me))]]
    raise Unknown(show(g, 4))


def dispatch(c):
    f = c.func("beep.structure.cli.auto_load")
    configs = yaml_globals(c)
    it = c.interp(inline_pred=lambda g: g.module is f.module)
    res, st, evs = c.run(it, f)
    where = f.where()
    used = set()
    rets = [e for e in evs if e.kind == "return" and e.fn is f]
    raises = [e for e in evs if e.kind == "raise"]
    own = {}
    for nm, (_, y) in configs.items():
        if nm in OWNER and isinstance(y, dict) and "file_pattern" in y:
            own.setdefault(OWNER[nm], []).append(y["file_pattern"])
    base = c.cls("beep.structure.base.BEEPDatapath")
    for k in c.P.subclasses(base):
        for s in k.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "FILE_PATTERN" and isinstance(s.value, ast.Constant):
                own.setdefault(k.name, []).append(s.value.value)
    try:
        for e in rets + raises:
            for g, _ in e.guards:
                patterns_in(g, configs, f, used)
    except Unknown as x:
        c.notes.append(f"dispatch not decided by name patterns alone: {x}")
        return
    keys = sorted(used) + sorted({("re.match", p) for ps in own.values() for p in ps} - used)
    pats = [("(?:.*)(?:" + p + ")" if fn == "re.search" else p) for fn, p in keys]
    full = {i for i, (fn, _) in enumerate(keys) if fn == "re.fullmatch"}
    names = sorted(NAMES)
    terms, alpha = rx.lang(pats + ["|".join("[" + ch + "]" for ch in sorted({ch for n in names for ch in n if ch.isalnum() or ch in "_"}))], full)
    ix = {k: i for i, k in enumerate(keys)}
    dfas = [rx.Dfa(t, alpha) for t in terms[:len(keys)]]
    outs = [(loader(c, e.value), e) for e in rets if e.value is not None and e.value is not NONE]
    if any(k is None for k, _ in outs):
        c.notes.append("a loader is chosen in a way that is not read")
        return
    for k, e in outs:
        c.ob("file-passed", k, any(a is mk("param", f.params[0]) or show(a) == show(mk("param", f.params[0])) for a in e.value.args[1]), "the loader does not get the file asked for", e.where())
    try:
        for _, e in outs:
            [holds(g, (False,) * len(keys), ix, configs, f) for g, _ in e.guards]
    except (Unknown, KeyError) as x:
        c.notes.append(f"dispatch not decided by name patterns alone: {x}")
        return

    def takes(e):
        return lambda v: all(holds(g, v, ix, configs, f) == pol for g, pol in e.guards)

    def goes(v):
        """the loaders a name is dispatched to (one, unless the guards are not exclusive: then the first)"""
        return next((k for k, e in outs if takes(e)(v)), None)

    def of(k):
        return lambda v: any(v[ix[("re.match", p)]] for p in own.get(k, ()))

    used_by = {k for k, _ in outs}
    rest = {k: [j for j in own if j != k and j in used_by] for k in own}
    preds = {}
    for k in own:
        preds["reach", k] = lambda v, k=k: goes(v) == k and of(k)(v)
        preds["own", k] = lambda v, k=k: of(k)(v) and not any(of(j)(v) for j in rest[k]) and goes(v) != k
    for k in used_by:
        preds["right", k] = lambda v, k=k: goes(v) == k and not of(k)(v)
    preds["refused", ""] = lambda v: not any(of(k)(v) for k in own) and not any(takes(e)(v) for e in raises)
    found, n = rx.explore(dfas, alpha, preds)
    c.notes.append(f"{n} states of the product automaton of {len(keys)} patterns")
    for k in sorted(own):
        w = found.get(("reach", k))
        c.ob("reachable", k, w is not None, f"no file name is ever dispatched to {k}", where)
        if w is None:
            continue
        w = found.get(("own", k))
        c.ob("own-loader", k, w is None, f"a name only its own pattern matches, like {clean(w)!r}, does not go to {k}", where)
    for k in sorted(used_by):
        w = found.get(("right", k))
        c.ob("right-name", k, w is None, f"{k} reads names its pattern does not match, like {clean(w)!r}", where)
    other = max(alpha)
    for n in names:
        v = tuple(rx.accepts(t, n, alpha, other) for t in terms[:len(keys)])
        k = NAMES[n]
        c.ob("documented", n, of(k)(v) and goes(v) == k, f"{n}, a documented name of {k}, is read by {goes(v) or 'nothing'}", where)
    w = found.get(("refused", ""))
    c.ob("refused", "auto_load", w is None, f"a name no pattern matches, like {clean(w)!r}, is not refused", where)


def clean(w):
    return None if w is None else "".join("x" if ord(ch) >= 0x2460 else ch for ch in w)


def loader(c, v):
    """class name of K.from_file(...)"""
    if v is not None and v.op == "call" and v.args[1]:
        k = v.args[1][0]
        if k.op == "class" and v.args[0].endswith(".from_file"):
            return k.args[0].split(".")[-1] if isinstance(k.args[0], str) else getattr(k.args[0], "name", None)
    return None


# ---------------------------------------------------------------- processed files
def isinst(g):
    if g.op == "call" and g.args[0] == "builtins.isinstance" and len(g.args[1]) == 2:
        x, k = g.args[1]
        ks = (k.args[0] if len(k.args) == 1 and isinstance(k.args[0], tuple) else k.args) if k.op in ("tuple", "list") else (k,)
        return x, {(y.args[0] if isinstance(y.args[0], str) else getattr(y.args[0], "full", "?")).split(".")[-1] for y in ks if hasattr(y, "op") and y.args}
    return None


def facts(guards):
    """{object: (classes it is one of, classes it is not)}"""
    out = {}
    for g, pol in saturate(guards):
        gs = [(g, pol)]
        while gs:
            g, pol = gs.pop()
            if g.op == "not":
                gs.append((g.args[0], not pol))
            elif g.op == "bool" and (g.args[0] == "and") == pol:
                gs += [(x, pol) for x in g.args[1]]
            else:
                r = isinst(g)
                if r:
                    yes, no = out.setdefault(r[0], (set(), set()))
                    (yes if pol else no).update(r[1])
    return out


def processed(c):
    f = c.func("beep.structure.cli.auto_load_processed")
    it = c.interp(inline_pred=lambda g: g.module is f.module)
    res, st, evs = c.run(it, f)
    path = mk("param", f.params[0])
    loads = [e.result for e in evs if e.kind == "call" and tname_(e) == "loadfn"]
    c.ob("processed", "reads the file", any(path in e.args for e in evs if e.kind == "call" and tname_(e) == "loadfn") or not loads, "the file asked for is not the one read", f.where())
    rets = [e for e in evs if e.kind == "return" and e.fn is f]
    for e in rets:
        for v, gs in alternatives(e.value, e.guards):
            fa = facts(gs)
            if v in loads:
                yes, no = fa.get(v, (set(), set()))
                c.ob("processed", "object returned", "BEEPDatapath" in yes, "what was loaded is returned without being a cycler run", e.where())
                h = (e.heap or {}).get(sub(attr(v, "paths"), const("structured")))
                c.ob("processed", "path recorded", h is None and any(x.kind == "store" and x.key is const("structured") for x in evs) or h is path or h is not None and any(y is path for y in walk(h)),
                     "the path of the processed file is not recorded", e.where())
            elif v.op == "call" and v.args[0].endswith("from_json_file"):
                ok = any("dict" in y and "BEEPDatapath" in n or "dict" in y for o, (y, n) in fa.items() if o in loads)
                c.ob("processed", "legacy read", ok, "a file is read as legacy without being plain data", e.where())
                c.ob("processed", "legacy file", path in v.args[1], "the legacy reader does not get the file asked for", e.where())
            elif v is NONE:
                c.ob("processed", "nothing returned", False, "a processed file that is neither is not refused", e.where())
    if loads:
        ok = any(e.kind == "raise" and any("BEEPDatapath" in n and "dict" in n for o, (y, n) in facts(e.guards).items() if o in loads) for e in evs)
        c.ob("processed", "neither", ok, "a processed file that is neither a run nor plain data is not refused", f.where())
        c.ob("processed", "falls through", not any(x is NONE for x in tops(res)), "nothing is returned for some processed file", f.where())


def tname_(e):
    return e.target.split(".")[-1]


def tops(n):
    if n.op == "ite":
        yield from tops(n.args[1])
        yield from tops(n.args[2])
    elif n.op == "phi":
        for x in n.args:
            yield from tops(x)
    else:
        yield n


def alternatives(n, gs):
    if n.op == "ite":
        yield from alternatives(n.args[1], tuple(gs) + ((n.args[0], True),))
        yield from alternatives(n.args[2], tuple(gs) + ((n.args[0], False),))
    else:
        yield n, gs


def legacy(c):
    """from_dict: the mark follows the keys that are there, and the raw data follow the mark"""
    f = c.func("beep.structure.base.BEEPDatapath.from_dict")
    k = c.cls("beep.structure.arbin.ArbinDatapath")
    it = c.interp()
    res, st, evs = c.run(it, f, cls=k)
    d = mk("param", f.params[-1])
    v = st.heap.get(attr(res, "_is_legacy"))
    if v is None or v is ABSENT:
        c.notes.append("the legacy mark is kept elsewhere")
        return
    tested = set()
    for x in walk(v):
        if x.op == "cmp" and x.args[0] == "in" and x.args[1].op == "const":
            tested.add(x.args[1].args[0])
        if x.op == "comp":
            for s in walk(x):
                if s.op == "const" and isinstance(s.args[0], str):
                    tested.add(s.args[0])
                elif s.op == "const" and isinstance(s.args[0], tuple):
                    tested |= {y for y in s.args[0] if isinstance(y, str)}
        if x.op in ("list", "tuple"):
            tested |= {y.args[0] for y in walk(x) if is_str(y)}
    c.ob("legacy-by-content", "mark", {"raw_data", "metadata"} <= tested, "whether a run is legacy does not depend on its raw data and metadata being there", f.where())
    r = st.heap.get(attr(res, "raw_data"))
    if r is not None and r is not ABSENT and v.op in ("ite",):
        for cond, pol in ((v.args[0], True), (v.args[0], False)):
            mark = v.args[1] if pol else v.args[2]
            raw = [x for x, gs in alternatives(r, ()) if all(g is not cond or p == pol for g, p in gs)]
            if mark is TRUE:
                c.ob("legacy-by-content", "legacy has no raw data", all(x is NONE for x in raw), "a run read as legacy carries raw data", f.where())
            elif mark is FALSE:
                c.ob("legacy-by-content", "current has raw data", all(any(y is sub(d, const("raw_data")) or y.op == "meth" and y.args[1] == "get" for y in walk(x)) for x in raw), "a run with raw data is read without them", f.where())
