from .cli import *
from .p06 import loops, inside, after_loop, elem_terms, input_terms, try_nodes

EXPLANATION = ("Dominance analysis of the status entries: every store that claims a completed step, an output path or a checksum is "
               "dominated by the completion of that step (or the writing of that very path); claims start out false in an entry "
               "made afresh for each input; each attempted input gets its entry under its own name; failures store their traceback in it.")

CLAIMS = ("validated", "structured", "valid", "featurized", "created", "generated")
WRITERS = {"dumpfn": 1, "to_json_file": 0, "to_json": 0, "dump": 1, "to_file": 0, "to_csv": 0}


def written_path(e):
    n = tname(e)
    if e.kind != "call" or n not in WRITERS:
        return None
    if e.bound:
        for k in ("filename", "path", "fn", "file"):
            if k in e.bound:
                return e.bound[k]
    kw = e.kwargs or {}
    for k in ("fn", "filename", "path_or_buf", "path", "fp"):
        if k in kw:
            return kw[k]
    i = WRITERS[n]
    a = [x for x in e.args]
    if e.recv is None and e.bound is not None and "self" in e.bound:
        i += 1
    return a[i] if len(a) > i else None


def truthy_guards(e):
    return {g for g, p in e.guards if p} | {g.args[1] for g, p in e.guards if not p and g.op == "cmp" and g.args[0] == "is" and g.args[2] is NONE}


def completed_by(e, calls):
    """e is only reached when one of the calls completed"""
    if jointly_dominates(calls, e):
        return True
    res = set()
    for x in calls:
        res |= set(walk(x.result)) if x.result is not None else set()
    for g in truthy_guards(e):
        al = [a for a in alts(g) if not (a.op == "const" and not a.args[0]) and a is not UNDEF and a.op != "absent"]
        if al and all(derives(a, calls) for a in al):
            return True
    return False


def derives(a, calls):
    """a is (an item of) the result of one of the calls"""
    rs = {x.result for x in calls if x.result is not None}
    while True:
        if a in rs:
            return True
        if a.op in ("sub", "attr"):
            a = a.args[0]
            continue
        return False


def claim_ok(c, cmd, e, key, evs):
    """is the claim stored by e backed by its step?"""
    calls = lambda *names: [x for x in evs if x.kind == "call" and tname(x) in names and x.recv is not ctx_param(cmd)]
    out = []
    for gs, leaf in guarded_alts(e.value, e.guards):
        if leaf.op == "const" and not leaf.args[0] or leaf in (UNDEF, ABSENT):
            continue
        if key in ("validated", "valid"):
            vs = calls("validate")
            rs = {sub(x.result, const(0)) for x in vs if x.result is not None}
            out.append(leaf in rs or (leaf.op == "call" and leaf.args[0] == "builtins.bool" and leaf.args[1][0] in rs) or any(p and g in rs for g, p in gs))
        elif key == "structured":
            ok = jointly_dominates(calls("structure", "autostructure"), e) and jointly_dominates(calls("to_json_file", "dumpfn"), e)
            out.append(ok)
        elif key == "featurized":
            out.append(jointly_dominates(calls("create_features"), e))
        elif key == "created":
            ws = [x for x in evs if written_path(x) is not None]
            ok = jointly_dominates(ws, e)
            if cmd.name == "train":
                ok = ok and completed_by(e, calls("train", "train_and_score"))
            elif cmd.name == "predict":
                ok = ok and completed_by(e, calls("predict"))
            elif cmd.name == "featurize":
                ok = ok and jointly_dominates(calls("BEEPFeatureMatrix"), e)
            out.append(ok)
        elif key == "generated":
            out.append(True)
    return all(out)


def opened(v):
    """paths whose content the term is a digest of"""
    out = []
    for x in walk(v):
        if x.op == "call" and x.args[0] in ("builtins.open", "monty.io.zopen", "pathlib.Path") and x.args[1]:
            out.append(x.args[1][0])
    return out


def check(c):
    c.rule("claim", "a step is claimed done only where it completed")
    c.rule("claim-initial", "claims are false before the step is attempted")
    c.rule("output", "an output path is stored only after that very path was written")
    c.rule("checksum", "a checksum is that of the input itself, or of the output path after it was written")
    c.rule("entry", "each input attempted has its own entry, made for that input, under the input's own name")
    c.rule("traceback", "a failed step stores its traceback in its own entry")
    c.rule("generated", "protocols are reported generated from the list of generated files, failures from the list of failures")
    cmds = commands(c)
    for name in ("structure", "featurize", "train", "predict", "protocol"):
        if name not in cmds:
            raise AnalysisError(f"command {name} not found")
        cmd = cmds[name]
        it, res, st, evs = cmd.surface()
        osj = obj(cmd, "output_status_json")
        dumps = [e for e in evs if e.kind == "call" and tname(e) in ("dumpfn", "dump") and osj in list(e.args) + list((e.kwargs or {}).values())]
        status = set()
        for d in dumps:
            for a in d.args:
                if a is not osj:
                    status |= {x for x in alts(a) if x.op == "new"} | {x.args[2] for x in alts(a) if x.op == "mu" and isinstance(x.args[2], Node)}
        c.ob("entry", f"{name}: report", bool(status), "no status report is written")
        first_in = {}
        for e in evs:
            for x in e.ctx:
                if x[0] in ("try", "loop"):
                    first_in.setdefault(x[:2], e)
        entries_claims = []
        for e in evs:
            if e.kind != "store" or e.how != "sub" or not is_str(e.key):
                continue
            key = e.key.args[0]
            if e.base.op not in ("new", "phi", "ite", "mu", "sub", "get"):
                continue
            if key in CLAIMS:
                c.ob("claim", f"{name}: {key}", claim_ok(c, cmd, e, key, evs), f"'{key}' is recorded although the step may not have completed: {show(e.value)}", e.where())
                entries_claims.append(e)
                for b in alts(e.base):
                    tr = [x for x in e.ctx if x[0] == "try"]
                    if tr:
                        v = first_in[tr[-1][:2]].heap.get(sub(b, e.key))
                        c.ob("claim-initial", f"{name}: {key}", v is None or v is ABSENT or all(x.op in ("absent", "undef") or x.op == "const" and not x.args[0] for x in alts(v)),
                             f"'{key}' starts out as {show(v) if v is not None else None}", e.where())
            elif key == "output":
                for gs, leaf in guarded_alts(e.value, e.guards):
                    if leaf is NONE or leaf in (UNDEF, ABSENT):
                        continue
                    ws = [x for x in evs if written_path(x) is not None and (written_path(x) is e.value or leaf in alts(written_path(x)))]
                    c.ob("output", f"{name}: output", jointly_dominates(ws, e) or any(dominates(w, e) for w in ws),
                         f"the path reported as output ({show(leaf)}) is not one that was written before", e.where())
            elif "md5" in key or "chksum" in key:
                ps = opened(e.value)
                if not ps:
                    continue
                ws = [written_path(x) for x in evs if written_path(x) is not None and dominates(x, e)]
                want_out = (name == "structure" and key.startswith("processed")) or key.startswith("subop")
                for p in ps:
                    if want_out:
                        ok = p in ws
                    else:
                        ls = loops(e)
                        ok = bool(ls) and p not in ws and any(x in elem_terms(ls[0][2], it, st) for x in walk(p))
                    c.ob("checksum", f"{name}: {key}", ok, f"'{key}' is the checksum of {show(p)}", e.where())
            elif key == "traceback" and e.value is not NONE:
                hs = [x for x in e.ctx if x[0] == "handler"]
                if not hs:
                    c.ob("traceback", f"{name}: traceback", False, "a traceback is recorded where nothing failed", e.where())
                    continue
                trybases = set()
                for x in evs:
                    if x.kind == "store" and any(y[0] == "try" and y[1] == hs[-1][1] for y in x.ctx) and is_str(x.key) and (x.key.args[0] in CLAIMS + ("output",) or "chksum" in x.key.args[0]):
                        trybases |= set(alts(x.base))
                ok = not trybases or any(b in trybases or b in status for b in alts(e.base))
                c.ob("traceback", f"{name}: traceback", ok, "the traceback is stored in another entry than the step's own", e.where())
        # dict literals of the report itself
        for s0 in status:
            for d in dumps:
                for loc, v in d.heap.items():
                    if loc.op == "sub" and is_str(loc.args[1]) and "chksum" in loc.args[1].args[0] and loc.args[0].op == "new" and v.op != "const":
                        k = loc.args[1].args[0]
                        ref = d.heap.get(sub(loc.args[0], const(k.replace("_md5_chksum", ""))))
                        ps = opened(v)
                        if ref is not None and ps:
                            c.ob("checksum", f"{name}: {k}", ref in ps, f"'{k}' is the checksum of {show(ps[0])}, not of {show(ref)}")
        if name in ("structure", "featurize"):
            batch(c, cmd, it, st, evs, dumps, status, entries_claims)
        if name == "protocol":
            gen = [e for e in evs if e.kind == "call" and tname(e) == "generate_protocol_files_from_csv"]
            R = {e.result for e in gen}
            for e in evs:
                if e.kind == "store" and e.value.op == "new" and sub(e.value, const("generated")) in e.heap:
                    v = e.heap[sub(e.value, const("generated"))]
                    src = set(walk(e.key))
                    for l in e.ctx:
                        if l[0] == "loop" and isinstance(l[2], Node):
                            src |= set(walk(l[2]))
                    files = any(sub(r, const(0)) in src for r in R)
                    fails = any(sub(r, const(1)) in src for r in R)
                    if v is TRUE:
                        c.ob("generated", "protocol: generated", files and not fails, "a row is reported generated that is not in the list of generated files", e.where())
                    elif v is FALSE:
                        c.ob("generated", "protocol: failures", fails and not files, "a generated file is reported as not generated", e.where())
                    elif files != fails:
                        c.ob("generated", "protocol: varying", False, f"{'a generated file' if files else 'a failure'} is reported as {show(v)}", e.where())
                    else:
                        c.ob("generated", "protocol: ?", True)
            kinds = {(e.heap[sub(e.value, const("generated"))]) for e in evs if e.kind == "store" and e.value.op == "new" and sub(e.value, const("generated")) in e.heap}
            c.ob("generated", "protocol: both reported", TRUE in kinds and FALSE in kinds or len(kinds - {TRUE, FALSE}) > 0, "generated files or failures are missing from the report")
    c.need("claim", 6)
    c.need("output", 4)
    c.need("entry", 6)
    c.need("checksum", 4)


def batch(c, cmd, it, st, evs, dumps, status, claims):
    name = cmd.name
    files = set()
    for d in dumps:
        for s0 in status:
            v = d.heap.get(sub(s0, const("files")))
            if v is not None:
                for a in alts(v):
                    files.add(a.args[2] if a.op == "mu" and isinstance(a.args[2], Node) else a)
    stores = [e for e in evs if e.kind == "store" and e.how == "sub" and (set(alts(e.base)) & files or any(b.op == "mu" and b.args[2] in files for b in alts(e.base)))
              and loops(e)]
    c.ob("entry", f"{name}: entries", bool(stores), "no entry is stored per input")
    lids = {loops(e)[0][1] for e in stores}
    for lid in lids:
        src = input_terms(it, evs, lid)
        if not isinstance(src, Node):
            continue
        elems = elem_terms(src, it, st)
        body = [e for e in evs if inside(e, lid)]
        mine = [e for e in stores if inside(e, lid)]
        for e in mine:
            c.ob("entry", f"{name}: key", own_name(e.key, elems), f"the entry is stored under {show(e.key)}, not under the input's own name", e.where())
            for v in alts(e.value):
                if v.op == "new":
                    c.ob("entry", f"{name}: fresh", born_in(it, v, lid), "all inputs share one entry", e.where())
        full = [e for e in mine if not after_ctx(e, lid) and set(e.guards) <= set(body[0].guards)]
        c.ob("entry", f"{name}: unconditional", bool(full), "an input's entry is stored only under a condition" + (": " + ", ".join(show(g) for g, _ in mine[0].guards) if mine else ""), mine[0].where() if mine else "")
        for e in body:
            if e.kind == "continue" and not any(x[0] == "loop" for x in after_loop(e, lid)):
                ok = jointly_dominates(mine, e) or any(e.idx > m.idx and set(m.guards) <= set(e.guards) for m in full) or any(dominates(m, e) for m in mine)
                c.ob("entry", f"{name}: continue", ok, "an input is passed over without an entry", e.where())
        vals = {v for e in mine for v in alts(e.value)}
        # sub-entries
        if name == "featurize":
            app = [e for e in body if e.kind == "call" and e.recv is not None and e.target == "append" and any(d.op == "new" and any(cl.base is d or d in alts(cl.base) for cl in claims) for d in e.args)]
            c.ob("entry", f"{name}: featurizer entries", bool(app), "the outcome of a featurizer is not added to the file's entry")
            for e in app:
                inner = [x for x in after_loop(e, lid) if x[0] == "loop"]
                if not inner:
                    continue
                l2 = inner[-1][1]
                b2 = [x for x in body if inside(x, l2)]
                c.ob("entry", f"{name}: featurizer entry unconditional", not after_ctx(e, l2) and set(e.guards) <= set(b2[0].guards), "the outcome of a featurizer is recorded only under a condition", e.where())
                for d in e.args:
                    if d.op == "new":
                        c.ob("entry", f"{name}: featurizer entry fresh", born_in(it, d, l2), "all featurizers share one entry", e.where())
                if e.recv.op == "new":
                    c.ob("entry", f"{name}: featurizer list fresh", born_in(it, e.recv, lid) and any(e.heap.get(sub(v, const("featurizers"))) is e.recv for v in vals if v.op == "new"),
                         "the featurizer outcomes go to another file's entry", e.where())
        else:
            for cl in claims:
                if inside(cl, lid):
                    c.ob("entry", f"{name}: own outcome", any(b in vals for b in alts(cl.base)), "the outcome is recorded in something other than the input's entry", cl.where())


def after_ctx(e, lid):
    return [x for x in after_loop(e, lid) if x[0] in ("try", "handler", "loop")]


def born_in(it, o, lid):
    """was the object made inside the loop (afresh for each turn)?"""
    b = it.born.get(o)
    return b is None or any(x[0] == "loop" and x[1] == lid for x in b)


def own_name(k, elems):
    """the key is the input itself, up to spelling out its path"""
    while k not in elems:
        if k.op == "call" and k.args[0] in ("builtins.str", "os.path.abspath", "os.path.realpath", "os.fspath", "os.path.normpath") and k.args[1]:
            k = k.args[1][0]
        elif k.op == "str" and len(k.args) == 1:
            k = k.args[0]
        elif k.op == "sub" and k.args[1].op == "idx":
            return True
        else:
            return False
    return True
