from .cli import *
from .p07 import written_path
from vfa.project import _decname

EXPLANATION = ("Option-flow analysis: each click option is followed from its declaration through the command to the library "
               "parameter, condition or output path it documents; its value must arrive unchanged, unset options must leave the "
               "library default, numeric options must not be gated on truth value; every project call must exist and bind its arguments.")

# option -> sink.  ("arg", callee, parameter) | ("guard", callee) | ("path", writer) | ("ctx", attribute) | ("attr", attribute) | ("any",)
LIB = {
    "cli": {"log_file": ("arg0", "FileHandler"), "run_id": ("attr", "run_id"), "tags": ("attr", "tags"),
            "output_status_json": ("attr", "output_status_json"), "halt_on_error": ("attr", "halt_on_error")},
    "structure": {
        "files": ("arg0", "auto_load"), "output_filenames": ("path", "to_json_file"), "output_dir": ("path", "to_json_file"),
        "protocol_parameters_dir": ("arg", "autostructure", "parameters_path"),
        "v_range": ("arg", "structure", "v_range"), "resolution": ("arg", "structure", "resolution"),
        "nominal_capacity": ("arg", "structure", "nominal_capacity"), "full_fast_charge": ("arg", "structure", "full_fast_charge"),
        "charge_axis": ("arg", "structure", "charge_axis"), "discharge_axis": ("arg", "structure", "discharge_axis"),
        "s3_bucket": ("arg0", "download_s3_object"), "automatic": ("guard", "autostructure", True), "validation_only": ("guard", "structure", False),
        "no_raw": ("arg", "to_json_file", "omit_raw"), "s3_use_cache": ("any", "download_s3_object")},
    "featurize": {
        "files": ("arg0", "auto_load_processed"), "output_filename": ("path", "dumpfn"), "output_dir": ("path", "dumpfn"),
        "featurize_with": ("applied",), "featurize_with_hyperparams": ("applied",), "save_intermediates": ("guardp", "dumpfn", True)},
    "train": {
        "output_filename": ("path", "dumpfn"), "feature_matrix_file": ("arg", "BEEPLinearModelExperiment", "feature_matrix"),
        "target_matrix_file": ("arg", "BEEPLinearModelExperiment", "target_matrix"), "targets": ("arg", "BEEPLinearModelExperiment", "targets"),
        "model_name": ("arg", "BEEPLinearModelExperiment", "model_name"),
        "train_on_frac_and_score": ("arg", "train_and_score", "train_and_val_frac"),
        "alpha_lower": ("in", "linspace", "start", 0), "alpha_upper": ("in", "linspace", "stop", 1), "n_alphas": ("in", "linspace", "num", 2),
        "train_feature_nan_thresh": ("arg", "BEEPLinearModelExperiment", "train_feature_drop_nan_thresh"),
        "train_sample_nan_thresh": ("arg", "BEEPLinearModelExperiment", "train_sample_drop_nan_thresh"),
        "predict_sample_nan_thresh": ("arg", "BEEPLinearModelExperiment", "predict_sample_nan_thresh"),
        "drop_nan_training_targets": ("arg", "BEEPLinearModelExperiment", "drop_nan_training_targets"),
        "impute_strategy": ("arg", "BEEPLinearModelExperiment", "impute_strategy"), "kfold": ("arg", "BEEPLinearModelExperiment", "kfold"),
        "max_iter": ("arg", "BEEPLinearModelExperiment", "max_iter"), "tol": ("arg", "BEEPLinearModelExperiment", "tol"),
        "l1_ratios": ("arg", "BEEPLinearModelExperiment", "l1_ratio"), "homogenize_features": ("arg", "BEEPLinearModelExperiment", "homogenize_features")},
    "predict": {
        "model_file": ("arg", "from_json_file", "filename"), "feature_matrix_file": ("arg", "from_json_file", "filename"),
        "output_filename": ("path", "to_json"), "predict_sample_nan_thresh": ("attr", "predict_sample_nan_thresh")},
    "protocol": {"csv_file": ("arg", "generate_protocol_files_from_csv", "csv_filename"),
                 "output_dir": ("arg", "generate_protocol_files_from_csv", "output_directory")},
    "inspect": {"file": ("any", "")},
}
NUM = ("click.FLOAT", "click.INT")


def is_num(o):
    t = o.kw.get("type")
    return t is not None and (t.op == "ext" and t.args[0] in NUM or t.op == "tuple" and all(x.op == "ext" and x.args[0] in NUM for x in t.args)
                              or t.op == "call" and t.args[0] in ("click.FloatRange", "click.IntRange"))


def strip_parse(n):
    """drop documented parsing: absolute paths, lists, loading the file named"""
    while True:
        if n.op == "call" and n.args[0] in ("os.path.abspath", "os.path.expanduser", "os.path.realpath", "builtins.list", "builtins.tuple", "builtins.str", "builtins.float", "builtins.int") and len(n.args[1]) == 1 and not n.args[2]:
            n = n.args[1][0]
        elif n.op == "call" and str(n.args[0]).endswith(".from_json_file") and n.args[1]:
            n = n.args[1][-1]
        else:
            return n


def other_params(n, p, names):
    return sorted({x.args[0] for x in walk(n) if x.op == "param" and x.args[0] in names and x is not p})


def lib_default(c, e, pname):
    """default of the callee's parameter"""
    f = c.P.resolve(e.target)
    if isinstance(f, Class):
        f = c.P.find_method(f, "__init__")
    if f is None:
        return None
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) if a.defaults else {}
    for k, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[k.arg] = v
    if pname not in d:
        return None
    it = c.interp()
    return it.default_value(f, pname, d[pname])


def callee_events(c, evs, short):
    out = []
    for e in evs:
        if e.kind == "call" and tname(e) == short:
            out.append(e)
        elif e.kind == "call" and e.target and str(e.target).endswith(f".{short}.__init__"):
            out.append(e)
    return out


def arg_of(c, e, pname):
    if e.bound is not None:
        return e.bound.get(pname)
    if (e.kwargs or {}).get(pname) is not None:
        return e.kwargs[pname]
    return None


def arrives(c, rule, label, v, opt, names, default, where, transform=None):
    """v is the option's value, unchanged, or the library's default when the option is unset"""
    p = mk("param", opt.param)
    others = None
    ok, msg = False, f"--{opt.param.replace('_', '-')} does not arrive: the parameter gets {show(v)}"
    leaves = guarded_alts(v)
    for gs, leaf in leaves:
        s = strip_parse(leaf)
        if s is p:
            ok = True
        elif transform and transform(s, p):
            ok = True
        elif contains(s, p) and s.op in ("comp",) and opt.param == "l1_ratios":
            ok = True
    if not ok:
        c.ob(rule, label, False, msg, where)
        return
    for gs, leaf in leaves:
        s = strip_parse(leaf)
        if s is p or contains(s, p):
            continue
        # the value is replaced by something else: only when the option is unset
        on = [(g, pol) for g, pol in gs if contains(g, p)]
        unset = any(g.op == "cmp" and g.args[0] in ("is", "==") and contains(g.args[1], p) and g.args[2] is NONE and pol for g, pol in gs)
        falsy = any(g is p and not pol for g, pol in gs)
        if falsy and is_num(opt):
            c.ob(rule, label, False, f"--{opt.param.replace('_', '-')} 0 is taken as unset", where)
            return
        if not unset and not falsy and on:
            c.ob(rule, label, False, f"--{opt.param.replace('_', '-')} is replaced by {show(leaf)} under {show(on[0][0])}", where)
            return
        if not on:
            o = other_params(leaf, p, names)
            c.ob(rule, label, False, f"--{opt.param.replace('_', '-')} is replaced by {show(leaf)}" + (f" when --{o[0]} is given" if o else ""), where)
            return
    c.ob(rule, label, True, where=where)


def check(c):
    c.rule("declared", "options and command parameters correspond one to one")
    c.rule("arrives", "the option's value arrives unchanged at the library parameter of its meaning")
    c.rule("unset", "an option left unset leaves the library's default")
    c.rule("decides", "a switch decides the step it documents, in the documented sense")
    c.rule("path", "output options determine the paths written")
    c.rule("exists", "every library operation the commands call exists")
    c.rule("binds", "every library operation the commands call accepts its arguments")
    cmds = commands(c)
    for name, table in LIB.items():
        if name not in cmds:
            raise AnalysisError(f"command {name} not found")
        cmd = cmds[name]
        it, res, st, evs = cmd.surface()
        opts = {o.param: o for o in cmd.opts}
        params = [p for p in cmd.f.params if p not in ("ctx",)]
        names = set(params)
        for o in cmd.opts:
            c.ob("declared", f"{name}: {o.name}", o.param in cmd.f.params or o.param in cmd.f.kwonly, f"{o.name} is passed as '{o.param}', which the command does not accept")
        for p in params:
            c.ob("declared", f"{name}: parameter {p}", p in opts, f"parameter '{p}' is set by no option")
        for p, sink in table.items():
            if p not in opts:
                c.ob("declared", f"{name}: option {p}", False, f"option --{p.replace('_', '-')} no longer exists")
                continue
            one(c, cmd, opts[p], sink, evs, names, it, st)
        for p in opts:
            if p in table:
                continue
            node = mk("param", p)
            used = any(node in set(walk(x)) for e in evs for x in list(e.args or ()) + list((e.kwargs or {}).values()) + [g for g, _ in e.guards] + ([e.value] if isinstance(e.value, Node) else []))
            c.ob("arrives", f"{name}: {p}", used, f"--{p.replace('_', '-')} is ignored")
        existence(c, cmd, it, evs)
    # metadata of the report
    for name in ("structure", "featurize", "train", "predict", "protocol"):
        cmd = cmds[name]
        it, res, st, evs = cmd.surface()
        for e in evs:
            if e.kind == "call" and tname(e) == "dumpfn" and obj(cmd, "output_status_json") in e.args:
                for s0 in alts(e.args[0]):
                    md = e.heap.get(sub(s0, const("metadata")))
                    if md is not None and md.op == "new":
                        for k in ("run_id", "tags"):
                            v = e.heap.get(sub(md, const(k)))
                            c.ob("arrives", f"{name}: metadata {k}", v is obj(cmd, k), f"the report's {k} is {show(v) if v is not None else 'missing'}", e.where())
    c.need("arrives", 30)
    c.need("binds", 10)


def unset_in(gs, p):
    return any(g is p and not pol or g.op == "cmp" and g.args[0] in ("is", "==") and contains(g.args[1], p) and g.args[2] is NONE and pol for g, pol in gs)


def outside(n, p, skip):
    """p occurs in the value of n, outside gate conditions and outside skipped subterms"""
    if n is p:
        return True
    if not isinstance(n, Node) or skip(n):
        return False
    if n.op == "ite":
        return outside(n.args[1], p, skip) or outside(n.args[2], p, skip)
    def sub_(xs):
        for x in xs:
            if isinstance(x, Node):
                if outside(x, p, skip):
                    return True
            elif isinstance(x, tuple) and sub_(x):
                return True
        return False
    return sub_(n.args)


KEYWORDS = {"all_features": {"HPPCResistanceVoltageFeatures", "DeltaQFastCharge", "DiagnosticSummaryStats", "CycleSummaryStats"},
            "all_targets": {"TrajectoryFastCharge", "DiagnosticProperties"}}


def featurizers(c, cmd, evs, apps, it):
    """which classes are applied, with which hyperparameters"""
    fw, fh = mk("param", "featurize_with"), mk("param", "featurize_with_hyperparams")
    tested = {}
    terms = [e.recv for e in apps if e.recv is not None] + [g for e in evs for g, _ in e.guards] + [a for e in evs if e.kind == "call" for a in list(e.args or ())]
    seen = set()
    for t in terms:
        for x in walk(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "cmp" and x.args[0] in ("in", "==") and is_str(x.args[1]) and contains(x.args[2], fw):
                tested.setdefault(x.args[1].args[0], x)
            if x.op == "ite" and x.args[0].op == "cmp" and x.args[0].args[0] == "in" and is_str(x.args[0].args[1]) and x.args[0].args[2] is fw:
                k = x.args[0].args[1].args[0]
                if k in KEYWORDS:
                    names = {y.args[0] if y.op == "const" else y.args[0].rsplit(".", 1)[-1] for y in walk(x.args[1]) if is_str(y) or y.op == "class"}
                    names &= set().union(*KEYWORDS.values())
                    if names:
                        c.ob("arrives", f"featurize: {k}", names == KEYWORDS[k], f"'{k}' applies {sorted(names)}")
    if tested:
        for k in KEYWORDS:
            c.ob("arrives", f"featurize: {k} recognised", k in tested, f"'-f {k}' is not recognised")
    isdef = lambda n: n.op == "attr" and n.args[1] == "DEFAULT_HYPERPARAMETERS"
    for e in apps:
        hp = (e.kwargs or {}).get("hyperparameters")
        if hp is None:
            continue
        ok = outside(hp, fh, isdef)
        inside = set(walk(hp))
        for m in evs:
            if m.kind == "call" and m.recv is not None and m.target == "update" and m.args:
                if m.recv in inside or any(m.recv is x for x in alts(hp)):
                    if contains(m.args[0], fh):
                        ok = True
                if contains(m.recv, fh) and not any(isdef(x) for x in walk(m.recv)) and any(isdef(x) for x in walk(m.args[0])):
                    c.ob("arrives", "featurize: hyperparameters override", False, "the defaults override the hyperparameters given", m.where())
            elif m.kind == "store" and m.base in inside and isinstance(m.value, Node) and contains(m.value, fh):
                ok = True
        if any(x.op in ("unk",) for x in inside):
            ok = True
        c.ob("arrives", "featurize: hyperparameters given", ok, "the hyperparameters given with --featurize-with-hyperparams never reach the featurizer", e.where())


def flows(n, p):
    return contains(n, p)


def one(c, cmd, o, sink, evs, names, it, st):
    p = mk("param", o.param)
    lab = f"{cmd.name}: {o.param}"
    kind = sink[0]
    if kind == "arg":
        cs = callee_events(c, evs, sink[1])
        if not cs and sink[1] == "autostructure":
            return
        hit = False
        for e in cs:
            v = arg_of(c, e, sink[2])
            if v is None and e.bound is None and e.recv is None and str(e.target).startswith("beep.") and isinstance(c.P.resolve(e.target), Class):
                continue    # the constructor's __init__ event carries the binding
            if v is None:
                continue
            if sink[1] == "from_json_file" and not contains(v, p):
                continue
            hit = True
            d = lib_default(c, e, sink[2])
            arrives(c, "arrives", lab, v, o, names, d, e.where())
            # unset
            unset = o.kw.get("default", NONE)
            if not o.flag and unset is not None and unset.op == "const" and d is not None and not (o.kw.get("required") is TRUE) and o.kind == "option":
                if unset is NONE:
                    # explicit None must not override a default, except None itself
                    gated = any(g.op == "cmp" and g.args[1] is p and g.args[2] is NONE for gs, leaf in guarded_alts(v) for g, _ in gs) or \
                        any(g.op == "cmp" and g.args[1] is p and g.args[2] is NONE and not pol for g, pol in e.guards) or any(g is p for gs, _ in guarded_alts(v) for g, _ in gs)
                    c.ob("unset", lab, d is NONE or gated, f"leaving --{o.param.replace('_', '-')} unset overrides the library default {show(d)} with None", e.where())
                elif d.op == "const":
                    c.ob("unset", lab, d is unset or d.args[0] == unset.args[0], f"--{o.param.replace('_', '-')} defaults to {show(unset)}, the library to {show(d)}", e.where())
            if is_num(o):
                c.ob("arrives", lab + " zero", not any(g is p for g, _ in e.guards), f"--{o.param.replace('_', '-')} 0 is taken as unset", e.where())
        c.ob("arrives", lab + " used", hit, f"--{o.param.replace('_', '-')} never reaches {sink[1]}({sink[2]}=)")
    elif kind == "arg0":
        cs = callee_events(c, evs, sink[1])
        vs = [x for e in cs for x in list(e.args) + list((e.kwargs or {}).values())]
        c.ob("arrives", lab, any(flows(x, p) for x in vs), f"--{o.param.replace('_', '-')} never reaches {sink[1]}")
    elif kind == "in":
        cs = callee_events(c, evs, sink[1])
        for e in cs:
            v = (e.kwargs or {}).get(sink[2]) if sink[2] in (e.kwargs or {}) else (e.args[sink[3]] if len(e.args) > sink[3] else None)
            c.ob("arrives", lab, v is not None and strip_parse(v) is p, f"--{o.param.replace('_', '-')}: {sink[1]} gets {sink[2]}={show(v) if v is not None else None}", e.where())
            c.ob("arrives", lab + " zero", not any(g is p for g, _ in e.guards), f"--{o.param.replace('_', '-')} 0 is taken as unset", e.where())
        if not cs:
            vs = [x for e in callee_events(c, evs, "BEEPLinearModelExperiment") for x in [arg_of(c, e, "alphas")] if x is not None]
            c.ob("arrives", lab, any(flows(x, p) for x in vs), f"--{o.param.replace('_', '-')} never reaches the alpha grid")
        else:
            vs = [x for e in callee_events(c, evs, "BEEPLinearModelExperiment") for x in [arg_of(c, e, "alphas")] if x is not None]
            c.ob("arrives", lab + " used", any(flows(x, p) for x in vs), f"--{o.param.replace('_', '-')} never reaches the model's alphas")
    elif kind == "attr":
        hit = False
        for e in evs:
            if e.kind == "store" and e.how == "attr" and cval(e.key) == sink[1]:
                if contains(e.value, p) or not any(e.value is mk("param", x) for x in ()):
                    hit = True
                    c.ob("arrives", lab, strip_parse(e.value) is p, f"{sink[1]} is set to {show(e.value)}", e.where())
                    extra = [g for g in e.guards if contains(g[0], p)]
                    bad = [g for g in extra if g[0] is p]
                    c.ob("arrives", lab + " zero", not (bad and is_num(o)), f"--{o.param.replace('_', '-')} 0 is taken as unset", e.where())
        c.ob("arrives", lab + " used", hit, f"--{o.param.replace('_', '-')} is ignored")
    elif kind == "guard":
        cs = callee_events(c, evs, sink[1])
        ok = all((p, sink[2]) in e.guards for e in cs)
        c.ob("decides", lab, ok and bool(cs) or (not cs and sink[1] == "autostructure"), f"--{o.param.replace('_', '-')} does not decide whether {sink[1]} runs")
    elif kind == "guardp":
        cs = [e for e in callee_events(c, evs, sink[1]) if (p, sink[2]) in e.guards]
        wrong = [e for e in callee_events(c, evs, sink[1]) if (p, not sink[2]) in e.guards]
        c.ob("decides", lab, bool(cs) and not wrong, f"--{o.param.replace('_', '-')} does not decide whether {sink[1]} writes intermediates")
        if cs and cmd.name == "featurize":
            c.ob("decides", lab + " per featurizer", all(sum(1 for x in e.ctx if x[0] == "loop") >= 2 for e in cs), "not every featurizer's result is saved")
    elif kind == "path":
        ws = [(e, written_path(e)) for e in evs if written_path(e) is not None and tname(e) == sink[1] and obj(cmd, "output_status_json") not in e.args]
        hit = [e for e, w in ws if contains(w, p)]
        c.ob("path", lab, bool(hit), f"--{o.param.replace('_', '-')} does not determine where the result is written")
        if cmd.name == "featurize" and o.param == "output_dir":
            c.ob("path", lab + " everywhere", len(hit) == len(ws), "some output ignores --output-dir", ws[0][0].where() if ws else "")
        for e, w in ws:
            if not contains(w, p):
                continue
            if o.param in ("output_filename",):
                leaves = [strip_parse(l) for _, l in guarded_alts(w) if contains(l, p)]
                c.ob("path", lab + " exact", all(l is p for l in leaves), f"the path written is {show(w)}", e.where())
            if any(x[0] == "loop" for x in e.ctx):
                for x in walk(w):
                    if x.op == "sub" and contains(x.args[0], p):
                        i = x.args[1]
                        c.ob("path", lab + " one per input", not (i.op == "const" and isinstance(i.args[0], int)), f"every input is written to output {show(i)}", e.where())
                    if x.op == "call" and x.args[0] in ("builtins.sorted", "builtins.set", "builtins.reversed", "builtins.frozenset") and contains(x, p):
                        c.ob("path", lab + " in the order given", False, f"the outputs are reordered: {show(x)}", e.where())
            for gs, leaf in guarded_alts(w):
                if o.param == "output_filename" and not contains(leaf, p) and leaf.op not in ("unk", "undef"):
                    c.ob("path", lab + " honoured", unset_in(gs, p) or unset_in(e.guards, p), f"with --{o.param.replace('_', '-')} given, the result may be written to {show(leaf)}", e.where())
                if o.param == "output_filenames" and contains(leaf, p):
                    c.ob("path", lab + " overridden by output_dir", unset_in(gs, mk("param", "output_dir")), "--output-filenames is used although --output-dir is given", e.where())
                if contains(leaf, p):
                    continue
                # the option given, but another path used
                if any(g is p and pol or g.op == "cmp" and g.args[0] == "is" and g.args[1] is p and g.args[2] is NONE and not pol for g, pol in gs) and o.param in ("output_filename", "output_dir") and not (o.param == "output_dir" and any(contains(leaf, mk("param", x)) for x in ("output_filename",))):
                    c.ob("path", lab + " honoured", False, f"with --{o.param.replace('_', '-')} given, the result is written to {show(leaf)}", e.where())
    elif kind == "applied":
        apps = [e for e in evs if e.kind == "call" and e.target == "?" and ("hyperparameters" in (e.kwargs or {}) or len(e.args) >= 2)]
        ok = any(contains(e.recv, p) for e in apps) or any(contains(x, p) for e in apps for x in list(e.args) + list(e.kwargs.values()))
        if not apps:
            ok = any(contains(x, p) for e in evs for x in list(e.args or ()) + list((e.kwargs or {}).values()))
        c.ob("arrives", lab, ok or reach_list(evs, it, apps, p), f"--{o.param.replace('_', '-')} has no influence on the featurizers applied")
        if o.param == "featurize_with_hyperparams":
            featurizers(c, cmd, evs, apps, it)
    elif kind == "any":
        if o.param == "s3_use_cache":
            for e in callee_events(c, evs, sink[1]):
                for a in e.args:
                    for gs, leaf in [(g, l) for x in walk(a) if x.op == "ite" for g, l in guarded_alts(x)]:
                        cache = any(y.op in ("ext", "global") and str(y.args[-1]).endswith("S3_CACHE") for y in walk(leaf))
                        if (p, True) in gs or (p, False) in gs:
                            c.ob("decides", lab, cache == ((p, True) in gs), "--s3-use-cache decides the wrong way", e.where())
        vs = [x for e in evs for x in list(e.args or ()) + list((e.kwargs or {}).values()) if not sink[1] or tname(e) == sink[1]]
        c.ob("arrives", lab, any(flows(x, p) for x in vs), f"--{o.param.replace('_', '-')} is ignored")


def reach_list(evs, it, apps, p):
    """the featurizer list is filled in a loop: does the option reach what is appended?"""
    for e in evs:
        if e.kind == "call" and e.recv is not None and e.target in ("append", "extend", "add"):
            if any(contains(a, p) for a in e.args) or any(contains(g, p) for g, _ in e.guards):
                return True
            if any(x[0] == "loop" and isinstance(x[2], Node) and contains(x[2], p) for x in e.ctx):
                return True
    return False


def existence(c, cmd, it, evs):
    P = c.P
    dp = P.cls("beep.structure.base.BEEPDatapath")
    for e in evs:
        if e.kind != "call":
            continue
        t = e.target
        if e.recv is None and isinstance(t, str) and t.startswith("beep."):
            r = P.resolve(t)
            if isinstance(r, Func):
                c.ob("exists", f"{cmd.name}: {t}", True)
                c.ob("binds", f"{cmd.name}: {t}", e.how is None, f"{t}: {e.how}", e.where())
            elif isinstance(r, Class):
                c.ob("exists", f"{cmd.name}: {t}", True)
            elif r is None and ".<locals>" not in t and not any(t.startswith(f.full + ".") for f in P.module(CMD).funcs.values()):
                c.ob("exists", f"{cmd.name}: {t}", False, f"{t} does not exist", e.where())
        elif e.recv is not None:
            k = it.type_of(e.recv)
            if isinstance(k, Class):
                have = P.find_method(k, t) or P.find_attr(k, t) or any(P.find_method(s, t) for s in P.subclasses(k))
                ext = any(b for x in P.mro(k) for b in x.node.bases if not isinstance(P.lookup_in(x.module, _decname(b) or ""), Class) and (_decname(b) or "") not in ("abc.ABC", "ABC", "MSONable", "object"))
                c.ob("exists", f"{cmd.name}: {k.name}.{t}", bool(have) or ext or t in ("as_dict", "from_dict", "to_json"), f"{k.name} has no operation '{t}'", e.where())
