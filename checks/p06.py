from .cli import *

EXPLANATION = ("Exception-flow analysis of the batch commands and of protocol generation: within each loop over inputs, every "
               "operation on the input lies under a handler that catches every failure; that handler records the failure, and "
               "re-raises exactly when halting was requested; nothing else leaves the loop; the report is written after it; an "
               "interrupt is not recorded as a bad input.")

BATCH = {"structure": ("beep.structure.cli.auto_load",), "featurize": ("beep.structure.cli.auto_load_processed",)}
SINGLE = {"train": "beep.model.BEEPLinearModelExperiment", "predict": "beep.model.BEEPLinearModelExperiment.from_json_file",
          "protocol": "beep.protocol.generate_protocol.generate_protocol_files_from_csv"}
GEN = "beep.protocol.generate_protocol.generate_protocol_files_from_csv"


def loops(e):
    return [x for x in e.ctx if x[0] == "loop" and x[2] != "callback"]


def inside(e, lid):
    return any(x[0] == "loop" and x[1] == lid for x in e.ctx)


def after_loop(e, lid):
    """context elements within the loop"""
    for i, x in enumerate(e.ctx):
        if x[0] == "loop" and x[1] == lid:
            return e.ctx[i + 1:]
    return ()


def entry_guards(evs, lid):
    for e in evs:
        if inside(e, lid):
            return set(e.guards)
    return set()


def input_terms(it, evs, lid):
    """terms of the element the loop is at, and of everything obtained from it by calls in the loop"""
    src = None
    for e in evs:
        for x in e.ctx:
            if x[0] == "loop" and x[1] == lid:
                src = x[2]
    return src


def tainted(e, elems):
    xs = list(e.args or ()) + list((e.kwargs or {}).values()) + ([e.recv] if e.recv is not None else [])
    return any(any(y in elems for y in walk(x)) for x in xs)


def elem_terms(src, it, st):
    """the loop element(s) as terms"""
    out = set()
    el = it.elem(src, st)
    for x in walk(el):
        if x.op in ("elem", "idx", "keyof"):
            out.add(x)
    for x in ([el] if el.op != "tuple" else el.args):
        out.add(x)
    return out


def check_loop(c, label, it, st, evs, lid, halt, must, need_excs=(), records=True):
    """the isolation rules for one loop over inputs"""
    P = c.P
    src = input_terms(it, evs, lid)
    if not isinstance(src, Node):
        return
    elems = elem_terms(src, it, st)
    body = [e for e in evs if inside(e, lid)]
    # values obtained in the loop from the element are tainted through their terms; objects built from it through their site
    objs = set()
    for e in body:
        if e.kind == "call" and e.result is not None and e.result.op == "new" and tainted(e, elems | objs):
            objs.add(e.result)
    hot = elems | objs
    tries = {}
    n = 0
    for e in body:
        inner = after_loop(e, lid)
        if e.kind in ("call", "raise", "assert") and not any(x[0] == "handler" for x in inner):
            if e.kind == "call" and (harmless(e) or exit_call(e) or isinstance(e.target, str) and e.recv is None and e.target.startswith("beep.") and P.resolve(e.target) is not None and e.target not in must):
                continue    # project functions are judged by what they call
            if e.kind == "call" and e.target not in must and not tainted(e, hot):
                continue
            if e.kind == "assert" and not any(y in hot for y in walk(e.value)):
                continue
            n += 1
            ok = False
            for x in inner:
                if x[0] == "try" and catch_all(x[2], P, need_excs) is not None:
                    ok = True
            c.ob("isolated", f"{label}: {e.target if e.kind == 'call' else e.kind} in {e.fn.qual}", ok,
                 f"a failure of {show(e.result) if e.kind == 'call' and e.result is not None else e.kind} for one input ends the batch: no handler inside the loop over inputs catches it", e.where())
        for x in inner:
            if x[0] in ("try", "handler"):
                tries[x[1]] = None
    # leaving the loop
    eg = entry_guards(evs, lid)
    for e in body:
        inner = after_loop(e, lid)
        hs = [x for x in inner if x[0] == "handler"]
        if e.kind == "break" and not any(x[0] == "loop" for x in inner) or e.kind == "return":
            c.ob("loop-complete", f"{label}: {e.kind} in {e.fn.qual}", False, "the batch loop is left before every input was handled", e.where())
        if e.kind == "raise" and hs and not any(x[0] == "try" and catch_all(x[2], P, need_excs) is not None for x in inner):
            onint = all(t == "KeyboardInterrupt" for t in hs[-1][2])
            ok = onint or (halt is not None and (halt, True) in e.guards)
            c.ob("loop-complete", f"{label}: raise in handler of {e.fn.qual}", ok, "a failure for one input is raised out of the batch although halting was not requested", e.where())
        if exit_call(e) and e.kind == "call":
            if hs:
                onint = all(t == "KeyboardInterrupt" for t in hs[-1][2])
                ok = onint or (halt is not None and (halt, True) in e.guards)
                c.ob("loop-complete", f"{label}: exit in handler of {e.fn.qual}", ok, "a failure for one input ends the command although halting was not requested", e.where())
                if onint:
                    code = e.args[0] if e.args else (e.kwargs or {}).get("code", const(0))
                    if e.target in ("exit", "sys.exit"):
                        c.ob("interrupt", f"{label}: exit code", not (code.op == "const" and code.args[0] in (0, None)), "an interrupt ends the command with a success code", e.where())
            elif not any(x[0] == "try" for x in inner):
                c.ob("loop-complete", f"{label}: exit in {e.fn.qual}", False, "the command is ended inside the batch loop", e.where())
    return n


def try_nodes(evs):
    """try id -> handler types, and events of each handler"""
    out = {}
    for e in evs:
        for i, x in enumerate(e.ctx):
            if x[0] == "try":
                out.setdefault(x[1], [x[2], {}, e.ctx[:i]])
            elif x[0] == "handler":
                out.setdefault(x[1], [None, {}, e.ctx[:i]])[1].setdefault(x[2], []).append(e)
    return out


def check_handlers(c, label, it, evs, tids, halt):
    """each catch-all handler re-raises when halting was requested; interrupts are not swallowed"""
    P = c.P
    trys = try_nodes(evs)
    for tid in tids:
        if tid not in trys or trys[tid][0] is None:
            continue
        ht, byh, _ = trys[tid]
        ci = catches(ht, P, "Exception")
        if ci is None:
            continue
        ki = catches(ht, P, "KeyboardInterrupt")
        c.ob("interrupt", f"{label}: handler order", ki is None or all(t == "KeyboardInterrupt" or t == "click.exceptions.Abort" for t in ht[ki]),
             "a keyboard interrupt is handled as a bad input")
        if ki is not None and all(t == "KeyboardInterrupt" for t in ht[ki]):
            h = byh.get(ht[ki], [])
            stops = [e for e in h if (e.kind == "raise" or exit_call(e) and e.kind == "call")]
            c.ob("interrupt", f"{label}: interrupt handler", any(True for e in stops), "a keyboard interrupt does not end the command")
            for e in stops:
                if e.kind == "call" and e.target in ("exit", "sys.exit"):
                    code = e.args[0] if e.args else (e.kwargs or {}).get("code", const(0))
                    c.ob("interrupt", f"{label}: exit code", not (code.op == "const" and code.args[0] in (0, None)), "an interrupt ends the command with a success code", e.where())
        if halt is not None:
            for i in catch_all(ht, P) or ():
                h = byh.get(ht[i], [])
                own = [e for e in h if not any(x[0] == "handler" and x[1] != tid for x in e.ctx)]
                ok = False
                for e in own:
                    if e.kind == "raise" and (e.exc.op in ("reraise", "exc") or True):
                        base = set(own[0].guards)
                        extra = [g for g in e.guards if g not in base and g != (halt, True)]
                        if (halt, True) in e.guards and not extra:
                            ok = e.exc.op == "reraise" or e.exc is mk("exc", tid) or e.exc.op in ("new", "call")
                c.ob("halt", f"{label}: {'/'.join(ht[i])} handler", ok, "with --halt-on-error a failure is recorded and passed over instead of being raised")


def report_written(c, cmd, evs):
    osj = obj(cmd, "output_status_json")
    ex = early_exits(evs)
    hits = [e for e in evs if e.kind == "call" and e.recv is None and isinstance(e.target, str) and e.target.endswith((".dumpfn", "json.dump")) and (osj in e.args or osj in (e.kwargs or {}).values())]
    hits += [e for e in evs if e.kind == "call" and e.recv is not None and e.target in ("to_json", "write_text") and osj in (list(e.args) + [e.recv])]
    ok = False
    why = "no status report is written"
    for e in hits:
        bad = []
        for g in e.guards:
            if g[0] is osj or g == (cmp_("is", osj, NONE), False) or g == (cmp_("==", osj, NONE), False):
                continue
            if exit_guard(g, ex) or g[0].op == "const":
                continue
            bad.append(g)
        inloop = [x for x in e.ctx if x[0] in ("loop", "try", "handler")]
        if not bad and not any(x[0] == "handler" for x in inloop):
            ok = True
        else:
            why = "the status report is written only under a further condition: " + ", ".join(("" if p else "not ") + show(g) for g, p in bad)
    c.ob("report", f"{cmd.name}", ok, why, hits[0].where() if hits else "")


def check(c):
    c.rule("isolated", "inside a loop over inputs, every operation on the input is under a handler, within the loop, that catches every failure")
    c.rule("loop-complete", "nothing but a requested halt or an interrupt leaves the loop over inputs early")
    c.rule("halt", "each catch-all handler of a batch raises the failure exactly when halting was requested")
    c.rule("interrupt", "a keyboard interrupt ends the command with a failing code and is never handled as a bad input")
    c.rule("recorded", "each failure is recorded in the entry of its input")
    c.rule("report", "the status report is written whenever one was asked for")
    cmds = commands(c)
    bx = base_exceptions(c.P)
    for name, anchors in BATCH.items():
        if name not in cmds:
            raise AnalysisError(f"command {name} not found")
        cmd = cmds[name]
        it, res, st, evs = cmd.run()
        halt = obj(cmd, "halt_on_error")
        lids = {}
        for e in evs:
            if e.kind == "call" and e.target in anchors:
                ls = loops(e)
                if ls:
                    lids[ls[0][1]] = name
        if name == "featurize":
            for e in evs:
                if e.kind == "call" and e.recv is not None and e.target == "create_features":
                    for l in loops(e):
                        lids.setdefault(l[1], name + " (featurizers)")
        c.ob("isolated", f"{name}: loop over inputs", bool(lids), "no loop over the input files loads them")
        used = set()
        for lid, label in lids.items():
            raised = [x for x in bx if x.rsplit(".", 1)[-1] in raised_in(evs, lid)]
            check_loop(c, label, it, st, evs, lid, halt, set(anchors), raised)
            for e in evs:
                if inside(e, lid):
                    used |= {x[1] for x in after_loop(e, lid) if x[0] == "try"}
            # the entry of every input reaches the report
        check_handlers(c, name, it, evs, used, halt)
        recorded(c, name, it, evs, used)
        report_written(c, cmd, evs)
        # whole-command tries outside the loop (feature matrix)
        outer = {x[1] for e in evs for x in e.ctx if x[0] == "try"} - used
        check_handlers(c, name + " (after the loop)", it, evs, outer, halt)
    for name, anchor in SINGLE.items():
        if name not in cmds:
            raise AnalysisError(f"command {name} not found")
        cmd = cmds[name]
        it, res, st, evs = cmd.run()
        halt = obj(cmd, "halt_on_error")
        tids = set()
        for e in evs:
            if e.kind == "call" and e.target == anchor and len(e.stack) == 1 or e.kind == "call" and e.target == anchor:
                own = [x for x in e.ctx if x[0] == "try"]
                tids |= {x[1] for x in own[:1]}
                c.ob("isolated", f"{name}: {anchor.rsplit('.', 1)[-1]}", bool(own) and catch_all(own[0][2], c.P, [x for x in bx if x.endswith(("ProtocolException", "BEEPFeaturizationError"))]) is not None,
                     "a failure of the operation is not caught and recorded in the status report", e.where())
        check_handlers(c, name, it, evs, tids, halt)
        recorded(c, name, it, evs, tids)
        report_written(c, cmd, evs)
    # protocol generation: one bad row
    f = c.func(GEN)
    it = c.interp()
    res, st, evs = c.run(it, f)
    lids = set()
    for e in evs:
        if e.kind == "call" and (e.target == "to_file" or isinstance(e.target, str) and e.target.endswith(".to_file")):
            for l in loops(e):
                lids.add(l[1])
    c.ob("isolated", "protocol rows: loop", bool(lids), "no loop over the parameter rows writes protocols")
    for lid in lids:
        check_loop(c, "protocol rows", it, st, evs, lid, None, set())
    check_handlers(c, "protocol rows", it, evs, {x[1] for e in evs for lid in lids if inside(e, lid) for x in after_loop(e, lid) if x[0] == "try"}, None)
    c.need("isolated", 10)
    c.need("halt", 4)
    c.need("interrupt", 5)
    c.need("report", 5)


def raised_in(evs, lid):
    out = set()
    for e in evs:
        if e.kind == "raise" and inside(e, lid) and e.exc.op in ("new", "class", "call"):
            out.add(str(e.exc.args[0]).rsplit(".", 1)[-1])
    return out


def recorded(c, label, it, evs, tids):
    trys = try_nodes(evs)
    for tid in tids:
        if tid not in trys or trys[tid][0] is None:
            continue
        ht, byh, _ = trys[tid]
        for i in catch_all(ht, c.P) or ():
            h = [e for e in byh.get(ht[i], [])]
            ok = False
            for e in h:
                if e.kind == "store" and cval(e.key) == "traceback" and e.value is not NONE:
                    extra = [g for g in e.guards if g not in set(h[0].guards)]
                    if all("halt_on_error" in show(g) for g, _ in extra):
                        ok = True
            c.ob("recorded", f"{label}: {'/'.join(ht[i])} handler", ok, "a failure is not recorded with its traceback")
