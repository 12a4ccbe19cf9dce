import ast

from .cli import *
from vfa.paths import Paths, St, Opaque, Const, Box, TooMany

EXPLANATION = ("Path enumeration, with the exceptional paths and with local and same-module helpers inlined, through what protocol generation does for one "
               "parameter row: every path must end as written-then-listed or as a recorded failure, exactly one of the two. Plus dataflow rules: every "
               "row is visited, rows share no modified state, the overall result follows the failures, and the command reports both lists.")

GEN = "beep.protocol.generate_protocol.generate_protocol_files_from_csv"
DROPS = {"dropna", "drop_duplicates", "head", "tail", "sample", "query", "drop", "iloc", "loc", "truncate", "nlargest", "nsmallest", "where", "filter", "groupby"}


def module_consts(f):
    """names bound once, at module level, to a constant"""
    out, seen = {}, {}
    for st in f.module.tree.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                seen[n.id] = seen.get(n.id, 0) + 1
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = st.value.value
    return {k: v for k, v in out.items() if seen.get(k) == 1}


def check(c):
    c.rule("one-outcome", "every path through the handling of one row ends as a listed file or as a recorded failure, never both or neither")
    c.rule("written-first", "a file is listed as generated only after it was written, under the very name it was written to")
    c.rule("overall", "a failed row makes the overall result an error, a generated one does not")
    c.rule("all-rows", "every row of the table is handled, and no path leaves the loop early")
    c.rule("row-alone", "no object one row modifies is read for the next")
    c.rule("labelled", "each recorded failure is a new entry with its comment and error")
    c.rule("reported", "the command reports every generated file as generated and every failure as not generated")
    f = c.func(GEN)
    from_list = dataflow(c, f)
    outcome(c, f, from_list)
    command(c)


# ---------------------------------------------------------------- the row, path by path
def returned_names(f):
    """the names in the four places of what is returned"""
    out = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) >= 3:
            if all(isinstance(x, ast.Name) for x in n.value.elts[:2]):
                out = [x.id if isinstance(x, ast.Name) else None for x in n.value.elts]
    return out


def outcome(c, f, from_list):
    names = returned_names(f)
    if not names:
        c.notes.append("the generated and failed lists are not returned by name: row paths not analysed")
        return
    good, bad, res = names[0], names[1], names[2]
    marks = {}
    writes = {}

    def on_call(n, d, args, rv, st):
        if isinstance(rv, Opaque) and rv.label in ("<good>", "<bad>") and d.endswith(".append"):
            return ("S" if rv.label == "<good>" else "F", args[0] if args else None, n.lineno), False
        if d.split(".")[-1] in ("to_file", "to_json_file") and isinstance(n.func, ast.Attribute):
            a = args[0] if args else None
            return ("W", a, n.lineno), True
        return None

    def on_assign(name, v, st):
        if name == res and isinstance(v, Const) and v.v == "error":
            return ("E",)
        return None

    funcs = {g.node.name: g.node for g in f.module.funcs.values() if hasattr(g, "node") and g.full != f.full} if hasattr(f.module, "funcs") else {}
    P = Paths(funcs, on_call, on_assign=on_assign, limit=400000, exc_ok=lambda name: not base_exc(c, f, name), consts=module_consts(f))
    # statements before the loop set up names; the loop is the one whose paths reach the lists
    frame = {}
    loops = []
    for s in f.node.body:
        if isinstance(s, ast.FunctionDef):
            from vfa.paths import Fn
            frame[s.name] = Fn(s, 1)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For,)) and n not in [m for s in f.node.body if isinstance(s, ast.FunctionDef) for m in ast.walk(s)]:
            loops.append(n)
    done = 0
    for loop in loops:
        fr = dict(frame)
        for a in ast.walk(f.node):
            if isinstance(a, ast.Name) and isinstance(a.ctx, ast.Store) and a.id not in fr:
                fr[a.id] = Opaque(a.id)
        fr[good], fr[bad] = Opaque("<good>"), Opaque("<bad>")
        if res:
            fr[res] = Opaque("result")
        st = St([fr])
        P.bind(st, loop.target, Opaque("row"))
        try:
            outs = list(P.block(loop.body, st))
        except TooMany:
            c.notes.append("too many paths through a row")
            continue
        if not any(ev[0] in "SF" for _, s, _ in outs for ev in s.trace):
            continue
        done += 1
        later_result = from_list or not any(ev[0] == "E" for _, s, _ in outs for ev in s.trace)
        for i, (k, s, v) in enumerate(outs):
            tr = [ev for ev in s.trace]
            S = [e for e in tr if e[0] == "S"]
            F = [e for e in tr if e[0] == "F"]
            W = [e for e in tr if e[0] == "W"]
            what = path_name(tr, k, v)
            w = f"{f.module.rel}:{(tr[-1][2] if tr and len(tr[-1]) > 2 else loop.lineno)} in {f.qual}"
            if k == "raise":
                c.ob("one-outcome", f"row ends in a raise of {v}", False, f"an error ({v}) while handling one row stops the remaining rows", w)
                continue
            if k in ("break", "return"):
                c.ob("all-rows", f"row loop left by {k}", False, "the remaining rows are not handled", w)
                continue
            c.ob("one-outcome", what, len(S) + len(F) == 1,
                 "a row ends with no outcome: neither listed nor recorded as failed" if not S and not F else
                 "a row ends both as generated and as failed" if S and F else "a row is recorded more than once", w)
            if S:
                before = [e for e in tr[:tr.index(S[0])] if e[0] == "W"]
                c.ob("written-first", what, bool(before) and any(e[1] is S[0][1] for e in before),
                     "a file is listed that this path did not write" if not before else "the name listed is not the name written to", w)
            elif W and F:
                pass
            if not later_result:
                c.ob("overall", what, ("E",) in tr if F else ("E",) not in tr,
                     "a failed row leaves the overall result a success" if F else "a generated row turns the overall result into an error", w)
    if not done:
        c.notes.append("no loop fills the two lists: row paths not analysed")


def path_name(tr, k, v):
    m = {"S": "listed", "F": "failed", "W": "written", "E": "error"}
    return ",".join(m[e[0]] for e in tr) or "nothing"


def base_exc(c, f, name):
    """the exception is not an Exception"""
    import builtins
    b = getattr(builtins, name, None)
    if isinstance(b, type):
        return not issubclass(b, Exception)
    try:
        k = c.P.cls(f.module.name + "." + name)
    except Exception:
        return False
    seen = set()
    while k is not None and k.full not in seen:
        seen.add(k.full)
        nxt = None
        for b in k.node.bases:
            nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ""
            bb = getattr(builtins, nm, None)
            if isinstance(bb, type):
                return not issubclass(bb, Exception)
            try:
                nxt = c.P.cls(k.module.name + "." + nm)
            except Exception:
                pass
        k = nxt
    return False


# ---------------------------------------------------------------- across rows
def dataflow(c, f):
    it = c.interp(inline_pred=lambda g: g.module is f.module and g.cls is None or g.module.name == "beep.protocol.biologic")
    res, st, evs = c.run(it, f)
    S = F = R = None
    if res.op == "tuple" and len(res.args[0] if isinstance(res.args[0], tuple) else res.args) >= 3:
        xs = res.args[0] if isinstance(res.args[0], tuple) else res.args
        S, F, R = xs[0], xs[1], xs[2]
    acts = [e for e in evs if e.kind == "call" and tname(e) == "append" and e.recv in (S, F)]
    loops = {}
    for e in acts:
        for x in e.ctx:
            if x[0] == "loop":
                loops[x[1]] = x[2]
                break
    for n, src in loops.items():
        bad = None
        for x in walk(src):
            if x.op == "meth" and x.args[1] in DROPS:
                bad = x.args[1]
            elif x.op == "attr" and x.args[1] in ("iloc", "loc"):
                bad = x.args[1]
            elif x.op == "sub" and x.args[0].op != "sub":
                bad = "a selection"
            elif x.op in ("call", "meth"):
                kw = dict(x.args[-1]) if isinstance(x.args[-1], tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in x.args[-1]) else {}
                for k in kw:
                    if k in ("nrows", "skiprows", "on_bad_lines", "error_bad_lines", "skipfooter"):
                        bad = k
        c.ob("all-rows", f"rows handled", bad is None, f"not every row of the table is handled: {bad}", f"{f.module.rel}:{f.qual}")
        # objects that exist before the loop and change inside it
        inner = [e for e in evs if any(x[0] == "loop" and x[1] == n for x in e.ctx)]
        first = min((e.idx for e in inner), default=0)
        changed = {}
        for e in inner:
            b = None
            if e.kind in ("store", "aug", "del"):
                b = root(e.base)
            elif e.kind == "call" and tname(e) in ("append", "update", "extend", "pop", "set", "insert", "setdefault", "clear", "remove", "add") and e.recv is not None:
                b = root(e.recv)
            elif e.kind == "call" and e.target.startswith("beep.") and e.args and (tname(e) in ("set", "unset") or tname(e).startswith(("generate_procedure", "modify_", "insert_", "add_procedure"))):
                b = root(e.args[0])
            if b is None or b in (S, F) or b.op not in ("new", "call", "global") or depends(b, src):
                continue
            if b.op == "new" and b.args[1] >= n or b.op == "call" and b in {x.result for x in inner if x.kind == "call"}:
                continue
            changed.setdefault(b, e)
        for b, e in changed.items():
            readers = [x for x in inner if x.kind == "call" and x is not e and any(b is y for a in list(x.args or ()) + list((x.kwargs or {}).values()) for y in walk(a))
                       or x.kind in ("store",) and x is not e and any(y is b for y in walk(x.value))]
            readers += [x for x in inner if x.kind == "call" and x.recv is not None and root(x.recv) is b and tname(x) not in ("append", "add", "extend", "update", "clear")]
            c.ob("row-alone", f"{show(b, 3)}", not readers, "an object one row modifies is used again for the next row", e.where())
        c.ob("row-alone", "row loop", True, "", "")
    for e in acts:
        if e.recv is F:
            v = e.args[0]
            if v.op != "new":
                continue
            keys = {k for k in ("comment", "error") if (e.heap or {}).get(sub(v, const(k))) not in (None, ABSENT)}
            where = "handler" if any(x[0] == "handler" for x in e.ctx) else "row"
            c.ob("labelled", f"failure recorded in {e.fn.qual}:{where}", keys == {"comment", "error"}, "a failure is recorded without its comment or error", e.where())
    if R is not None and F is not None:
        # decided by marks in the loop (checked path by path) or by the failures themselves
        ok = any(x.op == "const" and x.args[0] == "error" for x in walk(R)) or depends(R, F)
        c.ob("overall", "result returned", ok and not (R.op == "const"), "the overall result does not depend on the failures", f"{f.module.rel}:{f.qual}")
    return R is not None and F is not None and depends(R, F)


def root(n):
    while n is not None and n.op in ("sub", "attr"):
        n = n.args[0]
    return n


def depends(n, src):
    return any(x is src for x in walk(n))


# ---------------------------------------------------------------- the command
def command(c):
    cmds = commands(c)
    if "protocol" not in cmds:
        raise AnalysisError("command protocol not found")
    it, res, st, evs = cmds["protocol"].surface()
    calls = [e for e in evs if e.kind == "call" and tname(e) == "generate_protocol_files_from_csv"]
    c.ob("reported", "protocol: generation", bool(calls), "the command does not generate protocols")
    for call in calls:
        r = call.result
        for i, val, text in ((0, TRUE, "generated file"), (1, FALSE, "failure")):
            src = sub(r, const(i))
            hits = [e for e in evs if e.kind == "store" and any(x[0] == "loop" and depends(x[2], src) for x in e.ctx) and flag(e, val)
                    and (any(depends_elem(y, src) for y in walk(e.key)) or any(y.op == "idx" and depends(y, src) for y in walk(e.key)))]
            wrong = [e for e in evs if e.kind == "store" and any(depends_elem(y, src) for y in walk(e.key)) and flag(e, FALSE if val is TRUE else TRUE)]
            whole = [e for e in hits if all(g in call.guards or about(g[0], src) for g in e.guards)]
            c.ob("reported", f"protocol: each {text}", bool(whole) and not wrong, f"a {text} is not reported as {'generated' if val is TRUE else 'not generated'}", call.where())
            for e in hits:
                if i == 1:
                    c.ob("reported", "protocol: failures kept apart", any(x.op in ("idx", "mu") for x in walk(e.key)),
                         "failures with the same text overwrite each other in the status", e.where())


def about(g, src):
    """the condition only asks whether there are any"""
    if g.op == "not":
        return about(g.args[0], src)
    if g.op == "cmp":
        return about(g.args[1], src) or about(g.args[2], src)
    if g.op == "call" and g.args[0] == "builtins.len":
        return about(g.args[1][0], src)
    return g is src or g.op == "phi" and any(x is src for x in g.args) and all(x is src or x.op == "new" for x in g.args)


def depends_elem(y, src):
    return y.op in ("elem", "items", "keyof") and depends(y, src) or y.op == "sub" and y.args[0].op == "elem" and depends(y, src)


def flag(e, val):
    x = e.heap.get(sub(e.value, const("generated"))) if e.heap and e.value.op == "new" else None
    return x is val
