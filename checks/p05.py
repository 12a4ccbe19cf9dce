import ast

from .common import *
from vfa.effects import mutations, roots
from vfa.project import _decname

EXPLANATION = ("Escape and mutation analysis of every function and method in the package, callees inlined: each store, deletion or in-place call is resolved "
               "to the access path of the object it changes. None may change an object that outlives the call and is shared: module globals, class "
               "attributes, default argument values, attributes of modules, classes or functions, or the same objects reached through an instance attribute "
               "that aliases them. Process-wide switches (environment, working directory, library options, global random state) must not be changed, and "
               "results that are mutable or read from files must not be memoised.")

PROCESS = {"os.putenv", "os.unsetenv", "os.chdir", "os.fchdir", "os.umask", "numpy.seterr", "numpy.random.seed", "numpy.random.set_state", "random.seed",
           "random.setstate", "pandas.set_option", "pandas.reset_option", "numpy.set_printoptions", "warnings.resetwarnings", "locale.setlocale",
           "socket.setdefaulttimeout", "sys.setrecursionlimit", "logging.disable", "time.tzset", "os.nice", "numpy.seterrcall", "sys.path.append", "sys.path.insert",
           "decimal.setcontext", "mimetypes.add_type", "codecs.register", "numpy.set_string_function", "pandas.options"}
MEMO = {"lru_cache", "cache", "functools.lru_cache", "functools.cache", "memoize", "cachetools.cached", "pydash.memoize", "joblib.Memory.cache", "cached_property_class"}
READERS = ("open", "read_csv", "loadfn", "load", "safe_load", "read_json", "listdir", "glob", "loadtxt", "genfromtxt", "read_pickle", "read_excel", "read_hdf", "getmtime", "stat")
SHARED = ("global", "default", "module", "class", "func")


def shared(r, P):
    if r.op == "ext":
        return True
    return r.op in SHARED


def mutable_defaults(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(d, ast.Call) and _decname(d.func) in ("list", "dict", "set", "OrderedDict", "defaultdict", "collections.OrderedDict"):
            out[p] = d
        elif isinstance(d, (ast.Name, ast.Attribute)):
            out[p] = d
    return out


def check(c):
    c.rule("shared-state", "no function changes an object shared between calls (module globals, class attributes, default values, module/class/function attributes)")
    c.rule("process-state", "no function changes process-wide settings")
    c.rule("memoised", "no function whose result is mutable or read from files is memoised")
    P = c.P
    types = {}
    for m in P.modules.values():
        for n, vals in m.assigns.items():
            if len(vals) == 1 and isinstance(vals[0], ast.Call):
                d = _decname(vals[0].func)
                k = P.lookup_in(m, d) if d else None
                if isinstance(k, Class):
                    types[mk("global", m.name + "." + n)] = k
    # instance attributes that alias shared objects
    alias = {}
    runs = []
    seen = set()
    jobs = [(f, f.cls) for f in P.all_funcs()]
    for k in P.all_classes():
        for b in P.mro(k)[1:]:
            for n, f in b.methods.items():
                if P.find_method(k, n) is f and not f.is_static:
                    jobs.append((f, k))
    for f, k in jobs:
        if (f.full, k.full if k else None) in seen:
            continue
        seen.add((f.full, k.full if k else None))
        args = {}
        for p in mutable_defaults(f):
            args[p] = ite(mk("given", f.full, p), mk("param", p), default_of(P, f, p))
        it = c.interp(types=dict(types))
        me = mk("param", "self") if k is not None and not f.is_static and not f.is_classmethod else None
        if me is not None:
            _, st, evs = c.run(it, f, self_node=me, cls=k, args=args)
        else:
            _, st, evs = c.run(it, f, cls=k, args=args)
        runs.append((f, k, me, evs))
        if me is not None:
            for loc, v in st.heap.items():
                if loc.op == "attr" and loc.args[0] is me and isinstance(v, Node):
                    for r, p in roots(v):
                        if r.op in ("global", "default"):
                            alias.setdefault((k.full, loc.args[1]), set()).add((r, p))
    for f, k, me, evs in runs:
        al = {}
        if k is not None:
            for b in P.mro(k):
                for (kf, a), v in alias.items():
                    if kf == b.full:
                        al.setdefault("." + str(a), set()).update(v)
        for m in mutations(evs, dicts=lambda r, p: r.op in ("global", "default")):     # shared containers are dicts: copy() is shallow
            r, p = m.root, m.path
            if m.via == "aug" and not p and r.op not in ("global", "default"):
                continue
            tgt = None
            if shared(r, P):
                if r.op == "ext" and (not p and m.rebind is None):
                    continue
                if r.op in ("func", "class", "module", "ext") and not p and m.rebind is None:
                    continue
                if r.op == "ext" and p and p[0] == ".":
                    continue
                tgt = m.target()
                if r.op == "global":
                    tgt = r.args[0] + "".join(p)
                elif r.op == "default":
                    tgt = f"default of {r.args[0]}({r.args[1]})" + "".join(p)
            elif me is not None and r is me and p and p[0] in al:
                x, q = sorted(al[p[0]], key=lambda t: t[0].uid)[0]
                tgt = f"{show(x)} through self{''.join(p)}"
            if tgt:
                c.ob("shared-state", f"{m.ev.fn.qual}:{tgt}", False, f"{m.what} on {tgt} (reached from {f.full})", m.ev.where())
        c.ob("shared-state", f.full + (f" on {k.name}" if k is not None and k is not f.cls else ""), True)
        for e in evs:
            if e.kind == "call" and e.recv is None and isinstance(e.target, str) and e.target in PROCESS:
                c.ob("process-state", f"{e.fn.qual}:{e.target}", False, f"call of {e.target}", e.where())
            elif e.kind == "call" and e.recv is not None and e.recv.op == "ext" and (e.recv.args[0] + "." + e.target) in PROCESS:
                c.ob("process-state", f"{e.fn.qual}:{e.target}", False, f"call of {e.recv.args[0]}.{e.target}", e.where())
        c.ob("process-state", f.full, True)
        if not isinstance(f.node, ast.Lambda):
            for d in f.node.decorator_list:
                nm = _decname(d.func if isinstance(d, ast.Call) else d) or ""
                full = f.module.imports.get(nm.split(".")[0], nm.split(".")[0])
                if nm in MEMO or full in MEMO or nm.split(".")[-1] in ("lru_cache", "cache", "memoize"):
                    why = None
                    for e in evs:
                        if e.kind == "call" and isinstance(e.target, str) and e.target.split(".")[-1] in READERS:
                            why = f"it reads files ({e.target})"
                        if e.kind == "return" and e.value is not None:
                            for x in alts(e.value):
                                if x.op in ("new", "list", "set", "comp") or x.op in ("global", "default", "sub", "attr"):
                                    why = why or f"its result {show(x, 6)} is a mutable object shared by every caller"
                    c.ob("memoised", f.full, why is None, f"{f.full} is memoised although {why}", f.where())
    c.need("shared-state", 300)


def default_of(P, f, p):
    return mk("default", f.full, p)
