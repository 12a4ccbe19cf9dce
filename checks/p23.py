"""P23: inputs are never written; files appear only where they were asked for; no network, no execution of content."""
import ast

from .common import *
from .p26 import children

EXPLANATION = ("Every function and method of the package (infrastructure utilities and tests aside) is interpreted abstractly with its callees inlined. Each call that creates, "
               "changes or deletes a file is collected with the term of its path, and the path is traced to its origin: the directory must come from an output argument, the "
               "working directory of the command line, or a scratch directory, never from a path the same operation reads; a name taken from an input's must be altered. Network calls must be "
               "guarded by the option that asks for them, and nothing evaluates, unpickles or executes data.")

SKIP = ("beep.utils", "beep.tests")
OPENERS = {"builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "monty.io.zopen", "os.open", "zipfile.ZipFile", "tarfile.open"}
# target -> position of the path that is written
WRITES = {"monty.serialization.dumpfn": 1, "numpy.save": 0, "numpy.savez": 0, "numpy.savez_compressed": 0, "numpy.savetxt": 0, "os.makedirs": 0, "os.mkdir": 0, "monty.os.makedirs_p": 0,
          "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1, "shutil.copytree": 1, "os.symlink": 1, "os.link": 1, "os.truncate": 0, "logging.FileHandler": 0, "os.chmod": 0, "os.utime": 0,
          "os.chown": 0, "joblib.dump": 1, "shutil.move": 1, "os.rename": 1, "os.replace": 1, "monty.shutil.copy_r": 1, "shutil.make_archive": 0, "monty.shutil.gzip_dir": 0, "monty.shutil.compress_file": 0,
          "beep.utils.s3.download_s3_object": 2, "shutil.copymode": 1, "shutil.copystat": 1}
FRAME = {"to_csv", "to_json", "to_excel", "to_pickle", "to_parquet", "to_feather", "to_hdf", "to_html", "to_latex", "to_stata", "to_xml", "to_markdown", "savefig", "tofile"}
PATHM = {"write_text", "write_bytes", "touch", "mkdir", "symlink_to", "hardlink_to", "chmod"}
DELETES = {"os.remove": 0, "os.unlink": 0, "os.rmdir": 0, "os.removedirs": 0, "shutil.rmtree": 0, "shutil.move": 0, "os.rename": 0, "os.replace": 0, "monty.shutil.remove": 0}
DELM = {"unlink", "rmdir"}
READS = {"monty.serialization.loadfn": 0, "numpy.loadtxt": 0, "numpy.genfromtxt": 0, "numpy.load": 0, "numpy.fromfile": 0, "xmltodict.parse": None, "h5py.File": 0}
NETWORK = ("boto3.", "botocore.", "requests.", "urllib.request.", "http.client.", "socket.", "ftplib.", "paramiko.", "smtplib.", "beep.utils.s3.", "beep.utils.project_transfer.", "beep.utils.retrigger.", "urllib3.", "httpx.", "aiohttp.")
EXEC = {"builtins.eval", "builtins.exec", "builtins.compile", "pickle.load", "pickle.loads", "pickle.Unpickler", "pandas.read_pickle", "joblib.load", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "marshal.load",
        "marshal.loads", "shelve.open", "os.system", "os.popen", "runpy.run_path", "runpy.run_module", "yaml.unsafe_load", "pandas.eval", "code.interact", "os.execv", "os.execvp", "os.spawnv", "types.FunctionType"}
SAME = {"os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser", "os.path.expandvars", "builtins.str", "os.fspath", "pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"}
LISTS = {"builtins.list", "builtins.sorted", "builtins.tuple", "builtins.reversed", "builtins.set", "tqdm.tqdm", "beep.tqdm", "builtins.iter", "itertools.chain"}


def scope(f):
    m = f.module.name
    return not any(m == s or m.startswith(s + ".") for s in SKIP)


def origin(t, d=0):
    """where the directory of a path comes from: {('param', n) | ('self', show) | ('ctx',) | ('const', text) | ('global', n) | ('temp',) | ('unknown',)}"""
    if d > 30:
        return {("unknown",)}
    o, a = t.op, t.args
    if o == "param":
        return {("param", a[0])}
    if o == "const":
        return {("const", a[0])} if isinstance(a[0], str) else set()
    if o in ("global", "ext"):
        return {("global", a[0])}
    if o == "name":
        return {("global", a[0])}
    if o == "attr":
        r = t
        while r.op == "attr":
            r = r.args[0]
        if a[1] in ("parent", "absolute"):
            return origin(a[0], d + 1)
        if r.op == "param":
            if r.args[0] == "self":
                return {("self", show(t, 4))}
            return {("ctx",)} if r.args[0] == "ctx" else {("param", r.args[0])}
        return {("unknown",)}
    if o == "call":
        n, args = a[0], a[1]
        if n in SAME and args or n in LISTS and args:
            return origin(args[0], d + 1)
        if n == "os.path.join" and args:
            first = origin(args[0], d + 1)
            return first
        if n in ("os.path.dirname", "os.path.splitext", "os.path.split") and args:
            return origin(args[0], d + 1)
        if n == "os.path.basename":
            return {("const", "a bare file name")}
        if n in ("os.getcwd", "pathlib.Path.cwd"):
            return {("cwd",)}
        if n.startswith(("tempfile.", "monty.tempfile.")):
            return {("temp",)}
        if n == "builtins.enumerate" or n == "builtins.zip":
            return set().union(*[origin(x, d + 1) for x in args]) if args else {("unknown",)}
        return {("unknown",)}
    if o == "meth":
        if a[1] in ("strip", "rstrip", "lstrip", "with_suffix", "with_name", "joinpath", "absolute", "resolve", "expanduser", "replace", "split", "rsplit", "partition", "rpartition", "removesuffix", "lower", "copy", "__enter__"):
            return origin(a[0], d + 1)
        if a[1] == "format" and a[0].op == "const" and isinstance(a[0].args[0], str):
            return origin(a[2][0], d + 1) if a[0].args[0].startswith("{") and a[2] else {("const", a[0].args[0])}
        return {("unknown",)}
    if o == "str":
        parts = a[0] if a and isinstance(a[0], tuple) else a
        return origin(parts[0], d + 1) if parts else set()
    if o == "fmt":
        return origin(a[0], d + 1)
    if o == "bin" and a[0] in ("+", "/"):
        if a[1].op in ("list", "comp", "new"):
            return origin(a[1], d + 1) | origin(a[2], d + 1)
        return origin(a[1], d + 1)
    if o in ("elem", "valuesview", "keyof", "keysview", "items"):
        return origin(a[0], d + 1)
    if o in ("sub", "get"):
        b, k = a[0], a[1]
        if b.op == "call" and b.args[0] == "os.path.split" and cval(k) in (1, -1):
            return {("const", "a bare file name")}
        if b.op == "call" and b.args[0] == "builtins.zip" and isinstance(cval(k), int) and cval(k) < len(b.args[1]):
            return origin(b.args[1][cval(k)], d + 1)
        if b.op == "meth" and b.args[1] in ("split", "rsplit", "partition", "rpartition") and cval(k) not in (0,):
            return {("const", "part of a name")}
        return origin(b, d + 1)
    if o in ("list", "tuple"):
        xs = a[0] if a and isinstance(a[0], tuple) else a
        return set().union(*[origin(x, d + 1) for x in xs if hasattr(x, "op")]) if xs else set()
    if o == "comp":
        e = a[1]
        e = e[0] if isinstance(e, tuple) and e else e
        return origin(e, d + 1) if hasattr(e, "op") else {("unknown",)}
    if o == "ite":
        return origin(a[1], d + 1) | origin(a[2], d + 1)
    if o in ("phi", "boolval", "upd", "mu"):
        xs = [x for x in children(t)]
        return set().union(*[origin(x, d + 1) for x in xs]) if xs else {("unknown",)}
    if o == "bool":
        return set().union(*[origin(x, d + 1) for x in a[1]])
    return {("unknown",)}


def whole(t, d=0):
    """the arguments that are, as a whole, the file a path names"""
    o, a = t.op, t.args
    if d > 30:
        return set()
    if o == "param":
        return {a[0]}
    if o == "call" and (a[0] in SAME or a[0] in LISTS) and a[1]:
        return whole(a[1][0], d + 1)
    if o in ("elem",):
        return whole(a[0], d + 1)
    if o == "sub":
        if a[0].op == "call" and a[0].args[0] == "builtins.zip" and isinstance(cval(a[1]), int) and cval(a[1]) < len(a[0].args[1]):
            return whole(a[0].args[1][cval(a[1])], d + 1)
        return whole(a[0], d + 1) if a[0].op in ("param", "call", "elem") and (a[0].op != "call" or a[0].args[0] in LISTS or a[0].args[0] == "builtins.enumerate") else set()
    if o == "call" and a[0] in ("builtins.enumerate",) and a[1]:
        return whole(a[1][0], d + 1)
    if o == "comp":
        e = a[1]
        e = e[0] if isinstance(e, tuple) and e else e
        return whole(e, d + 1) if hasattr(e, "op") else set()
    if o == "bin" and a[0] == "+" and a[1].op in ("list", "comp", "new", "call", "phi"):
        return whole(a[1], d + 1) | whole(a[2], d + 1)
    if o == "ite":
        return whole(a[1], d + 1) | whole(a[2], d + 1)
    if o in ("phi", "boolval", "list", "tuple", "mu", "upd"):
        r = set()
        for x in children(t):
            r |= whole(x, d + 1)
        return r
    return set()


def paths_of(t, d=0):
    """the alternatives of a path"""
    if t.op == "ite" and d < 12:
        return paths_of(t.args[1], d + 1) + paths_of(t.args[2], d + 1)
    if t.op in ("phi", "boolval") and d < 12:
        r = []
        for x in children(t):
            r += paths_of(x, d + 1)
        return r
    if t.op == "elem" and t.args[0].op == "comp" and d < 12:
        e = t.args[0].args[1]
        e = e[0] if isinstance(e, tuple) and e else e
        return paths_of(e, d + 1) if hasattr(e, "op") else [t]
    return [t]


def bare(t, d=0):
    """is this text an input's own name, unaltered?  -> argument names"""
    o, a = t.op, t.args
    if d > 20:
        return set()
    if o == "call" and a[0] in ("os.path.basename",) and a[1]:
        return set().union(*[whole(x) for x in paths_of(a[1][0])]) if a[1] else set()
    if o == "sub" and a[0].op == "call" and a[0].args[0] == "os.path.split" and cval(a[1]) in (1, -1):
        return whole(a[0].args[1][0])
    if o == "attr" and a[1] == "name":
        return whole(a[0])
    if o == "str":
        parts = a[0] if a and isinstance(a[0], tuple) else a
        return bare(parts[0], d + 1) if len(parts) == 1 else rejoined(parts)
    if o == "bin" and a[0] == "+":
        return rejoined((a[1], a[2]))
    if o in ("ite",):
        return bare(a[1], d + 1) | bare(a[2], d + 1)
    if o in ("phi", "boolval"):
        r = set()
        for x in children(t):
            r |= bare(x, d + 1)
        return r
    return set()


def rejoined(parts):
    """splitext(basename(x)) put together again"""
    parts = [p for p in parts if not (p.op == "const" and p.args[0] == "")]
    if len(parts) == 2 and all(p.op == "sub" and p.args[0].op == "call" and p.args[0].args[0] == "os.path.splitext" for p in parts) and parts[0].args[0] is parts[1].args[0] \
            and [cval(p.args[1]) for p in parts] == [0, 1]:
        x = parts[0].args[0].args[1][0]
        return bare(x)
    if len(parts) == 1:
        return bare(parts[0])
    return set()


def file_name(t):
    if t.op == "call" and t.args[0] == "os.path.join" and t.args[1]:
        return t.args[1][-1]
    if t.op == "bin" and t.args[0] == "/":
        return t.args[2]
    if t.op == "call" and t.args[0] in SAME and t.args[1]:
        return file_name(t.args[1][0])
    return None


def target(e):
    t = e.target if isinstance(e.target, str) else ""
    if e.recv is not None and e.recv.op in ("ext", "module", "global") and "." not in t:
        return e.recv.args[0] + "." + t
    return t


def arg(e, i, *names):
    kw = dict(e.kwargs or {})
    for n in names:
        if n in kw:
            return kw[n]
    return e.args[i] if i is not None and i < len(e.args) else None


def effect(e):
    """('write'|'read'|'both'|'delete'..., path) of a call"""
    t = target(e)
    last = t.rsplit(".", 1)[-1]
    out = []
    if t in OPENERS or (last == "open" and e.recv is not None and (e.recv.op != "ext" and e.recv.op != "module")):
        own = t in OPENERS
        path = arg(e, 0, "file", "filename", "name") if own else e.recv
        mode = arg(e, 1 if own else 0, "mode")
        m = "r" if mode is None else cval(mode)
        if path is None:
            return out
        if not isinstance(m, str):
            return [("open?", path)]
        if "+" in m or any(x in m for x in "wax"):
            out.append(("write", path))
        if "+" in m and not any(x in m for x in "wx") or not any(x in m for x in "wax"):
            out.append(("read", path))
        return out
    if t in WRITES:
        p = arg(e, WRITES[t], "dst", "path", "name", "fn", "filename", "target", "file_name", "destination_path")
        if p is not None:
            out.append(("write", p))
    elif last in FRAME and e.recv is not None:
        p = arg(e, 0, "path_or_buf", "path", "excel_writer", "buf", "fname")
        if p is not None and p is not NONE and not stream(p):
            out.append(("write", p))
    elif last in PATHM and e.recv is not None and e.recv.op not in ("ext", "module"):
        out.append(("write", e.recv))
    if t in DELETES:
        p = arg(e, DELETES[t], "src", "path")
        if p is not None:
            out.append(("delete", p))
    elif last in DELM and e.recv is not None and e.recv.op not in ("ext", "module"):
        out.append(("delete", e.recv))
    if t.startswith("pandas.read_") or t in READS and READS[t] is not None:
        p = arg(e, 0, "filepath_or_buffer", "io", "path_or_buf", "fn", "fname", "file", "path")
        if p is not None:
            out.append(("read", p))
    return out


def stream(p):
    return p.op == "call" and (p.args[0] in OPENERS or p.args[0].startswith("io.") or p.args[0].endswith("StringIO"))


def scratch(e):
    """inside a directory that is made for the purpose, entered, and thrown away"""
    for x in e.ctx:
        if x[0] == "with":
            for n in x[2]:
                if n.op == "call" and n.args[0] == "monty.tempfile.ScratchDir":
                    kw = dict(n.args[2])
                    if not (n.args[1] and n.args[1][0] is NONE or kw.get("rootpath") is NONE) and cval(kw.get("copy_to_current_on_exit", FALSE)) is not True and len(n.args[1]) < 3:
                        return True
                if n.op == "call" and n.args[0].endswith("contextlib.chdir") and n.args[1] and ("temp",) in origin(n.args[1][0]):
                    return True
    return False


def check(c):
    c.rule("inputs untouched", "no operation writes or deletes a file it reads, or makes files beside it")
    c.rule("outputs asked for", "every file is created below an output argument, the command's working directory, or in a scratch directory")
    c.rule("deletes", "only files the same operation made are deleted or moved")
    c.rule("network", "the network is used only under the option that asks for it")
    c.rule("no execution", "nothing evaluates, unpickles or runs data or other programs")
    n = 0
    for f in c.P.all_funcs():
        if not scope(f) or isinstance(f.node, ast.Lambda) or c.P.helper(f):
            continue
        it = c.interp()
        k = f.cls
        me = mk("param", "self") if k is not None and not f.is_static and not f.is_classmethod else None
        _, st, evs = c.run(it, f, self_node=me, cls=k) if me is not None else c.run(it, f, cls=k)
        calls = [e for e in evs if e.kind == "call"]
        effs = [(e, kind, p) for e in calls for kind, p in effect(e)]
        n += len(effs)
        reads = set()
        rpaths = set()
        first = {}
        for e, kind, p in effs:
            if kind == "write":
                for q in paths_of(p):
                    first.setdefault(q, e.idx)
        for e, kind, p in effs:
            if kind == "read":
                for q in paths_of(p):
                    if first.get(q, e.idx) < e.idx:
                        continue        # reads back what it wrote
                    reads |= whole(q)
                    rpaths.add((q, scratch(e)))
        made = {q for e, kind, p in effs if kind == "write" for q in paths_of(p)}
        for e, kind, p in effs:
            if kind == "write":
                write(c, f, e, p, reads, rpaths, made)
            elif kind == "delete":
                key = f"{e.fn.qual}: {target(e)}"
                ok = scratch(e) or all(q in made or origin(q) <= {("temp",)} for q in paths_of(p))
                c.ob("deletes", key, ok, f"{target(e)} of {show(p, 4)[:80]}, which this operation did not make", e.where())
        for e in calls:
            other(c, f, e)
        c.ob("no execution", f.full, True)
        c.ob("network", f.full, True)
    toplevel(c)
    c.need("outputs asked for", 15)


def write(c, f, e, p, reads, rpaths, made):
    t = target(e)
    key = f"{e.fn.qual}: {t.rsplit('.', 1)[-1]}"
    where = e.where()
    tmp = scratch(e)
    for q in paths_of(p):
        same = any(q is r and s == tmp for r, s in rpaths)
        if same and tmp and origin(q) and all(o[0] == "const" for o in origin(q)):
            same = False
        # a file made here and read back is not an input
        if same and not whole(q) and not any(o[0] in ("param", "self") for o in origin(q)):
            same = False
        if same and directory_only(q, e):
            same = False
        c.ob("inputs untouched", key, not same, f"{show(q, 4)[:90]} is read and written by {f.qual}", where)
        if same:
            continue
        for o in sorted(origin(q), key=str):
            if o[0] == "param":
                bad = o[1] in reads
                c.ob("inputs untouched", key, not bad, f"writes {show(q, 5)[:90]}: at or beside the input '{o[1]}' of {f.qual}", where)
            elif o[0] == "self":
                bad = ".paths" in o[1]
                c.ob("inputs untouched", key, not bad, f"writes {show(q, 5)[:90]}: at or beside a recorded input", where)
            elif o[0] == "const":
                ok = tmp
                c.ob("outputs asked for", key, ok, f"creates {show(q, 5)[:90]}, a place nobody asked for", where)
            elif o[0] == "global":
                ok = documented(o[1], e, origin(q))
                c.ob("outputs asked for", key, ok, f"creates {show(q, 5)[:90]}, a place nobody asked for", where)
            elif o[0] == "cwd":
                ok = tmp or e.fn.module.name == "beep.cmd"
                c.ob("outputs asked for", key, ok, f"creates {show(q, 5)[:90]} in the working directory, which nobody asked for", where)
            elif o[0] in ("ctx", "temp"):
                c.ob("outputs asked for", key, True)
            else:
                c.notes.append(f"{key}: origin of {show(q, 4)[:60]} not known")
        nm = file_name(q)
        if nm is not None and not t.startswith("beep.utils.s3."):
            b = bare(nm) & reads
            c.ob("inputs untouched", key, not b, f"the output is named exactly like the input {sorted(b)}", where)


def directory_only(q, e):
    return target(e) in ("os.makedirs", "os.mkdir", "monty.os.makedirs_p")


def documented(g, e, all_origins):
    """the S3 cache under its option; the template folder when no output directory is given"""
    if g.endswith("S3_CACHE"):
        return any("s3" in x.args[0] for gd, _ in e.guards for x in walk(gd) if x.op == "param")
    if g.endswith(("LOG_DIR",)):
        return True
    return any(o[0] == "param" for o in all_origins)      # the default of an output argument


def other(c, f, e):
    t = target(e)
    if t in EXEC or t.startswith("subprocess.") or t == "yaml.load" and not safe(e) or t == "numpy.load" and cval(dict(e.kwargs or {}).get("allow_pickle", FALSE)) is True:
        consts = all(a.op == "const" for a in e.args) and e.args
        c.ob("no execution", f"{e.fn.qual}: {t}", bool(consts) and t in ("builtins.compile",), f"{t} executes what it is given", e.where())
    elif t.rsplit(".", 1)[-1] in ("eval", "query") and e.recv is not None and e.recv.op not in ("ext", "module") and e.args and any(x.op in ("param", "elem") and x.op != "const" for x in walk(e.args[0])):
        if t.rsplit(".", 1)[-1] == "eval":
            c.ob("no execution", f"{e.fn.qual}: eval", False, "evaluates text that is not fixed", e.where())
    elif t in ("importlib.import_module", "builtins.__import__") and e.args:
        from_file = any(x.op == "call" and (x.args[0].startswith("pandas.read_") or x.args[0] in ("monty.serialization.loadfn", "json.load", "json.loads")) or x.op == "meth" and x.args[1] in ("read", "readline", "readlines") for x in walk(e.args[0]))
        c.ob("no execution", f"{e.fn.qual}: import", not from_file, "imports a module named in an input file", e.where())
    if t.startswith(NETWORK) and not e.fn.module.name.startswith("beep.utils"):
        asked = any("s3" in x.args[0].lower() or "bucket" in x.args[0].lower() for g, p in e.guards if p for x in walk(g) if x.op == "param")
        c.ob("network", f"{e.fn.qual}: {t}", asked, f"{t} is reached without the option that asks for it", e.where())


def safe(e):
    ld = arg(e, 1, "Loader")
    return ld is not None and "Safe" in show(ld, 3)


def toplevel(c):
    """what importing the package does"""
    for m in c.P.modules.values():
        if any(m.name == s or m.name.startswith(s + ".") for s in SKIP) or ".tests" in m.name:
            continue
        st = list(m.tree.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.If) and "__name__" in ast.dump(n.test):
                continue
            if isinstance(n, ast.Call):
                nm = ast.unparse(n.func)
                bad = nm in ("os.remove", "os.unlink", "shutil.rmtree", "eval", "exec", "os.system") or nm.startswith(("boto3.", "requests.", "subprocess.", "urllib.request."))
                c.ob("no execution" if nm in ("eval", "exec") else "deletes" if "re" in nm and not nm.startswith(("requests", "boto3")) else "network", f"{m.name}: {nm}", not bad, f"importing {m.name} calls {nm}", f"{m.name}:{n.lineno}") if bad else None
            st.extend(ast.iter_child_nodes(n))
