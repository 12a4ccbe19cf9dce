"""typestate probes: a few lines of client code, analysed (never run) with every callee inlined, to decide whether an operation
refuses an object in the state the preceding public operations leave it in"""
import ast
import textwrap

from .common import *


def probe(c, src, params=None, mod="beep.structure.base", **k):
    node = ast.parse(textwrap.dedent(src)).body[0]
    f = Func(c.P.modules[mod], "_probe", node)
    it = c.interp(**k)
    return it, f, c.run(it, f, args=params or {})


def effects_of(evs, since=0):
    """events that write a file or change an object that existed before"""
    out = []
    for e in evs:
        if e.idx < since:
            continue
        if e.kind == "call":
            t = e.target.split(".")[-1]
            if t in ("dumpfn", "to_csv", "to_json", "to_hdf", "to_parquet", "to_pickle", "write", "writelines", "dump", "write_text", "savetxt"):
                out.append(e)
            elif t == "open" and any(a.op == "const" and isinstance(a.args[0], str) and a.args[0][:1] in "wax" for a in e.args[1:2] + ((e.kwargs or {}).get("mode"),) if a is not None):
                out.append(e)
    return out
