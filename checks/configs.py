"""the yaml tables BEEP loads at import, read from the source tree"""
import ast
import os

from .common import *


def load_yaml(path):
    import yaml
    with open(path) as f:
        return yaml.safe_load(f)


def yaml_globals(c, module="beep.conversion_schemas"):
    """{global name: (file name, content)} for NAME = loadfn(<... 'x.yaml'>)"""
    m = c.P.modules[module]
    d = os.path.dirname(os.path.abspath(m.path))
    out = {}
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            names = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith((".yaml", ".yml"))]
            if names and os.path.exists(os.path.join(d, names[-1])):
                out[n.targets[0].id] = (names[-1], load_yaml(os.path.join(d, names[-1])))
    return out


def global_name(n):
    """NAME of a term global(module.NAME)"""
    return n.args[0].split(".")[-1] if n is not None and n.op == "global" else None


def value_of(n, configs):
    """the Python value of a term that reads a configuration: constants, tables, items of tables"""
    if n.op == "const":
        return n.args[0]
    if n.op == "global":
        nm = global_name(n)
        if nm in configs:
            return configs[nm][1]
        raise KeyError(nm)
    if n.op == "sub":
        return value_of(n.args[0], configs)[value_of(n.args[1], configs)]
    if n.op == "meth" and n.args[1] == "get":
        return value_of(n.args[0], configs)[value_of(n.args[2][0], configs)]
    if n.op in ("list", "tuple"):
        xs = n.args[0] if len(n.args) == 1 and isinstance(n.args[0], tuple) else n.args
        return [value_of(x, configs) for x in xs]
    raise KeyError(n.op)
