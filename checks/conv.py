"""the three protocol converters, specialised to one construct of the source language at a time (see vfa/pe.py)"""
import ast
import glob
import os
import re
import textwrap

import yaml

from vfa.pe import PE, mag, is_mag, is_crate, NEVER, BOUNDS
from .common import *

ARBIN = "beep.protocol.maccor_to_arbin"
BIO = "beep.protocol.maccor_to_biologic_mb"
MAC = "beep.protocol.biologic_mb_to_maccor"


def strings(t):
    return [x.args[0] for x in walk(t) if is_str(x)]


def yaml_model(c):
    """loadfn of a schema of the repository: the content of the file, read as text"""
    cache = {}

    def model(it, args, kwargs, st, n):
        if not args:
            return None
        names = [s for s in strings(args[0]) if s.endswith((".yaml", ".yml", ".json"))]
        if len(names) != 1:
            return None
        name = os.path.basename(names[0])
        if name not in cache:
            hits = [p for p in glob.glob(os.path.join(c.P.repo, "beep", "**", name), recursive=True)]
            cache[name] = yaml.safe_load(open(hits[0], encoding="utf-8")) if len(hits) == 1 else None
        return it.build(cache[name], st) if cache[name] is not None else None
    return model


class Out:
    """outcome of one specialised conversion"""

    def __init__(self, it, res, st, evs):
        self.it, self.res, self.st, self.evs = it, res, st, evs
        self.refused = res is NEVER or not st.alive
        # raises that may or may not be reached, as far as this analysis can tell
        self.maybe = {(e.fn.full, e.line) for e in evs if e.kind == "raise"}
        self.target = None


def run_probe(c, src, mod, models, params=None):
    node = ast.parse(textwrap.dedent(src)).body[0]
    f = Func(c.P.modules[mod], "_probe", node)
    it = PE(c.P, models={"monty.serialization.loadfn": yaml_model(c), **models})
    res, st, evs = c.run(it, f, args=params or {})
    return Out(it, res, st, evs)


# ------------------------------------------------------------------ Maccor source
def step(t, mode=None, val=None, limits=None, ends=None, reports=None, note=None):
    return {"StepType": t, "StepMode": mode, "StepValue": val, "Limits": limits,
            "Ends": None if ends is None else {"EndEntry": ends},
            "Reports": None if reports is None else {"ReportEntry": reports},
            "Range": "A", "Option1": "N", "Option2": "N", "Option3": "N", "StepNote": note}


def end(t, op, to, v):
    return {"EndType": t, "SpecialType": None, "Oper": op, "Step": to, "Value": v}


def rep(t, v):
    return {"ReportType": t, "Value": v}


# ------------------------------------------------------------------ Maccor -> Arbin
def m2a(c, steps, args="", shell=None):
    shell = shell or {"Schedule": {"m_uStepNum": "2", "m_VoltageSafetyScope": "", "m_AuxTempSafetyScope": "", "m_CurrentSafetyScope": "", "m_AuxSafetyEnabled": "",
                                   "UserDefineSafety0": {"a": mag("userSafety")}, "Step0": {"m_szLabel": "old0"}, "Step1": {"m_szLabel": "old1"}, "Step7": {"m_szLabel": "old7"}}}
    root = {}

    def from_file(it, a, kw, st, n):
        root["n"] = it.build(shell, st)
        return root["n"]

    src = f"""
    def _probe(steps, inp, outp, s1, s2, s3):
        p = ProcedureToSchedule(__source())
        return p.create_sdu(inp, outp{args})
    """
    src = src.replace("__source()", "loadfn('__source__')")

    ym = yaml_model(c)

    def loadfn(it, a, kw, st, n):
        if a and a[0] is const("__source__"):
            return it.build(steps, st)
        return ym(it, a, kw, st, n)
    o = run_probe2(c, src, ARBIN, {"monty.serialization.loadfn": loadfn}, {"beep.protocol.arbin.Schedule.from_file": from_file})
    if not o.refused and "n" in root:
        w = [e for e in o.evs if e.kind == "call" and e.target.split(".")[-1] == "to_file"]
        o.written = w
        o.target = o.it.value(root["n"], o.st)
    return o


def run_probe2(c, src, mod, models, funcs):
    """like run_probe, with models for functions of the project too"""
    node = ast.parse(textwrap.dedent(src)).body[0]
    f = Func(c.P.modules[mod], "_probe", node)
    it = PE(c.P, models={"monty.serialization.loadfn": yaml_model(c), **models}, func_models=funcs)
    res, st, evs = c.run(it, f)
    return Out(it, res, st, evs)


# ------------------------------------------------------------------ Maccor -> Biologic
def m2b(c, steps, settings=""):
    ym = yaml_model(c)

    def parse(it, a, kw, st, n):
        if a and a[0].op in ("const", "str"):
            return it.build({"EndEntry": {"EndType": None, "SpecialType": None, "Oper": None, "Step": None, "Value": None}}, st)
        return it.build({"MaccorTestProcedure": {"header": {}, "ProcSteps": {"TestStep": steps}}}, st)
    pre = "\n".join("        " + s for s in settings.split(";") if s.strip())
    src = "    def _probe(a, b, d, vmax, vmin, imax, imin):\n        m = MaccorToBiologicMb()\n" + pre + "\n        return m.convert(a, b, d)\n"
    o = run_probe(c, src, BIO, {"xmltodict.parse": parse}, SETTINGS)
    if not o.refused:
        for e in o.evs:
            if e.kind == "call" and e.target == "write" and e.args:
                t = e.args[0]
                if t.op == "meth" and t.args[1] == "encode":
                    t = t.args[0]
                m = mps(t)
                if m is not None:
                    o.target = m
                    break
    return o


SETTINGS = {"vmax": mag("vmax", lo=4.2, hi=4.5), "vmin": mag("vmin", lo=-0.4, hi=0.1), "imax": mag("imax", lo=30.0, hi=40.0), "imin": mag("imin", lo=1e-9, hi=1e-8)}
W = 20


def unwrap(n):
    """the value a cell shows: formatting to text and padding removed"""
    while True:
        if n.op == "meth" and n.args[1] in ("ljust", "rjust", "strip"):
            n = n.args[0]
        elif n.op == "call" and n.args[0] == "builtins.str" and len(n.args[1]) == 1:
            n = n.args[1][0]
        elif n.op == "str" and len(n.args) == 1:
            n = n.args[0]
        elif n.op == "fmt" and is_str(n.args[1]) and re.fullmatch(r"(.?[<>^])?\d*s?", n.args[1].args[0]):
            n = n.args[0]
        else:
            return n


def mps(t):
    """{header: [lines], techs: [{num, kind, rows: {key: [cells]}}]} of a settings text"""
    if t.op not in ("str", "const"):
        return None
    lines = [[]]
    for p in (t.args if t.op == "str" else (t,)):
        if is_str(p):
            for i, s in enumerate(p.args[0].replace("\r\n", "\n").split("\n")):
                if i:
                    lines.append([])
                if s:
                    lines[-1].append(s)
        else:
            lines[-1].append(p)
    head, techs, cur = [], [], None
    for ln in lines:
        first = ln[0] if ln and isinstance(ln[0], str) else ""
        if first.startswith("Technique :"):
            cur = {"num": first.split(":", 1)[1].strip() or None, "kind": None, "rows": {}}
            techs.append(cur)
            continue
        if cur is None:
            head.append(ln)
            continue
        if cur["kind"] is None:
            if first.strip():
                cur["kind"] = first.strip()
            continue
        if not ln:
            continue
        cells = []
        for x in ln:
            if isinstance(x, str):
                cells += [x[i:i + W].strip() for i in range(0, len(x), W)]
            else:
                cells.append(unwrap(x))
        if cells and isinstance(cells[0], str):
            cur["rows"][cells[0]] = cells[1:]
    if any(t["kind"] != "Loop" and "Ns" not in t["rows"] for t in techs):
        return None  # the table of sequences could not be read
    return {"header": head, "techs": techs} if techs else None


# ------------------------------------------------------------------ Biologic -> Maccor
def seq(ns, ctrl="Rest", val="", unit="", vs="", cd="Charge", lims=(), recs=(), lim_nb=None, rec_nb=None, to="0", rpt="0"):
    d = {"Ns": str(ns), "ctrl_type": ctrl, "Apply I/C": "I", "ctrl1_val": val, "ctrl1_val_unit": unit, "ctrl1_val_vs": vs, "N": "1.00", "charge/discharge": cd,
         "ctrl_seq": to, "ctrl_repeat": rpt, "lim_nb": str(len(lims) if lim_nb is None else lim_nb), "rec_nb": str(len(recs) if rec_nb is None else rec_nb)}
    for i in range(4):
        l = lims[i] if i < len(lims) else ("Time", ">", mag(f"unusedlim{i}"), "s", "Next sequence", str(ns + 1))
        for k, v in zip(("type", "comp", "value", "value_unit", "action", "seq"), l):
            d[f"lim{i + 1}_{k}"] = v
        r = recs[i] if i < len(recs) else ("Time", mag(f"unusedrec{i}"), "s")
        for k, v in zip(("type", "value", "value_unit"), r):
            d[f"rec{i + 1}_{k}"] = v
    return d


def b2m(c, seqs, techs=None):
    sched = {"Metadata": {}, "Technique": techs or {"1": {"Type": "Modulo Bat", "Step": {str(i + 1): s for i, s in enumerate(seqs)}}}}

    def parse(it, a, kw, st, n):
        return it.build(sched, st)
    src = """
    def _probe(text, header):
        return BiologicMbToMaccorProcedure.biologic_mb_text_to_maccor_xml(text, header)
    """
    o = run_probe2(c, src, MAC, {}, {"beep.protocol.biologic.Settings.mps_text_to_schedule_dict": parse})
    if not o.refused:
        for e in o.evs:
            if e.kind == "call" and e.target == "xmltodict.unparse" and e.args:
                body = o.it.value(e.args[0], o.st)
                try:
                    o.target = body["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
                except (KeyError, TypeError):
                    pass
    return o
