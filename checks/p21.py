"""P21: protocol conversion keeps each setting's quantity, direction, magnitude and place.

The converters are specialised as for P20; the cells of the output are then read: texts must be the ones that name the source's quantity,
direction and target, numbers must be linear in the source's magnitude with the factor its unit asks for."""
import math
import re

from .conv import *
from .reading import Reading, Unknown, Lossy, variants, same, is_mag
from .p20 import loc, around, rest, nested, brest, limits_of, SET

EXPLANATION = ("Flow analysis of the three converters, specialised to one combination of step kind, mode, comparator, unit and jump at a time (magnitudes abstract). "
               "Each cell of the output is compared with an independent statement of the mapping: constant texts for quantity, direction, comparator and target, and a "
               "linear form over the source's magnitude whose factor must be the ratio of the units, for every alternative of the unit the code may choose.")

AMPS = {"A": 1.0, "mA": 1e-3, "µA": 1e-6, "μA": 1e-6, "nA": 1e-9, "pA": 1e-12}
VOLTS = {"V": 1.0, "mV": 1e-3, "µV": 1e-6, "μV": 1e-6}
TIME = {"h": 3600.0, "mn": 60.0, "s": 1.0, "ms": 1e-3, "us": 1e-6}
OHMS = {"MOhm": 1e6, "kOhm": 1e3, "Ohm": 1.0, "mOhm": 1e-3, "µOhm": 1e-6, "μOhm": 1e-6}
WATTS = {"W": 1.0, "mW": 1e-3, "µW": 1e-6, "μW": 1e-6}


def check(c):
    c.rule("control", "a converted step has its source's kind, mode and direction, and its control value and limit in the target's units")
    c.rule("end", "a converted end condition compares the same quantity in the same direction with the same magnitude and goes to the counterpart of the same step")
    c.rule("record", "a converted record condition has the same quantity and magnitude")
    c.rule("flow", "loops keep their start and their count; the steps keep their order")
    c.rule("settings", "each setting of the user reaches the converted protocol at its own place, and nothing of the protocol that is replaced remains")
    arbin(c)
    biologic(c)
    maccor(c)
    c.need("control", 60)
    c.need("end", 100)


def text(n):
    """the text of a constant cell"""
    if isinstance(n, str):
        return n.strip()
    if isinstance(n, Node):
        if n.op == "const":
            v = n.args[0]
            return "" if v is None else str(v).strip()
        if n.op == "call" and n.args[0] == "builtins.str" and len(n.args[1]) == 1:
            return text(n.args[1][0])
        if n.op == "meth" and n.args[1] == "strip":
            return text(n.args[0])
    return None


class Case:
    """the comparison of one specialised conversion with what it should be"""

    def __init__(self, c, o, name, where):
        self.c, self.o, self.name, self.loc = c, o, name, where

    def at(self, key, value=None):
        """where the cell is written: the store of that value under that key, or else the last one under it"""
        hits = [e for e in self.o.evs if e.kind == "store" and any(x.op == "const" and x.args[0] == key for x in walk(e.key))]
        same_ = [e for e in hits if e.value is value]
        return (same_ or hits)[-1].where() if hits else self.loc

    def note(self, what, why):
        self.c.notes.append(f"{self.name}: {what}: {why}")

    def ob(self, rule, what, ok, msg, key=None, value=None):
        return self.c.ob(rule, f"{self.name}: {what}", ok, msg, self.loc if ok or not key else self.at(key, value))

    def text(self, rule, what, got, want, key=None):
        want = want if isinstance(want, (set, tuple, list)) else (want,)
        if got is None:
            return self.ob(rule, what, False, f"the {what} is not there", key, got)
        try:
            vs = variants([got]) if isinstance(got, Node) else [({}, (got,))]
        except Unknown as x:
            return self.note(what, f"not read: {x}")
        for env, (v,) in vs:
            t = text(v)
            if t is None:
                if isinstance(v, Node) and any(is_mag(x) for x in walk(v)) and not any(is_mag(x) for w in want if isinstance(w, Node) for x in walk(w)):
                    return self.ob(rule, what, False, f"the {what} is {show(v, maxd=4)[:80]}, not {' or '.join(map(repr, want))}", key, got)
                return self.note(what, f"not read: {show(v, maxd=4)[:80]}")
            if t not in want:
                return self.ob(rule, what, False, f"the {what} is {t!r}, not {' or '.join(map(repr, want))}", key, got)
        return self.ob(rule, what, True, "")

    def number(self, rule, what, got, leaf, k=1.0, unit=None, units=None, kind="num", key=None, digits=None):
        """got (in the unit of the cell unit, one of units) is k times the leaf"""
        if got is None:
            return self.ob(rule, what, False, f"the {what} is not there", key, got)
        got = got if isinstance(got, Node) else const(got)
        cells = [got] + ([unit if isinstance(unit, Node) else const(unit)] if units is not None else [])
        try:
            vs = variants(cells)
        except Unknown as x:
            return self.note(what, str(x))
        for env, vals in vs:
            f = k
            if units is not None:
                u = text(vals[1])
                if u is None:
                    self.note(what, f"unit not read: {show(vals[1], maxd=4)[:80]}")
                    continue
                if u not in units:
                    return self.ob(rule, what, False, f"the {what} is given in {u!r}, which is no unit of the quantity", key, got)
                f = k / units[u]
            r = Reading(env, whole=kind == "count")
            try:
                lin = r.clock(vals[0]) if kind == "clock" else r.num(vals[0])
            except Unknown as x:
                self.note(what, f"not read: {x}")
                continue
            except Lossy as x:
                return self.ob(rule, what, False, f"the {what} is not the source's: {x}", key, got)
            bad = same(lin, leaf, f, env, fields=kind in ("time", "clock"))
            if bad is None and digits is not None:
                bad = digits(r.fmts, leaf, units[u] if units is not None else 1.0, env, u if units is not None else None)
            if bad is not None:
                return self.ob(rule, what, False, f"the {what} {bad}" + (f" when given in {u}" if units is not None else ""), key, got)
        return self.ob(rule, what, True, "")


def exact(fmts, leaf, scale_, env, u):
    """a plain copy may not round"""
    bad = [d for d, r in fmts if d < 6 and any(x != () for x in r)]
    return f"is rounded to {bad[0]} decimals" if bad else None


# ------------------------------------------------------------------ Maccor -> Arbin
UP, DOWN = (">=", ">"), ("<=", "<")
MIRROR = {">=": DOWN, ">": DOWN, "<=": UP, "<": UP}
SAME = {">=": UP, ">": UP, "<=": DOWN, "<": DOWN}


def arbin_step(k, s, steps, i, rng="Range1"):
    """compare converted step i"""
    src = steps[i]
    t, mode, val, lims = src["StepType"], src["StepMode"], src["StepValue"], src["Limits"]
    label = lambda n: f"{n}-{steps[n - 1]['StepNote']}"
    sign = 1.0 if t == "Charge" else -1.0
    k.text("control", "label", s.get("m_szLabel"), label(i + 1), "m_szLabel")
    k.text("control", "current range", s.get("m_szCurrentRange"), rng, "m_szCurrentRange")
    kind, value, ext = s.get("m_szStepCtrlType"), s.get("m_szCtrlValue"), s.get("m_szExtCtrlValue1")

    def num(what, got, leaf, f, key):
        k.number("control", what, got, leaf, f, key=key, digits=exact)
    if mode == "Current" and lims is None:
        k.text("control", "control type", kind, "C-Rate" if is_crate(val) else "Current(A)", "m_szStepCtrlType")
        num("control value", value, val, sign, "m_szCtrlValue")
    elif mode == "Voltage" and lims is None:
        k.text("control", "control type", kind, "Voltage(V)", "m_szStepCtrlType")
        num("control value", value, val, 1.0, "m_szCtrlValue")
    elif mode in ("Current", "Voltage"):
        amps, volts = (val, lims["Voltage"]) if mode == "Current" else (lims["Current"], val)
        k.text("control", "control type", kind, "CCCV", "m_szStepCtrlType")
        num("current", value, amps, sign, "m_szCtrlValue")
        num("voltage", ext, volts, 1.0, "m_szExtCtrlValue1")
        if is_crate(amps):
            k.c.ob("control", "Maccor to Arbin: C-rate step with a voltage limit: unit of the current", text(kind) != "CCCV",
                   "the number of the C-rate becomes the amperes of a CCCV step", k.at("m_szCtrlValue"))
    elif t == "Rest":
        k.text("control", "control type", kind, "Rest", "m_szStepCtrlType")
    elif t.startswith("Do "):
        n = int(t.split()[1])
        k.text("flow", "control type of a Do", kind, "Set Variable(s)", "m_szStepCtrlType")
        k.text("flow", "counter reset by a Do", value, str(2 ** (n + 15)), "m_szCtrlValue")
        k.text("flow", "counter advanced by a Do", ext, "0", "m_szExtCtrlValue1")
    elif t.startswith("Loop "):
        n = int(t.split()[1])
        k.text("flow", "control type of a Loop", kind, "Set Variable(s)", "m_szStepCtrlType")
        k.text("flow", "counter reset by a Loop", value, "0", "m_szCtrlValue")
        k.text("flow", "counter advanced by a Loop", ext, str(2 ** n), "m_szExtCtrlValue1")
    elif t == "AdvCycle":
        k.text("flow", "control type of an AdvCycle", kind, "Set Variable(s)", "m_szStepCtrlType")
        k.text("flow", "counter advanced by an AdvCycle", ext, "1", "m_szExtCtrlValue1")
    n = limits_of(s)
    if n is None:
        k.note("m_uLimitNum", "not read")
        return
    got = [s.get(f"Limit{j}") for j in range(n)]
    es = (src["Ends"] or {}).get("EndEntry")
    es = [] if es is None else es if isinstance(es, list) else [es]
    rs = (src["Reports"] or {}).get("ReportEntry")
    rs = [] if rs is None else rs if isinstance(rs, list) else [rs]
    # a limit belongs to the entry whose magnitude it holds
    used = set()

    def find(leaf, flag, left=None):
        for j, l in enumerate(got):
            if j in used or not isinstance(l, dict):
                continue
            if text(l.get("m_bStepLimit")) == flag and any(x is leaf for x in walk(as_node(l.get("Equation0_szRight")))) and (left is None or text(l.get("Equation0_szCompareSign")) in left):
                used.add(j)
                return l
        return None
    if t.startswith("Loop "):
        e = es[0]
        do = max(j for j in range(i) if steps[j]["StepType"] == "Do " + t.split()[1])
        back, on = find(e["Value"], "1", ("<",)), find(e["Value"], "1", ("=", ">=", ">"))
        k.ob("flow", "loop limits", back is not None and on is not None, "the loop has no limit to go round or none to go on", "Loop Addendum")
        for l, what, sgn, to in ((back, "going round", ("<",), do + 2), (on, "going on", ("=", ">="), int(e["Step"]))):
            if l is None:
                continue
            k.text("flow", f"quantity for {what}", l.get("Equation0_szLeft"), f"TC_Counter{t.split()[1]}", "Equation0_szLeft")
            k.text("flow", f"comparator for {what}", l.get("Equation0_szCompareSign"), sgn, "Equation0_szCompareSign")
            k.number("flow", f"count for {what}", l.get("Equation0_szRight"), e["Value"], kind="count", key="Equation0_szRight", digits=exact)
            k.text("flow", f"step after {what}", l.get("m_szGotoStep"), (label(to),) + (("Next Step",) if to == i + 2 else ()), "m_szGotoStep")
        es = []
    for e in es:
        l = find(e["Value"], "1")
        what = f"{e['EndType']} end {e['Oper'].strip()} to {e['Step']}"
        if l is None:
            k.ob("end", what, False, f"no limit of the converted step that can end it holds the magnitude of the {what}", "Equation0_szRight")
            continue
        f = 1.0
        if e["EndType"] == "Current":
            left = "PV_CHAN_CV_Stage_Current" if text(kind) == "CCCV" else "PV_CHAN_Current"
            sgn = SAME[e["Oper"].strip()] if sign > 0 else MIRROR[e["Oper"].strip()]
            f = sign
        elif e["EndType"] == "Voltage":
            left, sgn = "PV_CHAN_Voltage", SAME[e["Oper"].strip()]
        else:
            left, sgn = "PV_CHAN_Step_Time", UP
        k.text("end", what + ": quantity", l.get("Equation0_szLeft"), left, "Equation0_szLeft")
        k.text("end", what + ": comparator", l.get("Equation0_szCompareSign"), sgn, "Equation0_szCompareSign")
        k.number("end", what + ": magnitude", l.get("Equation0_szRight"), e["Value"], f, kind="time" if e["EndType"] == "StepTime" else "num", key="Equation0_szRight", digits=exact)
        to = int(e["Step"])
        k.text("end", what + ": next step", l.get("m_szGotoStep"), (label(to),) + (("Next Step",) if to == i + 2 else ()), "m_szGotoStep")
    for r in rs:
        what = f"{r['ReportType']} report"
        l = find(r["Value"], "0")
        if l is None:
            k.ob("record", what, False, f"no limit of the converted step that only records holds the magnitude of the {what}", "Equation0_szRight")
            continue
        k.text("record", what + ": recording", l.get("m_bLogDataLimit"), "1", "m_bLogDataLimit")
        k.text("record", what + ": quantity", l.get("Equation0_szLeft"), {"Voltage": "DV_Voltage", "Current": "DV_Current", "StepTime": "DV_Time"}[r["ReportType"]], "Equation0_szLeft")
        k.text("record", what + ": comparator", l.get("Equation0_szCompareSign"), (">", ">="), "Equation0_szCompareSign")
        k.number("record", what + ": magnitude", l.get("Equation0_szRight"), r["Value"], kind="time" if r["ReportType"] == "StepTime" else "num", key="Equation0_szRight", digits=exact)
    if not es and not t.startswith("Loop ") and t != "End":
        # a step without an end is left at once
        first = [l for j, l in enumerate(got) if j not in used and isinstance(l, dict) and text(l.get("m_bStepLimit")) == "1"]
        if first:
            k.text("end", "no ends: next step", first[0].get("m_szGotoStep"), ("Next Step", label(i + 2)), "m_szGotoStep")


def as_node(x):
    return x if isinstance(x, Node) else const(x)


def arbin_case(c, name, steps, args="", rng="Range1", only=None):
    o = m2a(c, steps, args)
    k = Case(c, o, "Maccor to Arbin: " + name, loc(c, ARBIN + ".ProcedureToSchedule.create_sdu"))
    if o.refused or not isinstance(o.target, dict) or not isinstance(o.target.get("Schedule"), dict):
        k.note("case", "refused" if o.refused else "no output was found")
        return None
    s = o.target["Schedule"]
    for i in range(len(steps)):
        t = s.get(f"Step{i}")
        if not isinstance(t, dict):
            k.ob("flow", f"step {i + 1}", False, f"step {i + 1} has no converted counterpart", f"Step{i}")
        elif only is None or i in only:
            arbin_step(k, t, steps, i, rng)
    return k, s


def noted(steps):
    """every step has a note of its own"""
    return [dict(s, StepNote=f"n{i + 1}") for i, s in enumerate(steps)]


def arbin(c):
    V, R1, R2, R3 = mag("value"), mag("report 1"), mag("report 2"), mag("report 3")
    Ev, Et, Ec = mag("voltage end"), mag("time end"), mag("current end")
    rs = [rep("Voltage", R1), rep("Current", R2), rep("StepTime", R3)]
    for t in ("Charge", "Dischrge"):
        for m, v, ls, cur in (("Current", V, None, False), ("Current", mag("value", crate=True), None, False), ("Voltage", V, None, True),
                              ("Current", V, {"Voltage": mag("limit")}, True), ("Current", mag("value", crate=True), {"Voltage": mag("limit")}, True),
                              ("Voltage", V, {"Current": mag("limit")}, True)):
            name = f"{t}, {m}{' (C-rate)' if is_crate(v) else ''}{' with a ' + list(ls)[0].lower() + ' limit' if ls else ''}"
            for op in (">= ", "<= "):
                es = [end("Voltage", op, "003", Ev), end("StepTime", " = ", "004", Et)] + ([end("Current", op, "001", Ec)] if cur else [])
                arbin_case(c, name, noted(around(step(t, m, v, ls, es, rs))), only={1})
            arbin_case(c, name + ", single entries", noted(around(step(t, m, v, ls, end("Voltage", ">=", "001", Ev), rs[2]))), only={1})
            arbin_case(c, name + ", no ends", noted(around(step(t, m, v, ls, None, rs))), only={1})
    arbin_case(c, "Rest", noted(around(step("Rest", None, None, None, [end("StepTime", "=", "003", Et), end("Voltage", "<=", "004", Ev), end("Voltage", ">=", "002", mag("other voltage end"))], rs))), only={1})
    # flow
    for n in (1, 2):
        st = [rest("002", "a"), step(f"Do {n}"), rest("004", "b"), step("Rest", None, None, None, [end("Voltage", ">=", "003", Ev), end("StepTime", "=", "005", Et)]), step("AdvCycle"),
              step(f"Loop {n}", ends=end("Loop Cnt", " = ", "007", mag("loop count"))), rest("008", "c"), step("End")]
        arbin_case(c, f"Loop {n}", noted(st))
        st[5] = step(f"Loop {n}", ends=end("Loop Cnt", " = ", "008", mag("loop count")))
        arbin_case(c, f"Loop {n} that goes on further ahead", noted(st), only={5})
    st = [step("Do 1"), rest("003", "a"), step("Do 2"), rest("005", "b"), step("Loop 2", ends=end("Loop Cnt", "=", "006", mag("inner count"))),
          step("Loop 1", ends=end("Loop Cnt", "=", "007", mag("outer count"))), step("Do 1"), rest("009", "c"), step("Loop 1", ends=end("Loop Cnt", "=", "010", mag("third count"))), step("End")]
    arbin_case(c, "nested and repeated loops", noted(st))
    # settings
    s1, s2 = mk("param", "s1"), mk("param", "s2")
    base = noted(around(step("Charge", "Current", V, None, end("Voltage", ">=", "003", Ev), rs[0])))
    for arg, key in (("global_v_range", "m_VoltageSafetyScope"), ("global_temp_range", "m_AuxTempSafetyScope"), ("global_current_range", "m_CurrentSafetyScope")):
        r = arbin_case(c, f"setting {arg}", base, f", {arg}=[s1, s2]", only=set())
        if r:
            k, s = r
            scope(k, arg, s.get(key), s1, s2, key)
            for other in {"m_VoltageSafetyScope", "m_AuxTempSafetyScope", "m_CurrentSafetyScope"} - {key}:
                x = s.get(other)
                k.ob("settings", f"{other} under {arg}", not (isinstance(x, Node) and any(y in (s1, s2) for y in walk(x))), f"{arg} reaches {other}", other)
            if arg == "global_temp_range":
                a = s.get("m_AuxSafetyEnabled")
                k.ob("settings", "temperature safety enabled", not (isinstance(a, Node) and a is const("")), "the temperature range is not switched on in m_AuxSafetyEnabled", "m_AuxSafetyEnabled")
    r = arbin_case(c, "setting current_range", base, ", current_range='Range3'", rng="Range3")
    r = arbin_case(c, "replaced steps", base, only=set())
    if r:
        k, s = r
        left = [x for x in s if re.fullmatch(r"Step\d+", x) and int(x[4:]) >= len(base)]
        k.ob("settings", "old steps", not left, f"{', '.join(left)} of the schedule that served as a shell remain", "Schedule")
        u = s.get("UserDefineSafety0")
        k.ob("settings", "user-defined safety", isinstance(u, dict) and any(is_mag(x) for x in walk(as_node(u.get("a")))), "the user-defined safety limits of the shell are lost")
        k.text("settings", "number of steps", s.get("m_uStepNum"), str(len(base)), "m_uStepNum")
        w = getattr(k.o, "written", [])
        k.ob("settings", "schedule written", bool(w), "the converted schedule is not written")


def scope(k, arg, cell, lo, hi, key):
    """'min^max'"""
    if not isinstance(cell, Node):
        k.ob("settings", arg, False, f"{arg} does not reach {key}", key)
        return
    if cell.op != "str":
        ok = any(x is lo for x in walk(cell)) and any(x is hi for x in walk(cell))
        k.ob("settings", arg, ok or cell.op != "const", f"{arg} does not reach {key}", key)
        return
    parts, cur = [[]], None
    for p in cell.args:
        if is_str(p):
            for i, s in enumerate(p.args[0].split("^")):
                if i:
                    parts.append([])
                if s.strip():
                    parts[-1].append(p)
        else:
            parts[-1].append(p)
    if len(parts) != 2:
        k.note(arg, "not read")
        return
    for p, leaf, what in ((parts[0], lo, "lower"), (parts[1], hi, "upper")):
        ok = len(p) == 1 and any(x is leaf for x in walk(p[0])) and not any(x in (lo, hi) and x is not leaf for x in walk(p[0])) and not any(x.op in ("un", "bin") for x in walk(p[0]))
        k.ob("settings", f"{arg}: {what} bound", ok, f"the {what} bound of {key} is not the one of {arg}", key)


# ------------------------------------------------------------------ Maccor -> Biologic
FLOW = ("Do 1", "Do 2", "AdvCycle")
COMP = {">=": ">", "<=": "<", ">": ">", "<": "<"}


def native(finest):
    """three decimals are native: a coarse unit may be chosen for short texts only"""
    def f(fmts, leaf, unit, env, u):
        for d, r in fmts:
            if not any(x != () for x in r):
                continue
            if d < 3:
                return f"is rounded to {d} decimals of {u}"
            if u == finest or d > 9:
                continue
            bounded = [(g, p) for g, p in env.items() if any(is_mag(x) and x is leaf for x in walk(g)) and not plain(g, leaf)]
            if not bounded:
                return f"is rounded to {d} decimals of {u} whatever the digits of the source"
            for g, p in bounded:
                b = most(g, p, leaf)
                # digits after the point that the source may have when this unit is chosen
                if b is not None and b > d + round(-math.log10(unit)) + 1e-9 and not any(
                        most(g2, p2, leaf) is not None and most(g2, p2, leaf) <= d + round(-math.log10(unit)) for g2, p2 in bounded):
                    return f"is rounded to {d} decimals of {u} although the source may have {b:g} decimals"
        return None
    return f


def plain(g, leaf):
    """a condition on the number only, not on how it is written"""
    if g.op in ("cmp", "not", "bool"):
        return all(plain(x, leaf) for x in g.kids())
    if not any(x is leaf for x in walk(g)):
        return True
    try:
        Reading({}).num(g)
        return True
    except (Unknown, Lossy):
        return False


def most(g, pol, leaf):
    """n of a failed test `n < digits of the text`"""
    if g.op == "cmp" and g.args[0] in ("<", "<=") and not pol and g.args[1].op == "const" and isinstance(g.args[1].args[0], (int, float)):
        return g.args[1].args[0] - (1 if g.args[0] == "<=" else 0)
    return None


def bio_case(c, name, steps, settings=SET, only=None):
    o = m2b(c, steps, settings)
    k = Case(c, o, "Maccor to Biologic: " + name, loc(c, BIO + ".MaccorToBiologicMb.convert"))
    if o.refused or o.target is None:
        k.note("case", "refused" if o.refused else "no output was found")
        return None
    if len(o.target["techs"]) == 1:
        bio_technique(k, o.target["techs"][0]["rows"], steps, 0, len(steps) - 1, only)
    return k, o.target


def cell(rows, key, i):
    v = rows.get(key)
    return v[i] if v is not None and i < len(v) else None


def bio_technique(k, rows, steps, lo, hi, only=None):
    """steps[lo:hi] are the steps of a technique with these rows"""
    seqs = {}
    n = 0
    for i in range(lo, hi):
        s = steps[i]
        seqs[i + 1] = n
        n += 0 if s["StepType"] in FLOW else 2 if s["Limits"] else 1
    got = len(rows.get("Ns", ()))
    k.ob("flow", "number of sequences", got == n, f"{n} sequences are needed, there are {got}", "Ns")
    if got != n:
        return
    last = len(steps)
    for i in range(lo, hi):
        s = steps[i]
        t = s["StepType"]
        if t in FLOW or only is not None and i not in only:
            continue
        q = seqs[i + 1]
        k.text("flow", f"number of sequence {q}", cell(rows, "Ns", q), str(q), "Ns")
        if t.startswith("Loop"):
            do = max(j for j in range(lo, i) if steps[j]["StepType"] == "Do" + t[4:])
            e = s["Ends"]["EndEntry"]
            k.text("flow", "control type of a loop", cell(rows, "ctrl_type", q), "Loop", "ctrl_type")
            k.text("flow", "start of a loop", cell(rows, "ctrl_seq", q), str(seqs[do + 1]), "ctrl_seq")
            k.text("flow", "repetitions of a loop", cell(rows, "ctrl_repeat", q), str(int(e["Value"]) - 1), "ctrl_repeat")
            continue
        k.text("flow", "repetitions of a step", cell(rows, "ctrl_repeat", q), "0", "ctrl_repeat")
        es = (s["Ends"] or {}).get("EndEntry")
        es = [] if es is None else es if isinstance(es, list) else [es]
        rs = (s["Reports"] or {}).get("ReportEntry")
        rs = [] if rs is None else rs if isinstance(rs, list) else [rs]
        mode, val = s["StepMode"], s["StepValue"]
        if not s["Limits"]:
            seq_(k, rows, q, t, mode, val, es, rs, i + 1, seqs, last, "")
            continue
        other = "Voltage" if mode == "Current" else "Current"
        lim = s["Limits"][other]
        up = ">=" if t == "Charge" or other == "Current" else "<="
        first = end(other, up, None, lim)
        seq_(k, rows, q, t, mode, val, [first], rs, i + 1, seqs, last, " (first part)")
        here = [x for j in range(1, 4) for x in walk(as_node(cell(rows, f"lim{j}_value", q) or const(""))) if j <= nb(rows, "lim_nb", q)]
        k.c.ob("end", f"Maccor to Biologic: step in mode {mode} with a limit: ends of the part before the limit is reached", not es or any(x is e["Value"] for e in es for x in here),
               "the step's own end conditions are not in the sequence that runs until the limit is reached", k.at("lim_nb"))
        seq_(k, rows, q + 1, t, other, lim, es, rs, i + 1, seqs, last, " (second part)")


def nb(rows, key, q):
    t = text(cell(rows, key, q))
    return int(t) if t is not None and t.isdigit() else 0


def seq_(k, rows, q, t, mode, val, es, rs, num, seqs, last, part):
    amps, volts, tm = (AMPS, "pA", "num"), (VOLTS, "mV", "num"), (TIME, "ms", "time")
    if mode is None:
        k.text("control", "control type" + part, cell(rows, "ctrl_type", q), "Rest", "ctrl_type")
    else:
        k.text("control", "control type" + part, cell(rows, "ctrl_type", q), "CC" if mode == "Current" else "CV", "ctrl_type")
        k.text("control", "reference" + part, cell(rows, "ctrl1_val_vs", q), ("<None>", "") if mode == "Current" else "Ref", "ctrl1_val_vs")
        k.text("control", "direction" + part, cell(rows, "charge/discharge", q), "Charge" if t == "Charge" else "Discharge", "charge/discharge")
        units, finest, kind = amps if mode == "Current" else volts
        k.number("control", "control value" + part, cell(rows, "ctrl1_val", q), val, 1.0, cell(rows, "ctrl1_val_unit", q), units, kind, "ctrl1_val", native(finest))
    for what, es_, pre, count in (("end", es, "lim", "lim_nb"), ("record", rs, "rec", "rec_nb")):
        n = nb(rows, count, q)
        used = set()
        for e in es_:
            ty = e["EndType" if what == "end" else "ReportType"]
            name = f"{ty} {what}" + (f" {e['Oper']} to {e['Step'] or 'the second part'}" if what == "end" else "") + part
            hits = [j for j in range(1, n + 1) if j not in used and any(x is e["Value"] for x in walk(as_node(cell(rows, f"{pre}{j}_value", q) or const(""))))]
            if not hits:
                if n < len(es_) or all(text(cell(rows, f"{pre}{j}_value", q)) is not None for j in range(1, n + 1)):
                    k.ob(what, name, False, f"no {'limit' if what == 'end' else 'record condition'} in force holds the magnitude of the {name}", f"{pre}1_value")
                else:
                    k.ob(what, name, False, f"no {'limit' if what == 'end' else 'record condition'} in force holds the magnitude of the {name}", f"{pre}1_value")
                continue
            j = hits[0]
            used.add(j)
            units, finest, kind = {"Voltage": volts, "Current": amps, "StepTime": tm}[ty]
            quantity = {"Voltage": ("Ecell", "Ece"), "Current": "|I|" if what == "end" else ("I", "|I|"), "StepTime": "Time"}[ty]
            k.text(what, name + ": quantity", cell(rows, f"{pre}{j}_type", q), quantity, f"{pre}{j}_type")
            k.number(what, name + ": magnitude", cell(rows, f"{pre}{j}_value", q), e["Value"], 1.0, cell(rows, f"{pre}{j}_value_unit", q), units, kind, f"{pre}{j}_value", native(finest) if kind == "num" else coarse_time)
            if what == "record":
                continue
            k.text(what, name + ": comparator", cell(rows, f"lim{j}_comp", q), ">" if ty == "StepTime" else COMP[e["Oper"].strip()], f"lim{j}_comp")
            act, to = text(cell(rows, f"lim{j}_action", q)), text(cell(rows, f"lim{j}_seq", q))
            if act is None or to is None:
                k.note(name, "jump not read")
                continue
            goal = {str(q + 1)} if e["Step"] is None else targets(int(e["Step"]), num, q, seqs, last, len(rows["Ns"]))
            have = str(q + 1) if act == "Next sequence" else to if act == "Goto sequence" else act
            k.ob(what, name + ": target", have in goal, f"the {name} goes to {act} {to}, not to sequence {' or '.join(sorted(goal))}", f"lim{j}_seq")


def targets(step_, num, q, seqs, last, n):
    """names of the sequence a step starts with"""
    if step_ == last:
        return {"9999", str(n), "End"} if num + 1 == last else {"9999", "End"}
    if step_ == num + 1 and step_ not in seqs:
        return {str(q + 1)}
    return {str(seqs[step_])}


def coarse_time(fmts, leaf, unit, env, u):
    bad = [d for d, r in fmts if d < 3 and any(x != () for x in r)]
    return f"is rounded to {bad[0]} decimals of {u}" if bad else None


def biologic(c):
    lim = dict(lo=0.3, hi=4.1)
    V, Ev, Ec, Et = mag("value", **lim), mag("voltage end", **lim), mag("current end", **lim), mag("time end")
    rs = [rep("StepTime", mag("report 1")), rep("Voltage", mag("report 2")), rep("Current", mag("report 3"))]
    for t in ("Charge", "Dischrge"):
        for m, ls in (("Current", None), ("Voltage", None), ("Current", {"Voltage": mag("limit", **lim)}), ("Voltage", {"Current": mag("limit", **lim)})):
            name = f"{t}, {m}{' with a ' + list(ls)[0].lower() + ' limit' if ls else ''}"
            for a, b in ((">=", "<="), ("<=", ">=")):
                es = [end("Voltage", a, "003", Ev), end("Current", b, "004", Ec), end("StepTime", "=", "001", Et)]
                bio_case(c, name, around(step(t, m, V, ls, es, rs)), only={1})
            bio_case(c, name + ", single entries", around(step(t, m, V, ls, end("Voltage", ">=", "001", Ev), rs[2])), only={1})
            bio_case(c, name + ", small magnitudes", around(step(t, m, mag("small value"), ls, end("Current", ">=", "003", mag("small end")), rep("Voltage", mag("small report")))), "", only={1})
    bio_case(c, "Rest", around(step("Rest", None, None, None, [end("StepTime", "=", "003", Et), end("Voltage", "<=", "004", Ev), end("Voltage", ">=", "002", mag("other voltage end", **lim))], rs)), only={1})
    # flow
    st = [brest("002", "a"), step("Do 1"), brest("004", "b"), step("Charge", "Current", V, {"Voltage": mag("limit", **lim)}, [end("Voltage", ">=", "003", Ev), end("StepTime", "=", "005", Et)], rs),
          step("AdvCycle"), step("Rest", None, None, None, [end("StepTime", "=", "007", mag("t6")), end("Voltage", ">=", "004", mag("v6", **lim))], rs[:1]),
          step("Loop 1", ends=end("Loop Cnt", "=", "008", "5")), step("Rest", None, None, None, [end("StepTime", "=", "009", mag("t8")), end("Voltage", ">=", "011", mag("v8", **lim)), end("Voltage", "<=", "012", mag("w8", **lim))], rs[:1]),
          brest("010", "c"), step("AdvCycle"), brest("012", "d"), step("End")]
    bio_case(c, "loop", st)
    st = [step("Do 1"), brest("003", "a"), step("Loop 1", ends=end("Loop Cnt", "=", "004", "3")), step("Do 1"), brest("006", "b"), brest("007", "c"), step("Loop 1", ends=end("Loop Cnt", "=", "008", "4")), brest("009", "d"), step("End")]
    bio_case(c, "two loops", st)
    # a nested loop becomes a technique of its own
    E = mag("E", **lim)
    st = [brest("002", "p"), step("Do 1"), brest("004", "q"), step("Do 2"), step("Rest", None, None, None, [end("StepTime", "=", "006", mag("t5")), end("Voltage", ">=", "010", E)], rs[:1]),
          step("Loop 2", ends=end("Loop Cnt", "=", "007", "5")), step("Loop 1", ends=end("Loop Cnt", "=", "008", "3")), brest("009", "s"), step("Do 1") , step("End")]
    st = st[:8] + [step("Charge", "Current", V, None, [end("StepTime", "=", "010", mag("t9")), end("Voltage", "<=", "008", Ev)], rs[:1]), step("End")]
    r = bio_case(c, "nested loop", st)
    if r:
        k, tg = r
        techs = tg["techs"]
        kinds = [(x["num"], x["kind"]) for x in techs]
        k.ob("flow", "techniques", kinds == [("1", "Modulo Bat"), ("2", "Modulo Bat"), ("3", "Loop"), ("4", "Modulo Bat")], f"a step, a nested loop and two steps become the techniques {kinds}", "technique_num")
        if len(techs) == 4:
            bio_technique(k, techs[0]["rows"], st, 0, 1)
            bio_technique(k, techs[1]["rows"], st, 2, 6)
            k.text("flow", "technique the outer loop goes to", cell(techs[2]["rows"], "goto Ne", 0), "2")
            k.text("flow", "repetitions of the outer loop", cell(techs[2]["rows"], "nt times", 0), ("3", "2"))
            bio_technique(k, techs[3]["rows"], st, 7, 9)
        heads = [x for ln in tg["header"] for x in [line(ln)] if x and x.startswith("Number of linked techniques")]
        if heads:
            k.ob("settings", "number of techniques", heads[0].split(":")[1].strip() == "4", f"the header counts {heads[0].split(':')[1].strip()} techniques of 4")
    # settings
    base = around(step("Charge", "Current", V, None, end("StepTime", "=", "003", Et), rs[:1]))
    for attr_, p in (("max_voltage_v", "vmax"), ("min_voltage_v", "vmin"), ("max_current_a", "imax"), ("min_current_a", "imin")):
        for alone in (True, False):
            sett = f"m.{attr_}={p}" if alone else SET
            if alone and "voltage" in attr_:
                sett += ";m.min_voltage_v=vmin" if p == "vmax" else ";m.max_voltage_v=vmax"
            r = bio_case(c, f"setting {attr_}{' alone' if alone else ''}", base, sett, only=set())
            if not r:
                continue
            k, tg = r
            leaf = SETTINGS[p]
            hi = "max" in attr_
            row = ("E range max (V)" if hi else "E range min (V)") if "voltage" in attr_ else ("I Range max" if hi else "I Range min")
            for q in range(len(tg["techs"][0]["rows"].get("Ns", ()))):
                k.number("settings", f"{row} of sequence {q}", cell(tg["techs"][0]["rows"], row, q), leaf, key=row, digits=lambda *a: None)
            if "voltage" in attr_:
                want = "Ecell max" if hi else "Ecell min"
                ls = [ln for ln in tg["header"] if any(isinstance(x, str) and want in x for x in ln)]
                ok = len(ls) == 1 and any(y is leaf for x in ls[0] if isinstance(x, Node) for y in walk(x))
                k.ob("settings", f"header line {want}", ok, f"{attr_} does not reach the line {want} of the header", want)
            other = [(r2, v) for tech in tg["techs"] for r2, v in tech["rows"].items() if r2 != row and r2 in ("E range max (V)", "E range min (V)", "I Range max", "I Range min", "I Range")
                     and any(isinstance(x, Node) and any(y is leaf for y in walk(x)) for x in v)]
            k.ob("settings", f"{attr_} elsewhere", not other, f"{attr_} reaches {', '.join(x for x, _ in other)}", other[0][0] if other else None)


def line(ln):
    t = "".join(x if isinstance(x, str) else (text(x) or "?") for x in ln)
    return t.strip()


# ------------------------------------------------------------------ Biologic -> Maccor
MKIND = {"CC": "Current", "CV": "Voltage", "CR": "Resistance", "CP": "Power"}
MUNITS = {"CC": AMPS, "CV": VOLTS, "CR": OHMS, "CP": WATTS}
QUANT = {"Time": ("StepTime", TIME), "Ecell": ("Voltage", VOLTS), "Ece": ("Voltage", VOLTS), "I": ("Current", AMPS), "Power": ("Power", WATTS)}


def expected_steps(seqs):
    """[(kind, sequence index)] of the Maccor steps, number of the step to jump to per sequence from outside and inside its loop"""
    loops = {}
    for i, s in enumerate(seqs):
        if s["ctrl_type"] == "Loop" and s["ctrl_repeat"] != "0":
            loops[i] = int(s["ctrl_seq"])
    blank = {i for i, s in enumerate(seqs) if s["ctrl_type"] == "Loop" and s["ctrl_repeat"] == "0"}
    adv = {i for i, to in loops.items() if to == i - 1 and i - 1 in blank}
    out, inside, outside = [], {}, {}
    for i, s in enumerate(seqs):
        if i in blank:
            continue
        outside[i] = len(out) + 1
        if any(to == i for j, to in loops.items() if j not in adv):
            out.append(("Do", i))
        inside[i] = len(out) + 1
        if i in adv:
            out.append(("Adv", i))
        elif i in loops:
            out += [("Adv", i), ("Loop", i)]
        else:
            out.append(("Step", i))
    out.append(("End", None))
    return out, inside, outside, {i: to for i, to in loops.items() if i not in adv}


def mac_case(c, name, seqs, only=None):
    o = b2m(c, seqs)
    k = Case(c, o, "Biologic to Maccor: " + name, loc(c, MAC + ".BiologicMbToMaccorProcedure.convert"))
    if o.refused or not isinstance(o.target, list):
        k.note("case", "refused" if o.refused else "no output was found")
        return None
    want, inside, outside, loops = expected_steps(seqs)
    kinds = [(text(s.get("StepType")) if isinstance(s, dict) else None) for s in o.target]
    if None in kinds:
        k.note("steps", "not read")
        return None
    short = {"Do 1": "Do", "Loop 1": "Loop", "AdvCycle": "Adv", "End": "End"}
    k.ob("flow", "steps", [short.get(x, "Step") for x in kinds] == [x for x, _ in want], f"the steps are {kinds}, not {[x for x, _ in want]}", "StepType")
    if [short.get(x, "Step") for x in kinds] != [x for x, _ in want]:
        return None
    for n, ((kind, i), s) in enumerate(zip(want, o.target), 1):
        if only is not None and i not in only:
            continue
        if kind == "Step":
            mac_step(k, s, seqs, i, inside, outside, loops, len(want))
        elif kind == "Loop":
            e = s["Ends"].get("EndEntry") if isinstance(s.get("Ends"), dict) else None
            e = e[0] if isinstance(e, list) and e else e
            if not isinstance(e, dict):
                k.ob("flow", "loop end", False, "the loop has no end", "Ends")
                continue
            k.text("flow", "loop end: quantity", e.get("EndType"), "Loop Cnt", "EndType")
            k.text("flow", "loop end: comparator", e.get("Oper"), ("=", ">="), "Oper")
            # Biologic repeats n times after the first pass, Maccor counts the passes
            v = text(e.get("Value"))
            c.ob("flow", "Biologic to Maccor: loop: count", v == str(int(seqs[i]["ctrl_repeat"]) + 1), f"a loop of {int(seqs[i]['ctrl_repeat']) + 1} passes has the count {v!r} in its Value", k.at("StepValue"))
            to = text(e.get("Step"))
            c.ob("flow", "Biologic to Maccor: loop: next step", to == f"{n + 1:03d}", f"after the last pass the loop at step {n} goes to step {to}, not to the step after it", k.at("Step"))
    return k, o.target


def mac_step(k, s, seqs, i, inside, outside, loops, last):
    q = seqs[i]
    ct = q["ctrl_type"]
    if ct == "Rest":
        k.text("control", "step type", s.get("StepType"), "Rest", "StepType")
        k.text("control", "mode", s.get("StepMode"), "", "StepMode")
    else:
        k.c.ob("control", f"Biologic to Maccor: {ct} {q['charge/discharge'].lower()}: direction", text(s.get("StepType")) in (None, {"Charge": "Charge", "Discharge": "Dischrge"}[q["charge/discharge"]]),
               f"a {q['charge/discharge'].lower()} becomes {text(s.get('StepType'))!r}", k.at("StepType"))
        k.text("control", "mode", s.get("StepMode"), MKIND[ct], "StepMode")
        k.number("control", "control value", s.get("StepValue"), q["ctrl1_val"], MUNITS[ct][q["ctrl1_val_unit"]], key="StepValue", digits=exact)
    for what, cnt, pre, top_, entry in (("end", "lim_nb", "lim", "Ends", "EndEntry"), ("record", "rec_nb", "rec", "Reports", "ReportEntry")):
        v = s.get(top_)
        v = v.get(entry) if isinstance(v, dict) else []
        v = v if isinstance(v, list) else [v]
        used = set()
        for j in range(1, int(q[cnt]) + 1):
            leaf, ty = q[f"{pre}{j}_value"], q[f"{pre}{j}_type"]
            name = f"{ty} {'limit' if what == 'end' else 'record'} in {q[f'{pre}{j}_value_unit']}" + (f" {q[f'lim{j}_comp']} {q[f'lim{j}_action']} {q[f'lim{j}_seq']}" if what == "end" else "")
            hits = [x for x in v if isinstance(x, dict) and id(x) not in used and any(y is leaf for y in walk(as_node(x.get("Value"))))]
            if not hits:
                k.ob(what, name, False, f"no {entry} holds the magnitude of the {name}", "Value")
                continue
            e = hits[0]
            used.add(id(e))
            quantity, units = QUANT[ty]
            unit = q[f"{pre}{j}_value_unit"]
            k.text(what, name + ": quantity", e.get("EndType" if what == "end" else "ReportType"), quantity, "EndType" if what == "end" else "ReportType")
            k.number(what, name + ": magnitude", e.get("Value"), leaf, units[unit], kind="clock" if ty == "Time" else "num", key="Value", digits=centi(k) if ty == "Time" else exact)
            if what == "record":
                continue
            comp = q[f"lim{j}_comp"]
            k.text(what, name + ": comparator", e.get("Oper"), ("=", ">=") if ty == "Time" and comp == ">" else {">": ">=", "<": "<="}[comp], "Oper")
            act, to = q[f"lim{j}_action"], int(q[f"lim{j}_seq"])
            # a jump to the start of a loop from outside is a jump to its Do step
            if act == "Next sequence":
                goal = inside[i] + 1
            elif act == "End":
                goal = last
            else:
                mine = next(((a, b) for b, a in loops.items() if a <= i <= b), None)
                theirs = next(((a, b) for b, a in loops.items() if a <= to <= b), None)
                goal = inside[to] if mine == theirs else outside[to]
            k.text(what, name + ": next step", e.get("Step"), f"{goal:03d}", "Step")


def centi(k):
    """a time may be rounded to centiseconds only where finer ones are refused"""
    def f(fmts, leaf, unit, env, u):
        for d, r in fmts:
            if d < 6 and any(x != () for x in r):
                guarded = any(e.kind == "raise" and any(any(y is leaf for y in walk(g)) and not plain(g, leaf) for g, _ in e.guards) for e in k.o.evs)
                if d < 2 or not guarded:
                    return f"is rounded to {d} decimals of a second"
        return None
    return f


def maccor(c):
    tail = seq(1, "Rest", lims=[("Time", ">", mag("tailT"), "s", "Next sequence", "2")])
    from .p20 import UNITS
    for cd in ("Charge", "Discharge"):
        for ctrl, us, vs in (("CC", UNITS["A"] + ("μA",), "<None>"), ("CV", UNITS["V"], "Ref"), ("CR", UNITS["Ohm"] + ("μOhm",), ""), ("CP", UNITS["W"] + ("μW",), "")):
            for n, u in enumerate(us):
                ls = [("Time", ">", mag("time limit"), UNITS["time"][n % 4], "Next sequence", "1"), ("Ecell", "<>"[n % 2], mag("voltage limit"), "V" if n % 2 else "mV", "End", "2"),
                      ("I", "><"[n % 2], mag("current limit"), us[n] if ctrl == "CC" else "mA", "Goto sequence", "0")]
                rs = [("Time", mag("time record"), UNITS["time"][(n + 1) % 4]), ("Ecell", mag("voltage record"), "mV" if n % 2 else "V"), ("I", mag("current record"), UNITS["A"][n % 5])]
                mac_case(c, f"{cd}, {ctrl} in {u}", [seq(0, ctrl, mag("value"), u, vs, cd, ls, rs), tail], only={0})
    for n, u in enumerate(UNITS["W"] + ("μW",)):
        mac_case(c, f"power record in {u}", [seq(0, "CC", mag("value"), "A", "<None>", "Discharge", [("Ece", ">", mag("voltage limit"), "V", "Next sequence", "1")], [("Power", mag("power record"), u), ("Ece", mag("voltage record"), "V")]), tail], only={0})
    for n, u in enumerate(UNITS["time"]):
        mac_case(c, f"times in {u}", [seq(0, "Rest", lims=[("Time", ">", mag("time limit"), u, "Next sequence", "1"), ("Ecell", "<", mag("voltage limit"), "mV", "End", "0"), ("Time", "<", mag("lower time limit"), u, "Goto sequence", "1")], recs=[("Time", mag("time record"), u)]), tail])
    T_ = lambda i: ("Time", ">", mag(f"T{i}"), "s", "Next sequence", str(i + 1))
    g = lambda to, n: ("Ecell", ">", mag(f"G{n}"), "V", "Goto sequence", str(to))
    R_ = lambda i, *ls: seq(i, "Rest", lims=[T_(i), *ls])
    e = ("Ecell", "<", mag("Vend"), "V", "End", "0")
    mac_case(c, "loop from the start", [R_(0, g(1, "a"), ("Ecell", "<", mag("Vend"), "V", "End", "4")), R_(1, g(0, "b")), seq(2, "Loop", to="0", rpt="3"), R_(3, g(4, "c")), R_(4)])
    mac_case(c, "loop in the middle", [R_(0, g(1, "a")), R_(1, g(2, "d")), R_(2, g(1, "b")), seq(3, "Loop", to="1", rpt="7"), R_(4, g(6, "c")), R_(5), R_(6)])
    mac_case(c, "two loops", [R_(0), seq(1, "Loop", to="0", rpt="2"), R_(2, g(3, "a")), R_(3, g(4, "x")), R_(4, g(3, "b")), seq(5, "Loop", to="3", rpt="4"), R_(6)])
    mac_case(c, "cycle advance", [R_(0), seq(1, "Loop", to="0", rpt="0"), seq(2, "Loop", to="1", rpt="1"), R_(3, g(4, "a")), R_(4)])
