"""P20: the protocol converters refuse what they cannot express, and drop nothing of what they accept.

Every construct of a source language is one small protocol that holds it; the converter is specialised to it by constant propagation
(vfa/pe.py) with all magnitudes abstract.  `refuse`: for a construct the target cannot express no path reaches the output.
`keep`: for an accepted one, each magnitude of the source flows into an active cell of the output."""
import itertools
import re

from .conv import *

EXPLANATION = ("Flow analysis of the three converters, specialised to one construct of the source language at a time: the discriminators (step kind, mode, "
               "comparator, unit, number and shape of entries) are constants, every magnitude is an abstract value. A construct the target language cannot "
               "express must end every path in a raise; of a construct that is accepted, each magnitude must flow into a cell of the output that is in force.")

A, B, M = "ProcedureToSchedule.create_sdu", "MaccorToBiologicMb.convert", "BiologicMbToMaccorProcedure.convert"


def check(c):
    c.rule("refuse", "a source protocol with a construct the target cannot express (one specialisation per construct) reaches no output: every path ends in a raise")
    c.rule("keep", "each control value, limit, end condition, record condition and loop count of an accepted source protocol flows into an active cell of the output, and there is one active entry per source entry")
    arbin(c)
    biologic(c)
    maccor(c)
    c.need("refuse", 60)
    c.need("keep", 30)


class Group:
    """the runs of one converter"""

    def __init__(self, c, conv, run, where, cells):
        self.c, self.conv, self.run, self.cells = c, conv, run, cells
        self.loc = where

    def refuse(self, name, *a, **k):
        c = self.c
        o = self.run(c, *a, **k)
        ok = o.refused
        if not ok:
            soft = opaque(o)
            if soft:
                c.notes.append(f"{self.conv}: {name}: not decided, {soft}")
                return
            if o.target is None:
                c.notes.append(f"{self.conv}: {name}: no output was found")
                return
        c.ob("refuse", f"{self.conv}: {name}", ok, f"{name} is accepted: a path of {self.conv} reaches the output without a raise", self.loc)

    def keep(self, name, leaves, *a, count=None, **k):
        c = self.c
        o = self.run(c, *a, **k)
        if o.refused or o.target is None:
            c.notes.append(f"{self.conv}: {name}: {'refused' if o.refused else 'no output was found'}")
            return None
        got = self.cells(o.target)
        have = {x for v in got for x in walk(v)}
        for l in leaves:
            c.ob("keep", f"{self.conv}: {name}: {l.args[0].split(':')[1]}", l in have, f"the {l.args[0].split(':')[1]} of {name} reaches no active cell of the output", self.loc)
        if count is not None:
            bad = count(o.target)
            if bad is not None:
                c.ob("keep", f"{self.conv}: {name}: entries", not bad, bad or "", self.loc)
        return o


def opaque(o):
    """raises this analysis cannot exclude and whose condition does not turn on a magnitude: the specialisation did not decide them"""
    for e in o.evs:
        if e.kind == "raise" and e.guards:
            if any(not any(is_mag(x) for x in walk(g)) and not const_guard(g) for g, _ in e.guards):
                return f"a raise at {e.where()} may be reached"
    return None


def const_guard(g):
    return g.op == "const"


# ------------------------------------------------------------------ Maccor -> Arbin
def arbin_cells(t):
    out = []
    s = t.get("Schedule") if isinstance(t, dict) else None
    for k, v in (s or {}).items():
        if not isinstance(v, dict):
            out.append(v)
            continue
        n = limits_of(v)
        for kk, x in v.items():
            if isinstance(x, dict):
                i = kk[5:] if kk.startswith("Limit") else ""
                if n is None or not i.isdigit() or int(i) < n:
                    out += [y for y in x.values() if isinstance(y, Node)]
            elif isinstance(x, Node):
                out.append(x)
    return [x for x in out if isinstance(x, Node)]


def limits_of(step_):
    n = step_.get("m_uLimitNum")
    if isinstance(n, Node) and n.op == "const" and str(n.args[0]).isdigit():
        return int(n.args[0])
    return None


def arbin_count(i, want):
    def f(t):
        s = t["Schedule"].get(f"Step{i}") if isinstance(t, dict) and "Schedule" in t else None
        if s is None:
            return f"there is no step {i}"
        n = limits_of(s)
        if n is None:
            return None
        have = [k for k in s if k.startswith("Limit") and isinstance(s[k], dict)]
        if n != want or any(f"Limit{j}" not in have for j in range(n)):
            return f"{want} entries of the source become m_uLimitNum {n} with {len(have)} limits"
        return ""
    return f


def rest(to, n="T"):
    return step("Rest", ends=end("StepTime", "=", to, mag(n + "rest")), reports=rep("StepTime", mag(n + "restrec")))


def around(x):
    return [rest("002", "a"), x, rest("004", "b"), step("End")]


def arbin(c):
    g = Group(c, "Maccor to Arbin", m2a, loc(c, ARBIN + ".ProcedureToSchedule.create_sdu"), arbin_cells)
    V, L, E, R = mag("V"), mag("L"), mag("E"), mag("R")
    te = [end("StepTime", "=", "003", mag("T"))]
    rp = rep("StepTime", R)
    for t in ("Charge", "Dischrge"):
        for m in ("Power", "Resistance", "Nonesuch"):
            g.refuse(f"{t} with mode {m}", around(step(t, m, V, None, te, rp)))
        g.refuse(f"{t} without a mode", around(step(t, None, V, None, te, rp)))
    for t in ("Rest", "Chg Func", "Dis Func", "FastWave", "Pause", "Nonesuch"):
        for m in ("Current", "Voltage"):
            g.refuse(f"step type {t} with mode {m}", around(step(t, m, V, None, te, rp)))
    for t in ("Chg Func", "Dis Func", "FastWave", "Pause", "Do 5", "Nonesuch"):
        g.refuse(f"step type {t} without a mode", around(step(t, None, None, None, te, rp)))
    g.refuse("step type Loop 5", [step("Do 5"), rest("003"), step("Loop 5", ends=end("Loop Cnt", "=", "004", mag("N"))), step("End")])
    for t in ("Charge", "Dischrge"):
        for m, ls in (("Current", {"Current": L}), ("Current", {"Voltage": L, "Current": mag("L2")}), ("Current", {"Power": L}), ("Voltage", {"Voltage": L}),
                      ("Voltage", {"Current": L, "Voltage": mag("L2")}), ("Voltage", {"Current": mag("Lc", crate=True)}), ("Voltage", {"Power": L})):
            g.refuse(f"{t} with mode {m} and limits {' and '.join(ls)}{' (C-rate)' if any(is_crate(x) for x in ls.values()) else ''}", around(step(t, m, V, ls, te, rp)))
    g.refuse("Rest with limits", around(step("Rest", None, None, {"Voltage": L}, te, rp)))
    g.refuse("AdvCycle with limits", around(step("AdvCycle", None, None, {"Voltage": L})))
    for pos in ("single", "second"):
        def ends(e):
            return e if pos == "single" else te + [e]
        for et in ("Power", "Capacity", "Energy", "Half Cycle", "Nonesuch"):
            g.refuse(f"end type {et} ({pos} end)", around(step("Charge", "Current", V, None, ends(end(et, ">=", "003", E)), rp)))
        for op in ("<=", ">=", "<", ">"):
            g.refuse(f"StepTime end with comparator {op} ({pos} end)", around(step("Charge", "Current", V, None, ends(end("StepTime", op, "003", E)), rp)))
        for rt in ("Power", "Capacity", "Energy", "Nonesuch"):
            g.refuse(f"report type {rt} ({pos} report)", around(step("Charge", "Current", V, None, te, rep(rt, R) if pos == "single" else [rep("StepTime", mag("R0")), rep(rt, R)])))
    g.refuse("current end of a rest", around(step("Rest", None, None, None, end("Current", ">=", "003", E), rp)))
    g.refuse("current end of a current step", around(step("Charge", "Current", V, None, end("Current", ">=", "003", E), rp)))
    for et in ("Voltage", "StepTime", "Capacity"):
        g.refuse(f"loop with end type {et}", [step("Do 1"), rest("003"), step("Loop 1", ends=end(et, "=", "004", mag("N"))), step("End")])
    g.refuse("loop with several ends", [step("Do 1"), rest("003"), step("Loop 1", ends=[end("Loop Cnt", "=", "004", mag("N")), end("Voltage", ">=", "004", E)]), step("End")])
    g.refuse("loop without an end", [step("Do 1"), rest("003"), step("Loop 1"), step("End")])
    g.refuse("loop without its Do", [rest("002"), step("Loop 1", ends=end("Loop Cnt", "=", "003", mag("N"))), step("End")])
    g.refuse("loop whose Do comes later", [rest("002"), step("Loop 1", ends=end("Loop Cnt", "=", "003", mag("N"))), step("Do 1"), step("End")])
    g.refuse("loop that follows another loop's Do only", [step("Do 2"), rest("003"), step("Loop 1", ends=end("Loop Cnt", "=", "004", mag("N"))), step("End")])
    # what is accepted
    Ec, Ev, Et, R2, R3 = mag("current end"), mag("voltage end"), mag("time end"), mag("report 2"), mag("report 3")
    for t in ("Charge", "Dischrge"):
        for m, v, ls, cur in (("Current", mag("value"), None, False), ("Current", mag("value", crate=True), None, False), ("Voltage", mag("value"), None, True),
                              ("Current", mag("value"), {"Voltage": mag("limit")}, True), ("Current", mag("value", crate=True), {"Voltage": mag("limit")}, True),
                              ("Voltage", mag("value"), {"Current": mag("limit")}, True)):
            es = [end("Voltage", ">=", "003", Ev), end("StepTime", "=", "004", Et)] + ([end("Current", "<=", "001", Ec)] if cur else [])
            rs = [rep("Voltage", R), rep("Current", R2), rep("StepTime", R3)]
            name = f"{t}, {m}{' (C-rate)' if is_crate(v) else ''}{' with a ' + list(ls)[0].lower() + ' limit' if ls else ''}"
            leaves = [v] + list((ls or {}).values()) + [e["Value"] for e in es] + [r["Value"] for r in rs]
            g.keep(name, leaves, around(step(t, m, v, ls, es, rs)), count=arbin_count(1, len(es) + len(rs)))
            g.keep(name + ", single entries", [v, Et, R], around(step(t, m, v, ls, es[1], rs[0])), count=arbin_count(1, 2))
            g.keep(name + ", many ends", [mag(f"e{i}") for i in range(5)] + [R], around(step(t, m, v, ls, [end("Voltage", ">=", "003", mag(f"e{i}")) for i in range(5)], rs[0])), count=arbin_count(1, 6))
            g.keep(name + ", no ends", [v, R, R2], around(step(t, m, v, ls, None, rs[:2])))
            g.keep(name + ", no reports", [v, Ev, Et], around(step(t, m, v, ls, es[:2], None)), count=arbin_count(1, 2))
    g.keep("Rest", [Et, Ev, R, R2], around(step("Rest", None, None, None, [end("StepTime", "=", "003", Et), end("Voltage", "<=", "001", Ev)], [rep("StepTime", R), rep("Voltage", R2)])), count=arbin_count(1, 4))
    for n in (1, 2):
        g.keep(f"Loop {n}", [mag("loop count")], [step(f"Do {n}"), rest("003"), step("AdvCycle"), step(f"Loop {n}", ends=end("Loop Cnt", "=", "005", mag("loop count"))), step("End")], count=arbin_count(3, 2))


def loc(c, full):
    f = c.func(full)
    return f"{f.module.rel}:{f.node.lineno} in {f.qual}"


# ------------------------------------------------------------------ Maccor -> Biologic
def biologic_cells(t):
    out = list(x for ln in t["header"] for x in ln if isinstance(x, Node))
    for tech in t["techs"]:
        rows = tech["rows"]
        n = max([len(v) for v in rows.values()] or [0])
        for i in range(n):
            for k, v in rows.items():
                if i >= len(v) or not isinstance(v[i], Node):
                    continue
                m = re.match(r"(lim|rec)(\d)_", k)
                if m:
                    nb = rows.get(m.group(1) + "_nb", [])
                    if i < len(nb) and isinstance(nb[i], str) and nb[i].isdigit() and int(m.group(2)) > int(nb[i]):
                        continue
                out.append(v[i])
    return out


def bio_count(i, lims, recs):
    def f(t):
        rows = t["techs"][0]["rows"]
        for k, want in (("lim_nb", lims), ("rec_nb", recs)):
            if want is None:
                continue
            got = rows.get(k, [])
            if i >= len(got) or not isinstance(got[i], str):
                return None
            if got[i] != str(want):
                return f"{want} entries of the source become {k} {got[i]}"
        return ""
    return f


SET = "m.max_voltage_v=vmax;m.min_voltage_v=vmin;m.max_current_a=imax;m.min_current_a=imin"


def brest(to, n="T"):
    return step("Rest", ends=end("StepTime", "=", to, mag(n + "rest")), reports=rep("StepTime", mag(n + "restrec")))


def biologic(c):
    def run(c, steps, settings=SET):
        return m2b(c, steps, settings)
    g = Group(c, "Maccor to Biologic", run, loc(c, BIO + ".MaccorToBiologicMb.convert"), biologic_cells)
    V, L, E, R = mag("V", lo=0.3, hi=4.1), mag("L", lo=0.3, hi=4.1), mag("E", lo=0.3, hi=4.1), mag("R")
    Vc, Lc = mag("Vc", crate=True), mag("Lc", crate=True)
    te = [end("StepTime", "=", "003", mag("T"))]
    rp = rep("StepTime", R)
    for t in ("Charge", "Dischrge"):
        for m in ("Power", "Resistance", "Nonesuch", None):
            g.refuse(f"{t} with mode {m}", around(step(t, m, V, None, te, rp)))
        g.refuse(f"{t} with a C-rate", around(step(t, "Current", Vc, None, te, rp)))
        g.refuse(f"{t} with a C-rate limit", around(step(t, "Voltage", V, {"Current": Lc}, te, rp)))
        g.refuse(f"{t} with a C-rate and a voltage limit", around(step(t, "Current", Vc, {"Voltage": L}, te, rp)))
        for m, ls in (("Current", {"Current": L}), ("Current", {"Voltage": L, "Current": mag("L2")}), ("Current", {"Current": mag("L2"), "Voltage": L}), ("Current", {"Power": L}), ("Voltage", {"Voltage": L}),
                      ("Voltage", {"Current": L, "Voltage": mag("L2")}), ("Voltage", {"Power": L})):
            g.refuse(f"{t} with mode {m} and limits {' and '.join(ls)}", around(step(t, m, V, ls, te, rp)))
        g.refuse(f"{t} with mode Power and a limit", around(step(t, "Power", V, {"Voltage": L}, te, rp)))
    for t in ("FastWave", "Chg Func", "Dis Func", "Pause", "Do 3", "Loop 3", "Nonesuch"):
        for m in (None, "Current"):
            g.refuse(f"step type {t} with mode {m}", around(step(t, m, V if m else None, None, te, rp)))
    g.refuse("Rest with limits", around(step("Rest", None, None, {"Voltage": L}, te, rp)))
    ok = end("Voltage", ">=", "003", mag("E0", lo=0.3, hi=4.1))
    for pos in ("single", "second"):
        def ends(e):
            return e if pos == "single" else [ok, e]
        for et in ("Power", "Capacity", "Energy", "Half Cycle", "Nonesuch"):
            g.refuse(f"end type {et} ({pos} end)", around(step("Charge", "Current", V, None, ends(end(et, ">=", "003", E)), rp)))
        for op in ("=", "!=", "<>"):
            for et in ("Voltage", "Current"):
                g.refuse(f"{et} end with comparator {op} ({pos} end)", around(step("Charge", "Voltage", V, None, ends(end(et, op, "003", E)), rp)))
        for op in ("<=", ">=", "<", ">"):
            g.refuse(f"StepTime end with comparator {op} ({pos} end)", around(step("Charge", "Current", V, None, ends(end("StepTime", op, "003", E)), rp)))
        for rt in ("Power", "Capacity", "Energy", "Nonesuch"):
            g.refuse(f"report type {rt} ({pos} report)", around(step("Charge", "Current", V, None, te, rep(rt, R) if pos == "single" else [rep("StepTime", mag("R0")), rep(rt, R)])))
    es = [end("Voltage", ">=", "003", mag(f"e{i}", lo=0.3, hi=4.1)) for i in range(4)]
    g.refuse("four ends", around(step("Charge", "Current", V, None, es, rp)))
    g.refuse("four reports", around(step("Charge", "Current", V, None, te, [rep("StepTime", mag(f"r{i}")) for i in range(4)])))
    for t in ("Voltage", "StepTime", "Capacity"):
        g.refuse(f"loop with end type {t}", [step("Do 1"), brest("003"), step("Loop 1", ends=end(t, ">=", "004", "3")), step("End")])
        g.refuse(f"nested loop with end type {t}", nested(outer=end(t, ">=", "008", "3")))
    g.refuse("loop that goes on elsewhere", [step("Do 1"), brest("003"), step("Loop 1", ends=end("Loop Cnt", "=", "005", "3")), brest("005", "b"), step("End")])
    g.refuse("nested loop that goes on elsewhere", nested(outer=end("Loop Cnt", "=", "009", "3")))
    g.refuse("loop with several ends", [step("Do 1"), brest("003"), step("Loop 1", ends=[end("Loop Cnt", "=", "004", "3"), end("Voltage", ">=", "004", E)]), step("End")])
    g.refuse("loop without its Do", [brest("002"), step("Loop 1", ends=end("Loop Cnt", "=", "003", "3")), step("End")])
    g.refuse("Loop 2 without its Do", [brest("002"), step("Loop 2", ends=end("Loop Cnt", "=", "003", "3")), step("End")])
    g.refuse("Do 2 outside Do 1", [step("Do 2"), brest("003"), step("Loop 2", ends=end("Loop Cnt", "=", "004", "3")), step("End")])
    # jumps out of the region Biologic can reach
    body = [brest("002", "x"), step("Do 1"), step("Rest", ends=[end("StepTime", "=", "004", mag("T")), end("Voltage", ">=", "001", E)], reports=rp), step("Loop 1", ends=end("Loop Cnt", "=", "005", "3")), step("End")]
    g.refuse("jump from inside a loop to before its Do", body)
    g.refuse("jump from after a loop into it", [step("Do 1"), brest("003", "x"), step("Loop 1", ends=end("Loop Cnt", "=", "004", "3")),
                                                step("Rest", ends=[end("StepTime", "=", "005", mag("T")), end("Voltage", ">=", "002", E)], reports=rp), step("End")])
    n = nested()
    n[4] = step("Rest", ends=[end("StepTime", "=", "006", mag("T")), end("Voltage", ">=", "001", E)], reports=rp)
    g.refuse("jump from inside a nested loop to another technique", n)
    g.refuse("protocol without a final End", [brest("002"), brest("003", "b")])
    # what is accepted
    Ev, Ec, Et, R1, R2, R3 = mag("voltage end", lo=0.3, hi=4.1), mag("current end", lo=0.3, hi=4.1), mag("time end"), mag("report 1"), mag("report 2"), mag("report 3")
    for t in ("Charge", "Dischrge"):
        for m, ls in (("Current", None), ("Voltage", None), ("Current", {"Voltage": mag("limit", lo=0.3, hi=4.1)}), ("Voltage", {"Current": mag("limit", lo=0.3, hi=4.1)})):
            v = mag("value", lo=0.3, hi=4.1)
            name = f"{t}, {m}{' with a ' + list(ls)[0].lower() + ' limit' if ls else ''}"
            i = 2 if ls else 1
            for oc, ov in itertools.product((">=", "<="), repeat=2):
                es = [end("Voltage", ov, "003", Ev), end("Current", oc, "004", Ec), end("StepTime", "=", "001", Et)]
                rs = [rep("Voltage", R1), rep("Current", R2), rep("StepTime", R3)]
                g.keep(f"{name}, ends {ov} and {oc}", [v] + list((ls or {}).values()) + [Ev, Ec, Et, R1, R2, R3], around(step(t, m, v, ls, es, rs)), count=bio_count(i, 3, 3))
            g.keep(name + ", single entries", [v, Et, R1], around(step(t, m, v, ls, es[2], rs[0])), count=bio_count(i, 1, 1))
            g.keep(name + ", no ends", [v, R1, R2], around(step(t, m, v, ls, None, rs[:2])), count=bio_count(i, None if ls else 0, 2))
            for k, lst in (("without settings", ""), ("with a highest voltage only", "m.max_voltage_v=vmax"), ("with a lowest current only", "m.min_current_a=imin")):
                es = [end("Voltage", ">=", "003", Ev), end("Current", "<=", "004", Ec)]
                g.keep(f"{name}, {k}", [v, Ev, Ec], around(step(t, m, v, ls, es, rs[0])), settings=lst, count=bio_count(i, 2, 1))
    g.keep("Rest", [Et, Ev, R1, R2], around(step("Rest", None, None, None, [end("StepTime", "=", "003", Et), end("Voltage", "<=", "001", Ev)], [rep("StepTime", R1), rep("Voltage", R2)])), count=bio_count(1, 2, 2))


def nested(outer=None, inner=None):
    E = mag("E", lo=0.3, hi=4.1)
    return [brest("002", "p"), step("Do 1"), brest("004", "q"), step("Do 2"), brest("006", "r"), step("Loop 2", ends=inner or end("Loop Cnt", "=", "007", "5")),
            step("Loop 1", ends=outer or end("Loop Cnt", "=", "008", "3")), brest("009", "s"), step("End")]


# ------------------------------------------------------------------ Biologic -> Maccor
def maccor_cells(t):
    out = []

    def rec(x):
        if isinstance(x, dict):
            for v in x.values():
                rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
        elif isinstance(x, Node):
            out.append(x)
    rec(t)
    return out


def mac_count(i, ends, reps):
    def f(t):
        if not isinstance(t, list) or i >= len(t):
            return None if not isinstance(t, list) else f"there is no step {i + 1}"
        for k, kk, want in (("Ends", "EndEntry", ends), ("Reports", "ReportEntry", reps)):
            v = t[i].get(k)
            n = 0
            if isinstance(v, dict):
                v = v.get(kk)
                n = len(v) if isinstance(v, list) else 1 if isinstance(v, dict) else None
            elif isinstance(v, Node) and v.op != "const":
                n = None
            if n is not None and n != want:
                return f"{want} entries of the source become {n} {kk}"
        return ""
    return f


UNITS = {"A": ("A", "mA", "µA", "nA", "pA"), "V": ("V", "mV"), "Ohm": ("MOhm", "kOhm", "Ohm", "mOhm", "µOhm"), "W": ("W", "mW", "µW"), "time": ("h", "mn", "s", "ms")}


def maccor(c):
    g = Group(c, "Biologic to Maccor", b2m, loc(c, MAC + ".BiologicMbToMaccorProcedure.convert"), maccor_cells)
    V, E, R = mag("V"), mag("E"), mag("R")
    lim = ("Time", ">", mag("T"), "s", "Next sequence", "1")
    rec = ("Time", mag("TR"), "s")
    tail = seq(1, "Rest", lims=[("Time", ">", mag("tailT"), "s", "Next sequence", "2")])

    def one(**k):
        k.setdefault("lims", [lim])
        k.setdefault("recs", [rec])
        return [seq(0, **k), tail]
    for t in ("TO", "OCV", "CS", "Nonesuch", ""):
        g.refuse(f"control type {t or 'none'}", one(ctrl=t, val=V, unit="A", vs="<None>"))
    for vs in ("Ewe", "Eoc", "Ectrl", "<None>", "Nonesuch"):
        g.refuse(f"CV relative to {vs}", one(ctrl="CV", val=V, unit="V", vs=vs))
    for vs in ("Ictrl", "Imeas", "Ref", "Nonesuch"):
        g.refuse(f"CC relative to {vs}", one(ctrl="CC", val=V, unit="A", vs=vs))
    for ctrl, good, vs in (("CC", "A", "<None>"), ("CV", "V", "Ref"), ("CR", "Ohm", ""), ("CP", "W", "")):
        for u in ("kA", "kV", "uA", "Nonesuch", "", "s") + (("A",) if good != "A" else ()) + (("V",) if good != "V" else ()):
            g.refuse(f"{ctrl} in unit {u or 'none'}", one(ctrl=ctrl, val=V, unit=u, vs=vs))
    cc = dict(ctrl="CC", val=V, unit="A", vs="<None>")
    for first in (True, False):
        pos = "first" if first else "second"

        def lims(l):
            return [l] if first else [lim, l]

        def recs(r):
            return [r] if first else [rec, r]
        for lt in ("Q limit", "|I|", "Temp", "Energy", "Nonesuch", ""):
            g.refuse(f"limit type {lt or 'none'} ({pos} limit)", one(lims=lims((lt, ">", E, "A", "Next sequence", "1")), **cc))
        for op in ("=", ">=", "<=", "!=", ""):
            for lt, u in (("Time", "s"), ("Ecell", "V"), ("I", "A")):
                g.refuse(f"{lt} limit with comparator {op or 'none'} ({pos} limit)", one(lims=lims((lt, op, E, u, "Next sequence", "1")), **cc))
        for lt, us in (("Time", ("us", "d", "A", "")), ("Ecell", ("uV", "A", "")), ("I", ("uA", "kA", "V", ""))):
            for u in us:
                g.refuse(f"{lt} limit in unit {u or 'none'} ({pos} limit)", one(lims=lims((lt, ">", E, u, "Next sequence", "1")), **cc))
        for act in ("Stop", "Pause", "Nonesuch", ""):
            g.refuse(f"limit action {act or 'none'} ({pos} limit)", one(lims=lims(("Time", ">", E, "s", act, "1")), **cc))
        g.refuse(f"jump to a sequence that is not there ({pos} limit)", one(lims=lims(("Time", ">", E, "s", "Goto sequence", "17")), **cc))
        for rt in ("Q", "Energy", "Nonesuch", ""):
            g.refuse(f"record type {rt or 'none'} ({pos} record)", one(recs=recs((rt, R, "A")), **cc))
        for rt, us in (("Time", ("us", "d", "A", "")), ("Ecell", ("uV", "A", "")), ("I", ("uA", "kA", "V", "")), ("Power", ("kW", "A", ""))):
            for u in us:
                g.refuse(f"{rt} record in unit {u or 'none'} ({pos} record)", one(recs=recs((rt, R, u)), **cc))
    g.refuse("four limits", one(lims=[lim] * 4, **cc))
    g.refuse("four records", one(recs=[rec] * 4, **cc))
    for cd in ("", "Nonesuch", "Dischrge"):
        g.refuse(f"direction {cd or 'none'}", one(ctrl="CC", val=V, unit="A", vs="<None>", cd=cd))
    goto = lambda n: ("Ecell", ">", mag("G"), "V", "Goto sequence", str(n))
    R_ = lambda i, *ls: seq(i, "Rest", lims=[("Time", ">", mag(f"T{i}"), "s", "Next sequence", str(i + 1)), *ls])
    g.refuse("overlapping loops", [R_(0), R_(1), seq(2, "Loop", to="0", rpt="2"), R_(3), seq(4, "Loop", to="1", rpt="2")])
    g.refuse("nested loops", [R_(0), R_(1), seq(2, "Loop", to="1", rpt="2"), R_(3), seq(4, "Loop", to="0", rpt="2")])
    g.refuse("jump into a loop", [R_(0, goto(2)), R_(1), R_(2), seq(3, "Loop", to="1", rpt="2"), R_(4)])
    g.refuse("jump back into a finished loop", [R_(0), R_(1), seq(2, "Loop", to="0", rpt="2"), R_(3, goto(1)), R_(4)])
    g.refuse("jump to before a finished loop", [R_(0), R_(1), R_(2), seq(3, "Loop", to="1", rpt="2"), R_(4, goto(0)), R_(5)])
    g.refuse("jump from one loop into another", [R_(0, goto(4)), R_(1), seq(2, "Loop", to="0", rpt="2"), R_(3), R_(4), seq(5, "Loop", to="3", rpt="2"), R_(6)])
    for what, techs in (("two techniques", {"1": {"Type": "Modulo Bat", "Step": {"1": seq(0, **cc, lims=[lim])}}, "2": {"Type": "Loop", "goto Ne": "1", "nt times": "3"}}),
                        ("two Modulo Bat techniques", {"1": {"Type": "Modulo Bat", "Step": {"1": seq(0, **cc, lims=[lim])}}, "2": {"Type": "Modulo Bat", "Step": {"1": seq(0, **cc, lims=[lim])}}}),
                        ("a technique other than Modulo Bat", {"1": {"Type": "GCPL", "Step": {"1": seq(0, **cc, lims=[lim])}}})):
        g.refuse(what, [], techs=techs)
    # what is accepted
    for cd in ("Charge", "Discharge"):
        for ctrl, us, vs in (("CC", UNITS["A"], "<None>"), ("CC", ("A",), ""), ("CV", UNITS["V"], "Ref"), ("CR", UNITS["Ohm"], ""), ("CP", UNITS["W"], "")):
            for u in us:
                ls = [("Time", ">", mag("time limit"), "s", "Next sequence", "1"), ("Ecell", ">", mag("voltage limit"), "V", "End", "2"), ("I", "<", mag("current limit"), "mA", "Goto sequence", "0")]
                rs = [("Time", mag("time record"), "s"), ("Ecell", mag("voltage record"), "mV"), ("I", mag("current record"), "A")]
                g.keep(f"{cd}, {ctrl} in {u}{' (plain)' if not vs and ctrl == 'CC' else ''}", [mag("value")] + [l[2] for l in ls] + [r[1] for r in rs],
                       [seq(0, ctrl, mag("value"), u, vs, cd, ls, rs), tail], count=mac_count(0, 3, 3))
        g.keep(f"{cd}, CC, no limits and records", [mag("value")], [seq(0, "CC", mag("value"), "A", "<None>", cd), tail], count=mac_count(0, 0, 0))
        g.keep(f"{cd}, CC, one limit, power record", [mag("value"), mag("time limit"), mag("power record")],
               [seq(0, "CC", mag("value"), "A", "<None>", cd, ls[:1], [("Power", mag("power record"), "W")]), tail], count=mac_count(0, 1, 1))
