"""P18: each protocol parameter lands in the template slot meant for it."""
import re

from .common import *

EXPLANATION = ("Every protocol generator is interpreted abstractly on an unknown template and an unknown parameter row, with its insert helpers inlined. Each write into the template is collected with the "
               "path of the slot, the term of the value and the conditions the template was checked for before (asserts and refusals). A dimensional analysis of the value gives its quantity, unit and "
               "parameters; the checked conditions give the kind and direction of the slot.")

MACCOR = "beep.protocol.maccor.Procedure"
REGULAR = ("from_regcyclev2", "generate_procedure_regcyclev3", "generate_procedure_drivingv1", "generate_procedure_chargingv1")
DIAG = ("add_procedure_diagcyclev2", "generate_procedure_diagcyclev3")
MIRROR = {"Charge": "charge", "Dischrge": "discharge", "Discharge": "discharge"}
WRAP = {"builtins.float", "builtins.int", "builtins.round", "builtins.str", "numpy.round", "numpy.float64", "numpy.around", "builtins.abs", "numpy.int64"}
UNIT = {"V": ({"V": 1}, 1.0), "crate": ({"s": -1}, 1 / 3600), "Ah": ({"A": 1, "s": 1}, 3600.0), "A": ({"A": 1}, 1.0), "min": ({"s": 1}, 60.0), "s": ({"s": 1}, 1.0), "%": ({}, 0.01), "count": ({"n": 1}, 1.0)}
NEEDED = {"regular": ("charge_constant_current_2|charge_current_param_4", "charge_cutoff_voltage", "charge_constant_voltage_time", "charge_rest_time", "discharge_rest_time", "discharge_cutoff_voltage", "diagnostic_start_cycle", "diagnostic_interval"),
          "diag": ("reset_cycle_current", "reset_cycle_cutoff_current", "diagnostic_charge_cutoff_voltage", "diagnostic_discharge_cutoff_voltage", "diagnostic_cutoff_current", "HPPC_baseline_constant_current", "HPPC_pulse_current_1", "HPPC_pulse_current_2",
                   "HPPC_pulse_duration_1", "HPPC_pulse_duration_2", "HPPC_rest_time", "HPPC_pulse_rest_time", "HPPC_interval", "HPPC_pulse_cutoff_voltage", "RPT_charge_constant_current", "RPT_discharge_constant_current_1",
                   "RPT_discharge_constant_current_2", "RPT_discharge_constant_current_3"),
          "formation": tuple(f"{p}_{d}charge_{q}_1" for p in ("initial", "mid", "final") for d in ("", "dis") for q in ("current", "voltage")) + ("initial_charge_current_2", "initial_charge_voltage_2", "initial_charge_cvhold_1", "initial_charge_cvhold_2",
                                                                                                                                                  "initial_charge_rest_1", "initial_charge_rest_2", "mid_cycle_reps")}


def quantity(n):
    """the unit of a parameter, by its (public) name"""
    if re.search(r"(capacity_nominal|nominal_capacity)$", n):
        return "Ah"
    if n in ("CC1", "CC2"):
        return "A"
    if n == "CC1_capacity":
        return "Ah"
    if re.search(r"pulse_rest_time$|_duration(_\d+)?$", n):
        return "s"
    if re.search(r"_time$|_cvhold(_\d+)?$|_rest(_\d+)?$", n):
        return "min"
    if re.search(r"voltage(_\d+)?$", n):
        return "V"
    if re.search(r"current(_\d+)?$|current_param_\d+$|charge_rate$", n):
        return "crate"
    if re.search(r"percent_limit|soc_limit|HPPC_interval$", n):
        return "%"
    if re.search(r"_cycle$|diagnostic_interval$|_reps$|_repeats$", n):
        return "count"
    return None


def direction(n):
    if re.match(r"HPPC_pulse_(current|duration)_1$", n):
        return "discharge"
    if re.match(r"HPPC_pulse_(current|duration)_2$|HPPC_pulse_cutoff_voltage$", n):
        return "charge"
    if n in ("cutoff_voltage", "reset_cycle_cutoff_current", "CC1", "CC2"):
        return "charge"
    if "discharge" in n:
        return "discharge"
    return "charge" if "charge" in n else None


def pname(t):
    """the parameter a leaf reads"""
    if t.op in ("sub", "get") and t.args[1].op == "const" and isinstance(t.args[1].args[0], str):
        return t.args[1].args[0]
    if t.op == "attr":
        return t.args[1]
    if t.op == "param":
        return t.args[0]
    return None


class Dim:
    def __init__(self, unit, scale, params=(), off=0.0, digits=None):
        self.unit, self.scale, self.params, self.off, self.digits = {k: v for k, v in unit.items() if v}, scale, tuple(params), off, digits

    def const(self):
        return not self.params and not self.unit


def dmin(a, b):
    return b if a is None else a if b is None else min(a, b)


def dim(t):
    """quantity, scale, parameters and offset of a numeric term; None when unknown"""
    o, a = t.op, t.args
    if o == "const":
        return Dim({}, a[0]) if isinstance(a[0], (int, float)) and not isinstance(a[0], bool) else None
    n = pname(t)
    if n is not None:
        q = quantity(n)
        if q:
            return Dim(*UNIT[q], params=[n])
        return None
    if o == "sub" and a[1].op == "const" and isinstance(a[1].args[0], int) or o == "meth" and a[1] in ("item", "squeeze") or o == "attr" and a[1] in ("values", "iloc", "loc"):
        return dim(a[0])
    if o == "call" and a[0] in WRAP and a[1]:
        d = dim(a[1][0])
        if d is None:
            return None
        if a[0] == "builtins.int" or a[0].endswith("round") or a[0].endswith("around"):
            nd = a[1][1] if len(a[1]) > 1 else dict(a[2]).get("ndigits") or dict(a[2]).get("decimals") if len(a) > 2 and a[2] else None
            nd = 0 if nd is None else cval(nd)
            return Dim(d.unit, d.scale, d.params, d.off, dmin(d.digits, nd)) if isinstance(nd, int) else d
        return d
    if o == "bin":
        op, x, y = a[0], dim(a[1]), dim(a[2])
        if x is None or y is None:
            return None
        if op == "%" and not x.unit and not y.unit:
            return Dim({}, 1.0)
        if op in ("*", "/"):
            s = 1 if op == "*" else -1
            u = dict(x.unit)
            for k, v in y.unit.items():
                u[k] = u.get(k, 0) + s * v
            if x.const() and y.const():
                return Dim({}, x.scale * y.scale if s > 0 else x.scale / y.scale)
            # the numeric value times the scale is the SI value: a plain number divides the scale
            xs = 1 / x.scale if x.const() and x.scale else x.scale
            ys = 1 / y.scale if y.const() and y.scale else y.scale
            off = 0.0
            if (x.off or y.off) and not (x.const() or y.const()):
                return None
            off = (x.off * y.scale if s > 0 else x.off / y.scale) if y.const() and not x.const() else y.off * x.scale if x.const() and s > 0 else 0.0
            return Dim(u, xs * ys if s > 0 else xs / ys, x.params + y.params, off, dmin(x.digits, y.digits))
        if op in ("+", "-"):
            if x.const() and y.const():
                return Dim({}, x.scale + y.scale if op == "+" else x.scale - y.scale)
            if y.const():
                return Dim(x.unit, x.scale, x.params, x.off + (y.scale if op == "+" else -y.scale), x.digits)
            if x.const() and op == "+":
                return Dim(y.unit, y.scale, y.params, y.off + x.scale, y.digits)
            if x.unit == y.unit and abs(x.scale - y.scale) < 1e-9 * abs(x.scale):
                return Dim(x.unit, x.scale, x.params + y.params, x.off + y.off, dmin(x.digits, y.digits))
            return Dim({"mixed": 1}, 1.0, x.params + y.params)
    if o == "ite":
        x, y = dim(a[1]), dim(a[2])
        if x and y and x.unit == y.unit:
            return Dim(x.unit, x.scale, x.params + y.params, x.off, dmin(x.digits, y.digits))
    return None


# ------------------------------------------------------------------ step times
def intnorm(t):
    """normal form of integer division chains: ('div', X, n) | ('mod', form, m) | ('x', term)"""
    o, a = t.op, t.args
    if o == "call" and a[0] in ("builtins.int", "math.floor", "numpy.floor") and a[1] and a[1][0].op == "bin" and a[1][0].args[0] == "/":
        return divn(intnorm(a[1][0].args[1]), cval(a[1][0].args[2]))
    if o == "bin" and a[0] == "//":
        return divn(intnorm(a[1]), cval(a[2]))
    if o == "bin" and a[0] == "%":
        return modn(intnorm(a[1]), cval(a[2]))
    if o == "sub" and a[0].op == "call" and a[0].args[0] == "builtins.divmod" and a[1].op == "const":
        x, n = a[0].args[1]
        return divn(intnorm(x), cval(n)) if a[1].args[0] == 0 else modn(intnorm(x), cval(n))
    if o == "call" and a[0] == "builtins.int" and a[1] and a[1][0].op in ("sub", "bin") and intnorm(a[1][0])[0] != "x":
        return intnorm(a[1][0])
    return ("x", strip(t))


def strip(t):
    while t.op == "call" and t.args[0] in ("builtins.int", "builtins.round", "builtins.float") and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def divn(f, n):
    if not isinstance(n, (int, float)):
        return ("?",)
    n = int(n)
    if f[0] == "x":
        return ("div", f[1], n)
    if f[0] == "div":
        return ("div", f[1], f[2] * n)
    if f[0] == "mod" and f[2] % n == 0:
        g = f[1]
        return ("mod", divn(g, n), f[2] // n)
    return ("?",)


def modn(f, n):
    return ("mod", f, int(n)) if isinstance(n, (int, float)) and f[0] in ("x", "div") else ("mod", f[1], int(n)) if f[0] == "mod" and f[2] % n == 0 else ("?",)


def steptime(t):
    """(verdict, seconds term): 'ok', 'wraps', 'bad' or None for a term that is formatted as HH:MM:SS"""
    if t.op == "call" and t.args[0] == "time.strftime":
        g = [x for x in walk(t) if x.op == "call" and x.args[0] in ("time.gmtime", "time.localtime")]
        return ("wraps", g[0].args[1][0]) if g and g[0].args[1] else (None, None)
    if t.op == "meth" and t.args[1] == "strftime":
        g = [x for x in walk(t) if x.op == "call" and x.args[0].endswith(("fromtimestamp", "timedelta"))]
        return ("wraps", (g[0].args[1] or [v for _, v in g[0].args[2]])[0]) if g else (None, None)
    if t.op == "call" and t.args[0] == "builtins.str" and t.args[1] and t.args[1][0].op == "call" and t.args[1][0].args[0].endswith("timedelta"):
        return ("wraps", None)
    if t.op == "str":
        parts = [p for p in t.args[0]] if t.args and isinstance(t.args[0], tuple) else list(t.args)
        vals = [p for p in parts if p.op != "const"]
        txt = "".join(str(p.args[0]) if p.op == "const" else "\0" for p in parts)
        if len(vals) != 3 or txt != "\0:\0:\0":
            return (None, None)
        fs, specs = [], []
        for v in vals:
            specs.append(cval(v.args[1]) if v.op == "fmt" and len(v.args) > 1 and isinstance(v.args[1], type(t)) else v.args[1] if v.op == "fmt" and len(v.args) > 1 else None)
            fs.append(intnorm(v.args[0] if v.op == "fmt" else v))
        h, m, s = fs
        base = next((f[1] for f in (h,) if f[0] == "div"), None)
        if base is None and h[0] == "mod" and h[1][0] == "div":
            return ("wraps", h[1][1]) if h[2] == 24 else ("bad", h[1][1])
        if base is None or any(f[0] == "?" for f in fs):
            return (None, None)
        good = h == ("div", base, 3600) and m == ("mod", ("div", base, 60), 60) and s == ("mod", ("x", base), 60)
        return ("ok" if good else "bad", base)
    return (None, None)


# ------------------------------------------------------------------ paths, facts and writes
def path(t):
    keys = []
    while True:
        if t.op in ("sub", "get"):
            keys.append(t.args[1])
            t = t.args[0]
        elif t.op == "elem":
            keys.append(t)
            t = t.args[0]
        else:
            return t, keys[::-1]


def kstr(k):
    v = cval(k) if k.op == "const" else None
    return v if v is not None else k


def locate(keys):
    """(step key, rest of the path) or None: where in a Maccor or Biologic template a path points"""
    ks = [kstr(k) for k in keys]
    for mark in ("TestStep", "Step"):
        if mark in ks:
            i = ks.index(mark)
            if i + 1 < len(ks):
                return stepkey(keys[i + 1]), tuple(ks[i + 2:])
    return None


def stepkey(k):
    if k.op == "const":
        v = k.args[0]
        if isinstance(v, str) and v.isdigit():
            v = int(v)
        return (None, v) if isinstance(v, int) else (v, 0)
    if k.op == "bin" and k.args[0] == "+":
        a, b = k.args[1], k.args[2]
        if b.op == "const" and isinstance(b.args[0], int):
            x, o = stepkey(a)
            return (x, o + b.args[0])
        if a.op == "const" and isinstance(a.args[0], int):
            x, o = stepkey(b)
            return (x, o + a.args[0])
    if k.op == "call" and k.args[0] == "builtins.str" and k.args[1]:
        return stepkey(k.args[1][0])
    return (k, 0)


def elems(t):
    return t.args[0] if t.args and isinstance(t.args[0], tuple) else t.args


def facts(e):
    """{(step, field path): allowed constants} known to hold when the event is reached"""
    out = {}

    def eat(cond, pol):
        if cond.op == "not":
            return eat(cond.args[0], not pol)
        if cond.op == "bool" and (cond.args[0] == "and") == pol:
            for x in cond.args[1]:
                eat(x, pol)
            return
        if cond.op == "cmp" and pol and cond.args[0] in ("==", "in", "is"):
            a, b = cond.args[1], cond.args[2]
            for x, y in ((a, b), (b, a)):
                v = cval(y) if y.op == "const" else tuple(cval(z) for z in elems(y)) if y.op in ("tuple", "list", "set") else None
                if v is None:
                    continue
                _, ks = path(x)
                pre = False
                if ks and ks[-1].op in ("slice", "call") or x.op == "sub" and "slice" in str(x.args[1].op):
                    ks, pre = ks[:-1], True
                loc = locate(ks)
                if loc:
                    vs = set(v) if isinstance(v, tuple) and cond.args[0] == "in" else {v}
                    if pre:
                        vs = {("prefix", z) for z in vs}
                    out.setdefault(loc, []).append(vs)
        if cond.op == "meth" and cond.args[1] == "startswith" and pol and cond.args[2] and cond.args[2][0].op == "const":
            loc = locate(path(cond.args[0])[1])
            if loc:
                out.setdefault(loc, []).append({("prefix", cval(cond.args[2][0]))})

    for g, p in e.guards:
        eat(g, p)
    return out


def fact(fs, step, *field):
    """the constants a field of a step is known to have, or None"""
    got = fs.get((step, field))
    if not got:
        return None
    plain = [g for g in got if not any(isinstance(x, tuple) for x in g)]
    if plain:
        r = set(plain[0])
        for g in plain[1:]:
            r &= g
        return r
    return {x[1] for g in got for x in g if isinstance(x, tuple)}


class W:
    def __init__(self, step, slot, value, e):
        self.step, self.slot, self.value, self.e, self.facts = step, slot, value, e, facts(e)


def writes(evs, root=None):
    out = []
    for e in evs:
        if e.kind == "store" and e.how != "attr":
            _, ks = path(e.base)
            loc = locate(ks + [e.key])
            if loc:
                out.append(W(loc[0], loc[1], e.value, e))
        elif e.kind == "call" and str(e.target) in ("pydash.set_", "pydash.set_with", "pydash.objects.set_with", "pydash.objects.set_") and len(e.args) >= 3 and e.args[1].op == "const":
            loc = locate([const(k) for k in str(e.args[1].args[0]).split(".")])
            if loc:
                out.append(W(loc[0], loc[1], e.args[2], e))
    return out


def final(ws):
    """the writes that survive: a step turned into something else (its StepType set) drops what was written before"""
    out = []
    for w in ws:
        if w.slot == ("StepType",):
            out = [x for x in out if x.step != w.step]
        out.append(w)
    return out


def slotname(w):
    return ".".join(str(s) for s in w.slot)


def lbl(gen, w):
    return f"{gen}: step {w.step[1] if w.step[0] is None else show(w.step[0], 2) + '+' + str(w.step[1])} {slotname(w)}"


# ------------------------------------------------------------------ the rules
def check(c):
    c.rule("kind", "a value is written only into a slot of its own physical quantity and unit; currents are scaled by the nominal capacity")
    c.rule("refusal", "before a value is written the template's step kind, mode and end kind at that place are checked, and a mismatch stops the generation")
    c.rule("direction", "charge parameters are written to charge steps, discharge parameters to discharge steps, rest times to the rest after them")
    c.rule("own step", "numbered parameters, pulses, phases and cutoffs stay with the step they describe")
    c.rule("complete", "every parameter of the row reaches the template, in every repetition of the steps it describes")
    c.rule("precision", "rounding keeps at least three decimals, and step times keep durations of a day and more")
    k = c.cls(MACCOR)
    for name in ("from_exp",) + REGULAR + DIAG:
        f = c.P.find_method(k, name)
        if f is None:
            c.notes.append(f"{name}: not found")
            continue
        it = c.interp()
        res, st, evs = c.run(it, f, cls=k) if f.is_classmethod else c.run(it, f, self_node=mk("param", "self"), cls=k)
        ws = final(writes(evs))
        maccor(c, name, ws)
        if name in REGULAR or name in DIAG:
            groups(c, name, ws, NEEDED["regular" if name in REGULAR else "diag"], evs)
    b = c.cls("beep.protocol.biologic.Settings")
    f = c.P.find_method(b, "formation_protocol_bcs")
    if f is not None:
        it = c.interp()
        res, st, evs = c.run(it, f, self_node=mk("param", "self"), cls=b)
        ws = writes(evs)
        biologic(c, "formation_protocol_bcs", ws)
        groups(c, "formation_protocol_bcs", ws, NEEDED["formation"], evs)
    arbin(c)
    waveform(c)
    driver(c)
    c.need("kind", 30)
    c.need("refusal", 30)


def fits(c, lab, d, slot, w, gen):
    """a dimension in a slot of the given unit"""
    want = {"V": ({"V": 1}, 1.0), "A": ({"A": 1}, 1.0), "s": ({"s": 1}, 1.0), "min": ({"s": 1}, 60.0), "h": ({"s": 1}, 3600.0), "count": ({"n": 1}, 1.0)}[slot]
    if d.const():
        return True
    unit, ok = d.unit, True
    if slot == "A" and unit == {"A": 1, "s": 1} and all(quantity(p) == "Ah" for p in d.params):
        unit, scale = {"A": 1}, 1.0         # a fixed C-rate times the capacity
    elif slot == "A" and gen == "from_exp" and unit == {"s": -1}:
        unit, scale = {"A": 1}, 1.0         # the EXP templates are in C-rates
    else:
        scale = d.scale
    what = " * ".join(dict.fromkeys(d.params))
    ok = unit == want[0]
    c.ob("kind", lab, ok, f"{what} (unit {d.unit}) is written into a slot of unit {want[0]}", w.e.where())
    if ok:
        c.ob("kind", lab + " scale", abs(scale - want[1]) < 1e-6 * want[1], f"{what} is written in units of {scale:g}, the slot is in units of {want[1]:g}", w.e.where())
        off = {0.0, -1.0} if slot == "s" else {-1.0} if gen == "formation_protocol_bcs" and slot == "count" else {0.0}
        c.ob("kind", lab + " offset", d.off in off, f"{d.off:+g} is added to {what}", w.e.where())
        if slot in ("V", "A"):
            c.ob("precision", lab, d.digits is None or d.digits >= 3, f"{what} is rounded to {d.digits} decimals", w.e.where())
    return ok


def one_kind(c, lab, table, names, w):
    """the quantity all the accepted kinds of a field hold"""
    kinds = {table.get(n) for n in names or ()}
    if len(kinds) > 1:
        c.ob("refusal", lab, False, f"kinds of different quantities are accepted for the same value: {', '.join(sorted(map(str, names)))}", w.e.where())
    return kinds.pop() if len(kinds) == 1 else None


def maccor(c, gen, ws):
    for w in ws:
        slot = w.slot
        if slot in (("StepType",), ("StepMode",), ("Ends",), ("Reports",), ("Range",), ("Option1",), ("Option2",), ("Option3",)):
            continue
        lab = lbl(gen, w)
        if any(x.step == w.step and x.slot == ("StepType",) for x in ws if x.e.idx < w.e.idx):
            v = show(w.value, 8)
            c.ob("kind", lab, slot == ("StepValue",), f"{v} is written into {slotname(w)} of a waveform step", w.e.where())
            continue
        st = fact(w.facts, w.step, "StepType")
        c.ob("refusal", lab + " StepType", bool(st), "is written without checking the step's type", w.e.where())
        if slot == ("StepValue",):
            mode = fact(w.facts, w.step, "StepMode")
            c.ob("refusal", lab + " StepMode", bool(mode), "is written without checking the step's mode", w.e.where())
            kind = one_kind(c, lab + " StepMode", {"Current": "A", "Voltage": "V"}, mode, w)
        elif len(slot) == 2 and slot[0] == "Limits":
            kind = {"Current": "A", "Voltage": "V"}.get(slot[1])
        elif slot[0] == "Ends" and slot[-1] == "Value":
            et = fact(w.facts, w.step, *slot[:-1], "EndType")
            c.ob("refusal", lab + " EndType", bool(et), "is written without checking the kind of that end entry", w.e.where())
            kind = one_kind(c, lab + " EndType", {"Voltage": "V", "Current": "A", "StepTime": "s", "Loop Cnt": "count"}, et, w)
            op = fact(w.facts, w.step, *slot[:-1], "Oper")
        else:
            c.notes.append(f"{lab}: slot not modelled")
            continue
        if kind is None:
            continue
        if kind == "s":
            verdict, secs = steptime(w.value)
            c.ob("precision", lab + " step time", verdict != "wraps", "is formatted as a time of day: a duration of 24 h or more wraps around", w.e.where())
            c.ob("kind", lab + " step time", verdict != "bad", "hours, minutes and seconds are not those of the duration", w.e.where())
            if secs is None:
                d0 = dim(w.value)
                if d0 is not None and not d0.const() and d0.unit != {"s": 1}:
                    c.ob("kind", lab, False, f"{' * '.join(d0.params)} is written into a time slot", w.e.where())
                else:
                    c.notes.append(f"{lab}: {show(w.value, 5)} not read as a step time")
                continue
            d = dim(secs)
        else:
            d = dim(w.value)
        if d is None:
            c.notes.append(f"{lab}: {show(w.value, 6)} has no known quantity")
            continue
        w.dim, w.kind, w.type = d, kind, st
        fits(c, lab, d, kind, w, gen)
        t = MIRROR.get(next(iter(st))) if st and len(st) == 1 else None
        for p in dict.fromkeys(d.params):
            if quantity(p) == "Ah":
                continue
            rest = re.search(r"rest_time$", p)
            if rest:
                c.ob("direction", f"{lab} {p}", st == {"Rest"}, f"{p} is written to a step of type {sorted(st or [])}", w.e.where())
            elif direction(p) and t:
                c.ob("direction", f"{lab} {p}", t == direction(p), f"{p} is written to a {t} step", w.e.where())
            elif direction(p) and st:
                c.ob("direction", f"{lab} {p}", False, f"{p} is written to a step of type {sorted(st)}", w.e.where())
            if quantity(p) == "crate" and kind == "A":
                cut = "cutoff" in p
                c.ob("own step", f"{lab} {p}", cut == (slot[0] == "Ends"), f"{p} is written into {slotname(w)}", w.e.where())
            if p == "diagnostic_start_cycle":
                c.ob("own step", f"{lab} {p}", st == {"Loop 1"}, f"{p} counts the repeats of the first loop, is written to {sorted(st or [])}", w.e.where())
            if p == "diagnostic_interval":
                c.ob("own step", f"{lab} {p}", st == {"Loop 2"}, f"{p} counts the repeats of the second loop, is written to {sorted(st or [])}", w.e.where())
            if p == "charge_constant_voltage_time":
                c.ob("own step", f"{lab} {p}", fact(w.facts, w.step, "StepMode") == {"Voltage"}, f"{p} is written to a step that is not at constant voltage", w.e.where())


def biologic(c, gen, ws):
    for w in ws:
        lab = lbl(gen, w)
        s = w.slot[-1] if w.slot else ""
        g = lambda n: fact(w.facts, w.step, n)
        ct, kind = g("ctrl_type"), None
        if s in ("ctrl1_val", "ctrl2_val", "ctrl3_val"):
            u = g(s + "_unit")
            c.ob("refusal", lab + " ctrl_type", bool(ct), "is written without checking the control type", w.e.where())
            c.ob("refusal", lab + " unit", bool(u), "is written without checking the unit of the slot", w.e.where())
            c.ob("refusal", lab + " direction", bool(g("charge/discharge")), "is written without checking the direction of the step", w.e.where())
            kind = {"A": "A", "V": "V", "mA": None, "mV": None}.get(next(iter(u))) if u else None
            if ct and kind:
                c.ob("refusal", lab + " control matches unit", {"A": {"CC"}, "V": {"CV"}}[kind] >= ct, f"control type {sorted(ct)} and unit {sorted(u)} disagree", w.e.where())
        elif re.match(r"lim\d_value$", s):
            lt, u = g(s[:4] + "_type"), g(s + "_unit")
            c.ob("refusal", lab + " ctrl_type", bool(ct), "is written without checking the control type", w.e.where())
            c.ob("refusal", lab + " limit type", bool(lt), "is written without checking the kind of the limit", w.e.where())
            c.ob("refusal", lab + " unit", bool(u), "is written without checking the unit of the slot", w.e.where())
            if ct and not ct & {"Rest"}:
                c.ob("refusal", lab + " direction", bool(g("charge/discharge")), "is written without checking the direction of the step", w.e.where())
            kind = {("Ecell", "V"): "V", ("Time", "mn"): "min", ("Time", "s"): "s", ("Time", "h"): "h", ("|I|", "A"): "A"}.get((next(iter(lt)), next(iter(u)))) if lt and u else None
        elif s == "ctrl_repeat":
            c.ob("refusal", lab + " ctrl_type", ct == {"Loop"}, "is written without checking that the step is a loop", w.e.where())
            kind = "count"
        else:
            c.notes.append(f"{lab}: slot not modelled")
            continue
        d = dim(w.value)
        if d is None or kind is None:
            c.notes.append(f"{lab}: {show(w.value, 6)} not decided")
            continue
        w.dim, w.kind, w.type = d, kind, ct
        fits(c, lab, d, kind, w, gen)
        side = g("charge/discharge")
        t = MIRROR.get(next(iter(side))) if side and len(side) == 1 else None
        for p in dict.fromkeys(d.params):
            if quantity(p) == "Ah":
                continue
            if re.search(r"_rest(_\d+)?$", p):
                c.ob("direction", f"{lab} {p}", ct == {"Rest"}, f"{p} is written to a step of type {sorted(ct or [])}", w.e.where())
            elif re.search(r"_cvhold(_\d+)?$", p):
                c.ob("own step", f"{lab} {p}", ct == {"CV"}, f"{p} is written to a step of type {sorted(ct or [])}", w.e.where())
                c.ob("direction", f"{lab} {p}", t is None or t == direction(p), f"{p} is written to a {t} step", w.e.where())
            elif direction(p):
                c.ob("direction", f"{lab} {p}", t is None or t == direction(p), f"{p} is written to a {t} step", w.e.where())


def family(p):
    m = re.match(r"(reset|HPPC|RPT|initial|mid|final)_", p)
    return m.group(1) if m else None


def number(p):
    m = re.search(r"_(\d+)$", p)
    return (p[:m.start()], int(m.group(1))) if m and "param" not in p else None


def groups(c, gen, ws, needed, evs):
    steps = {}
    for w in ws:
        if getattr(w, "dim", None) is not None:
            steps.setdefault(w.step, []).append(w)
    params = {}
    for w in ws:                    # any mention counts, whether or not its quantity could be computed
        for x in walk(w.value):
            p = pname(x)
            if p and quantity(p):
                params.setdefault(p, set()).add(w.step)
    wave = {w.step for w in ws if w.slot == ("StepType",)}
    # every parameter arrives
    for n in needed:
        have = set().union(*[params.get(x, set()) for x in n.split("|")])
        c.ob("complete", f"{gen}: {n}", bool(have), f"{n} is written nowhere: the template's own value is kept")
    if gen in REGULAR:
        for n in ("discharge_constant_current", "charge_constant_current_1", "charge_percent_limit_1"):
            c.ob("complete", f"{gen}: {n}", bool(params.get(n)) or bool(wave), f"{n} is written nowhere: the template's own value is kept")
        reps = {n: len(params.get(n, ())) for n in ("charge_rest_time", "discharge_rest_time", "charge_constant_voltage_time", "charge_constant_current_2", "charge_current_param_4", "discharge_constant_current", "charge_constant_current_1", "charge_percent_limit_1",
                                                    "diagnostic_start_cycle", "diagnostic_interval") if params.get(n)}
        m = max(reps.values(), default=0)
        for n, k in reps.items():
            c.ob("complete", f"{gen}: repetitions of {n}", k == m, f"{n} is written to {k} step(s), other parameters of the regular cycle to {m}")
        if wave:
            c.ob("complete", f"{gen}: repetitions of the waveform", len(wave) == m, f"the waveform is written to {len(wave)} step(s), the parameters of the regular cycle to {m}")
    # the same step written twice gets the same parameters
    lead = {}
    for s, l in steps.items():
        head = [w for w in l if w.slot[-1] in ("StepValue", "ctrl1_val")]
        if head:
            ps = tuple(sorted(set(head[0].dim.params)))
            if any(quantity(p) != "Ah" for p in ps):
                lead.setdefault((ps, tuple(sorted(head[0].type or ())), head[0].kind), []).append(s)
    for key, ss in lead.items():
        if len(ss) < 2 or gen == "formation_protocol_bcs":
            continue
        maps = {s: frozenset((w.slot, tuple(sorted(set(w.dim.params)))) for w in steps[s]) for s in ss}
        best = max(maps.values(), key=lambda m: (sum(x == m for x in maps.values()), len(m)))
        union = frozenset().union(*maps.values())
        for s in ss:
            c.ob("complete", f"{gen}: step {s[1]} like the others of {key[0]}", maps[s] == best or maps[s] == union,
                 "writes " + ", ".join(sorted(f"{'.'.join(map(str, a))} <- {'*'.join(b)}" for a, b in maps[s] ^ best)) + " unlike the same step elsewhere", steps[s][0].e.where())
    # numbering and phases on one step
    order = sorted(steps, key=lambda s: (show(s[0], 4) if s[0] is not None else "", s[1]))
    for s in order:
        ps = [p for w in steps[s] for p in w.dim.params]
        nums = {number(p)[1] for p in ps if number(p)}
        c.ob("own step", f"{gen}: step {s[1]} numbers", len(nums) <= 1, f"parameters {sorted(set(p for p in ps if number(p)))} meet on one step", steps[s][0].e.where())
        fam = {family(p) for p in ps if family(p)}
        c.ob("own step", f"{gen}: step {s[1]} phase", len(fam) <= 1, f"parameters {sorted(set(ps))} of different phases meet on one step", steps[s][0].e.where())
        cuts = {p for p in ps if re.search(r"cutoff_current$", p)}
        if fam and cuts:
            want = "reset_cycle_cutoff_current" if fam == {"reset"} else "diagnostic_cutoff_current"
            c.ob("own step", f"{gen}: step {s[1]} cutoff", cuts == {want}, f"{sorted(cuts)} ends a {sorted(fam)} step", steps[s][0].e.where())
        # a charge limit in percent is a time at the step's own current
        for w in steps[s]:
            if any(quantity(p) == "%" for p in w.dim.params):
                rate = {p for p in w.dim.params if quantity(p) == "crate"}
                head = {p for x in steps[s] if x.slot[-1] == "StepValue" for p in x.dim.params if quantity(p) == "crate"}
                if head:
                    c.ob("own step", f"{gen}: step {s[1]} percent", rate == head, f"the time for {[p for p in w.dim.params if quantity(p) == '%']} is computed at {sorted(rate)}, the step runs at {sorted(head)}", w.e.where())
                pulse = {p for p in w.dim.params if quantity(p) == "%"}
                c.ob("own step", f"{gen}: step {s[1]} percent kind", pulse <= {"charge_percent_limit_1", "charge_fast_soc_limit"} or pulse == {"HPPC_interval"} and fam == {"HPPC"}, f"{sorted(pulse)} on a {sorted(fam)} step", w.e.where())
    # numbering along the protocol, by block of steps
    fams = {}
    for s in order:
        for p in dict.fromkeys(p for w in steps[s] for p in w.dim.params):
            n = number(p)
            if n:
                fams.setdefault((s[0], n[0]), []).append((s, n[1], p))
    for (b, stem), l in fams.items():
        prev = 0
        for s, n, p in l:
            if n == prev:
                continue
            c.ob("own step", f"{gen}: step {s[1]} {p}", n == prev + 1 or n == 1, f"{p} is written to a step before {stem}_{prev + 1}'s", steps[s][0].e.where())
            prev = n
    phases = []
    for s in order:
        for w in steps[s]:
            for p in w.dim.params:
                if family(p) and (not phases or phases[-1][0] != family(p)):
                    phases.append((family(p), s, w))
    nxt = {None: ("reset", "initial"), "reset": ("HPPC", "reset"), "HPPC": ("RPT",), "RPT": ("reset",), "initial": ("mid",), "mid": ("final",), "final": ()}
    prev = None
    for fm, s, w in phases:
        c.ob("own step", f"{gen}: step {s[1]} order of {fm}", fm in nxt[prev] or any(x[0] is not None for x in order), f"{fm} parameters follow {prev}'s", w.e.where())
        prev = fm
    # what a rest follows
    for i, s in enumerate(order):
        ps = {p for w in steps[s] for p in w.dim.params}
        before = [w for t in order[:i] if t[0] == s[0] for w in steps[t]]
        prv = max((w.step[1] for w in before), default=None)
        wv = [x[1] for x in wave if x[0] == s[0] and x[1] < s[1]]
        last = [w for w in before if w.step[1] == prv]
        if wv and (prv is None or max(wv) > prv):
            continue
        if not last:
            continue
        lp = {p for w in last for p in w.dim.params}
        for p in ps:
            if re.search(r"rest(_time|_\d+)?$", p):
                want = None
                if p == "HPPC_pulse_rest_time":
                    c.ob("own step", f"{gen}: step {s[1]} {p}", any("pulse" in x for x in lp), f"{p} follows a step of {sorted(lp)}", steps[s][0].e.where())
                elif p == "HPPC_rest_time":
                    c.ob("own step", f"{gen}: step {s[1]} {p}", not any("pulse" in x for x in lp) and any(x.startswith("HPPC") for x in lp), f"{p} follows a step of {sorted(lp)}", steps[s][0].e.where())
                elif direction(p):
                    dirs = {direction(x) for x in lp if direction(x)}
                    c.ob("direction", f"{gen}: step {s[1]} {p} after its {direction(p)}", not dirs or dirs == {direction(p)}, f"{p} follows a step of {sorted(lp)}", steps[s][0].e.where())
                if number(p):
                    ns = {number(x)[1] for x in lp if number(x)}
                    c.ob("own step", f"{gen}: step {s[1]} {p} number", not ns or ns == {number(p)[1]}, f"{p} follows a step of {sorted(lp)}", steps[s][0].e.where())
            elif number(p) and re.search(r"_voltage_\d+$", p) and any(w.slot[-1] == "ctrl1_val" for w in steps[s] if p in w.dim.params):
                c.ob("own step", f"{gen}: step {s[1]} {p} held", p in lp, f"the voltage held, {p}, is not the limit of the step before ({sorted(lp)})", steps[s][0].e.where())


# ------------------------------------------------------------------ Arbin
def text(t):
    return [x.args[0] for x in walk(t) if x.op == "const" and isinstance(x.args[0], str)]


def arbin(c):
    k = c.cls("beep.protocol.arbin.Schedule")
    f = c.P.find_method(k, "from_fast_charge")
    if f is None:
        return
    it = c.interp()
    res, st, evs = c.run(it, f, cls=k)
    seen = set()
    checked = {x for e in evs if e.kind in ("assert", "raise") for t in ([e.value] if e.kind == "assert" and e.value is not None else [g for g, _ in e.guards]) if any("m_szStepCtrlType" in s for s in text(t)) for x in text(t)}
    for e in evs:
        if not (e.kind == "call" and str(e.target).startswith("pydash.") and "set" in str(e.target) and len(e.args) >= 3):
            continue
        p, v = e.args[1], e.args[2]
        ps = {x.args[0] for x in walk(v) if x.op == "param" and quantity(x.args[0])}
        if not ps:
            continue
        labels = {x for x in text(p) if x in ("CC1", "CC2")}
        field = [x for x in text(p) if "." in x or x.startswith("m_")]
        field = field[-1].rsplit(".", 1)[-1] if field else ""
        field = next((s for s in ("m_szCtrlValue", "Equation0_szRight") if any(s in x for x in text(p))), field)
        for n in ps:
            lab = f"from_fast_charge: {n} -> {field}"
            seen.add((n, field))
            c.ob("own step", lab, not labels or labels == {n[:3]}, f"{n} is written to the step labelled {sorted(labels)}", e.where())
            want = "Equation0_szRight" if quantity(n) == "Ah" else "m_szCtrlValue"
            c.ob("kind", lab, field == want, f"{n} is written into {field}", e.where())
            if quantity(n) == "Ah":
                left = [g for g, pol in e.guards if pol and any("Equation0_szLeft" == x for x in text(g))]
                ok = any(any("Charge_Capacity" in x and "Discharge" not in x for x in text(g)) for g in left)
                c.ob("refusal", lab + " limit variable", ok, f"{n} is written without checking that the limit is on the charge capacity", e.where())
            if quantity(n) == "A":
                c.ob("refusal", lab + " control type", bool(checked & labels) or not labels, f"{n} is written without checking the control type of the step", e.where())
            for x in walk(v):
                if x.op == "meth" and x.args[1] in ("rstrip", "strip") and x.args[2] and x.args[2][0].op == "const" and "0" in str(x.args[2][0].args[0]):
                    bad = "." in x.args[2][0].args[0] or x.args[1] == "strip"
                    c.ob("precision", lab + " zeros", not bad, "stripping these characters changes the number (10.000 becomes 1)", e.where())
                if x.op == "fmt" and len(x.args) > 1:
                    sp = x.args[1] if isinstance(x.args[1], str) else cval(x.args[1])
                    m = re.match(r"\.(\d+)f$", str(sp))
                    if m:
                        c.ob("precision", lab, int(m.group(1)) >= 3, f"{n} is written with {m.group(1)} decimals", e.where())
            muls = [x for x in walk(v) if x.op == "bin"]
            c.ob("kind", lab + " scale", not muls, f"{n} (already in the slot's unit) is rescaled: {show(muls[0], 4) if muls else ''}", e.where())
        sign = [x for x in evs if x.kind == "call" and str(x.target).startswith("pydash.") and len(x.args) >= 3 and any("szCompareSign" in y for y in text(x.args[1]))]
        for x in sign:
            c.ob("kind", "from_fast_charge: comparator", cval(x.args[2]) in (">", ">=", None), f"the capacity limit stops at {show(x.args[2], 3)}", x.where())
    for n, field in (("CC1", "m_szCtrlValue"), ("CC2", "m_szCtrlValue"), ("CC1_capacity", "Equation0_szRight")):
        c.ob("complete", f"from_fast_charge: {n}", any(a == n for a, _ in seen), f"{n} is written nowhere")
    # labels that are not found are refused
    for name in ("set_labelled_steps", "set_labelled_limits"):
        g = c.P.find_method(k, name)
        if g is None:
            continue
        it = c.interp()
        res, st, evs = c.run(it, g, self_node=mk("param", "self"), cls=k)
        c.ob("refusal", f"{name}: nothing found", any(e.kind == "raise" for e in evs), "a label that is not in the template changes nothing and is not refused")


# ------------------------------------------------------------------ waveforms
MWF = ("state", "control_mode", "value", "limit_mode", "limit_value", "duration", "end_mode", "operation", "end_mode_value", "report_mode", "report_value", "range")
SIDE = {"limit_mode": "limit_mode", "limit_value": "limit_value", "end_mode": "end_mode", "operation": "end_operation", "end_mode_value": "end_mode_value"}


def keys(t):
    return {x.args[1].args[0] for x in walk(t) if x.op in ("sub", "get") and x.args[1].op == "const" and isinstance(x.args[1].args[0], str)}


def waveform(c):
    stop = {"beep.protocol.maccor.generate_maccor_waveform_file", "beep.utils.waveform.RapidChargeWave.get_currents_with_uniform_time_basis", "beep.utils.waveform.convert_velocity_to_power_waveform"}
    for name in ("insert_driving_parametersv1", "insert_charging_parametersv1"):
        f = c.func("beep.protocol.maccor." + name)
        it = c.interp(no_inline=stop)
        res, st, evs = c.run(it, f)
        for e in evs:
            cfg = None
            if e.kind == "call" and str(e.target).endswith("generate_maccor_waveform_file"):
                cfg = dict(e.kwargs or {}).get("mwf_config") or dict(e.bound or {}).get("mwf_config")
            need = {"insert_driving_parametersv1": {"charge_limit_value": {"profile_charge_limit"}, "charge_end_mode_value": {"profile_charge_limit"}, "discharge_end_mode_value": {"discharge_cutoff_voltage"}},
                    "insert_charging_parametersv1": {"charge_limit_value": {"charge_cutoff_voltage"}}}[name]
            for k in ("charge_limit_value", "charge_end_mode_value", "discharge_limit_value", "discharge_end_mode_value", "value_scale") if cfg is not None else ():
                v = st.heap.get(sub(cfg, const(k)))
                ps = keys(v) if v is not None else set()
                lab = f"{name}: {k}"
                if k == "value_scale":
                    if v is None:
                        continue
                    c.ob("kind", lab, not any("voltage" in p or "soc" in p or "time" in p or "limit" in p for p in ps), f"{sorted(ps)} scale the waveform", e.where())
                    want = {"max_profile_power", "power_scaling"} if name == "insert_driving_parametersv1" else {"capacity_nominal"}
                    c.ob("complete", lab, want <= ps, f"the waveform is not scaled by {sorted(want - ps)}", e.where())
                    continue
                if k in need and (cfg.op == "new"):
                    c.ob("complete", lab, need[k] <= ps, f"{sorted(need[k])} does not reach {k} of the waveform", e.where())
                if v is None:
                    continue
                volts = {p for p in ps if "voltage" in p or p == "profile_charge_limit"}
                c.ob("kind", lab, ps <= volts, f"{sorted(ps - volts)} is written into the voltage {k} of the waveform", e.where())
                ds = {direction(p) for p in volts}
                c.ob("direction", lab, not ds or ds == {direction(k)}, f"{sorted(volts)} is written into {k}", e.where())
                signs = [x for x in walk(v) if x.op == "bin" and x.args[0] in ("*", "/")]
                c.ob("kind", lab + " scale", not signs, f"{k} is {show(v, 5)}", e.where())
            if e.kind == "call" and str(e.target).endswith("get_currents_with_uniform_time_basis"):
                for a in e.args:
                    if a.op in ("list", "tuple"):
                        ns = [re.search(r"_(\d+)$", pname(x)) for x in elems(a) if pname(x)]
                        ns = [int(m.group(1)) for m in ns if m]
                        c.ob("own step", f"{name}: windows", ns == sorted(ns) and len(set(ns)) == len(ns), f"the charging windows take {[pname(x) for x in elems(a)]}", e.where())
        if name == "insert_charging_parametersv1":
            for e in evs:
                if e.kind == "call" and str(e.target) == "pandas.DataFrame":
                    d = it.dict_items(e.args[0], st) if e.args else None
                    cur = dict((cval(k) if not isinstance(k, str) else k, v) for k, v in d).get("current") if d and not isinstance(d, dict) else (d or {}).get("current")
                    sel = [cval(g.args[2]) if g.args[2].op == "const" else cval(g.args[1]) for g, p in e.guards if p and g.op == "cmp" and g.args[0] == "==" and any("charge_type_1" in keys(x) for x in (g.args[1], g.args[2]))]
                    if cur is not None and sel and cur.op == "sub" and cur.args[1].op == "const":
                        c.ob("own step", f"{name}: {sel[-1]} waveform", cur.args[1].args[0] == {"smooth": 0, "step": 1}.get(sel[-1], cur.args[1].args[0]), f"the {sel[-1]} charge takes the other current", e.where())
    f = c.func("beep.protocol.maccor.generate_maccor_waveform_file")
    it = c.interp()
    res, st, evs = c.run(it, f)
    for e in evs:
        rows = []
        if e.kind == "call" and str(e.target).split(".")[-1] == "assign":
            rows = list(dict(e.kwargs or {}).items())
        elif e.kind == "store" and e.key is not None and e.key.op == "tuple" and e.value.op == "list":
            ks = e.key.args[0] if isinstance(e.key.args[0], tuple) else e.key.args
            if len(ks) == 2 and ks[1].op == "list":
                rows = [(cval(a), b) for a, b in zip(ks[1].args[0] if isinstance(ks[1].args[0], tuple) else ks[1].args, e.value.args[0] if isinstance(e.value.args[0], tuple) else e.value.args)]
        d = dict(rows)
        if "state" not in d or d["state"].op != "const":
            continue
        side = {"C": "charge", "D": "discharge"}.get(cval(d["state"]))
        if side == "discharge" and e.kind == "store":
            m = e.key.args[0][0] if isinstance(e.key.args[0], tuple) else e.key.args[0]
            for x in walk(m):
                if x.op == "cmp" and cval(x.args[2]) == 0 and x.args[0] in ("<", "<="):
                    c.ob("direction", "waveform: discharge rows", True, "", e.where())
                elif x.op == "cmp" and cval(x.args[1]) == 0 and x.args[0] in ("<", "<="):
                    c.ob("direction", "waveform: discharge rows", False, "the rows of positive power or current are written as discharge", e.where())
        for k, v in rows:
            if k in SIDE:
                got = keys(v)
                if got:
                    c.ob("direction", f"waveform: {side} {k}", got == {f"{side}_{SIDE[k]}"}, f"the {side} rows' {k} is {sorted(got)}", e.where())
    for e in evs:
        if e.kind == "call" and str(e.target).split(".")[-1] == "to_csv" and e.recv is not None:
            cols = [x.args[1] for x in walk(e.recv) if x.op == "sub" and x.args[1].op == "list"]
            cols = [[cval(y) for y in (x.args[0] if isinstance(x.args[0], tuple) else x.args)] for x in cols[:1]]
            if cols and all(isinstance(y, str) for y in cols[0]):
                c.ob("kind", "waveform: columns", tuple(cols[0]) == MWF, f"the columns of a waveform file are written as {cols[0]}", e.where())
            kw = dict(e.kwargs or {})
            c.ob("kind", "waveform: table format", "header" in kw and cval(kw["header"]) in (None, False) and "index" in kw and cval(kw["index"]) in (None, False), "a waveform file has no header and no index", e.where())


# ------------------------------------------------------------------ which row, which template
def driver(c):
    f = c.func("beep.protocol.generate_protocol.generate_protocol_files_from_csv")
    gens = ["from_exp"] + list(REGULAR) + list(DIAG)
    stop = {f"{MACCOR}.{n}" for n in gens} | {"beep.protocol.biologic.Settings.formation_protocol_bcs", "beep.protocol.biologic.Settings.from_file", "beep.protocol.maccor.insert_driving_parametersv1", "beep.protocol.maccor.insert_charging_parametersv1"}
    it = c.interp(no_inline=stop)
    res, st, evs = c.run(it, f)
    rows = {x.args[0] for e in evs if e.kind == "call" for t in list(e.args or ()) + [g for g, _ in e.guards] for x in walk(t) if x.op in ("sub", "get") and x.args[1].op == "const" and x.args[1].args[0] == "template"}
    if not rows:
        c.notes.append("the row was not found in the driver")
        return
    isrow = lambda t: any(x in rows for x in walk(t))
    for e in evs:
        n = str(e.target).rsplit(".", 1)[-1] if e.kind == "call" else ""
        if n not in gens + ["formation_protocol_bcs", "insert_driving_parametersv1", "insert_charging_parametersv1"]:
            continue
        b = dict(e.bound or {})
        a = [x for x in e.args if x.op != "class"]
        kw = dict(e.kwargs or {})
        lab = f"row -> {n}"
        tnames = {x.args[1].args[0] for g, p in e.guards if p for x in walk(g) if x.op == "sub" and x.args[1].op == "const"}
        if n in REGULAR:
            rp, tp = b.get("reg_param"), b.get("template")
            if rp is not None:
                c.ob("own step", lab, isrow(rp) and "diagnostic_parameter_set" not in keys(rp), f"{n} is given {show(rp, 4)}, not the row", e.where())
            if tp is not None:
                named = any(p and g.op == "cmp" and g.args[0] == "==" and any("template" in keys(x) for x in g.args[1:]) and any(x.op == "const" and isinstance(x.args[0], str) for x in g.args[1:]) for g, p in e.guards)
                c.ob("own step", lab + " template", "template" in keys(tp) or named, f"{n} generates from {show(tp, 5)}, not the template the row names", e.where())
            wf = b.get("waveform_name")
            if wf is not None:
                want = "insert_driving_parametersv1" if n.endswith("drivingv1") else "insert_charging_parametersv1"
                calls = {x.args[0].rsplit(".", 1)[-1] for x in walk(wf) if x.op == "call"}
                other = {"insert_driving_parametersv1", "insert_charging_parametersv1"} - {want}
                c.ob("own step", lab + " waveform", not calls & other, f"{n} is given the waveform of {sorted(calls & other)}", e.where())
        elif n in DIAG:
            vals = list(a) + list(kw.values())
            if len(vals) >= 2:
                cap, dp = kw.get("nominal_capacity", a[-2] if len(a) >= 2 else a[0]), kw.get("diagnostic_params", a[-1])
                ck = {pname(cap)} if pname(cap) else keys(cap)
                c.ob("own step", lab + " capacity", isrow(cap) and "capacity_nominal" in ck, f"{n} scales by {show(cap, 4)}", e.where())
                sel = [x for x in walk(dp) if x.op == "cmp" and x.args[0] == "=="]
                ok = not sel or any({"diagnostic_parameter_set"} <= keys(x.args[1]) and {"diagnostic_parameter_set"} <= keys(x.args[2]) and isrow(x) for x in sel)
                c.ob("own step", lab + " diagnostic set", ok, f"{n} is given diagnostic parameters that are not the row's set: {show(dp, 6)}", e.where())
        elif n == "from_exp":
            for k in ("cutoff_voltage", "charge_rate", "discharge_rate"):
                v = b.get(k)
                if v is not None and v.op != "undef" and pname(v):
                    c.ob("own step", f"{lab} {k}", pname(v) == k, f"{k} is given the row's {pname(v)}", e.where())
        else:
            ps = list(a) + list(kw.values())
            c.ob("own step", lab, not ps or any(isrow(x) for x in ps), f"{n} is not given the row", e.where())
