"""Runner shared by all checks: obligations, findings, known findings, evidence."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from vfa.project import Project, AnalysisError, Class, Func, Module  # noqa: E402
from vfa.interp import Interp, dominates, jointly_dominates, UNDEF, ABSENT  # noqa: E402
from vfa.terms import *  # noqa: E402,F401,F403
from vfa import terms as T  # noqa: E402

_project = None


def project():
    global _project
    if _project is None:
        _project = Project()
    return _project


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.P = project()
        self.findings = []      # (key, message)
        self.obl = {}           # rule -> [n, n_ok]
        self.samples = []
        self.functions = set()
        self.events = 0
        self.rules = {}
        self.notes = []

    def rule(self, name, text):
        self.rules[name] = text
        self.obl.setdefault(name, [0, 0])

    def ob(self, rule, construct, ok, msg="", where=""):
        """one obligation; ok False -> finding keyed by rule and construct"""
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
            if len(self.samples) < 400:
                self.samples.append(f"{rule}: {construct}" + (f" @ {where}" if where else ""))
        else:
            key = f"{rule}|{construct}"
            if key not in [k for k, _ in self.findings]:
                self.findings.append((key, f"{msg or 'violated'}" + (f" [{where}]" if where else "")))
        return ok

    def need(self, rule, n):
        """the rule must have met at least n instances (confirmed by reading the code)"""
        have = self.obl.get(rule, [0, 0])[0]
        if have < n:
            raise AnalysisError(f"rule {rule}: {have} instances found, at least {n} expected: the analysis lost its anchors")

    def interp(self, **k):
        it = Interp(self.P, **k)
        return it

    def run(self, it, func, **k):
        r = it.run(func, **k)
        self.functions |= it.nfuncs
        self.events += len(r[2])
        return r

    # anchors
    def cls(self, full):
        return self.P.cls(full)

    def func(self, full):
        return self.P.func(full)


def known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<rule|construct> :: text
                head, _, text = line.partition("::")
                d = head.split("property=", 1)[1].strip()
                p, _, k = d.partition(" key=")
                if p.strip() == pid:
                    out.append((k.strip(), text.strip()))
    return out


def execute(pid, fn, explanation):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    err = None
    c = None
    try:
        c = Check(pid)
        fn(c)
    except AnalysisError as e:
        err = f"analysis error: {e}"
        if os.environ.get("VFA_TRACE"):
            traceback.print_exc()
    except Exception:
        err = "internal error: " + traceback.format_exc()
    kn = dict(known(pid))
    new = []
    knownhit = []
    if c is not None:
        for key, msg in c.findings:
            if key in kn:
                knownhit.append((key, kn[key] or msg))
            else:
                new.append((key, msg))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "source_digest": c.P.digest() if c is not None else "",
            "modules_parsed": len(c.P.modules) if c is not None else 0,
            "functions_analysed": len(c.functions) if c is not None else 0,
            "events_analysed": c.events if c is not None else 0,
            "obligations_total": sum(v[0] for v in c.obl.values()) if c is not None else 0,
            "obligations_held": sum(v[1] for v in c.obl.values()) if c is not None else 0,
            "rules": {k: {"rule": c.rules.get(k, ""), "instances": v[0], "held": v[1]} for k, v in sorted(c.obl.items())} if c is not None else {},
            "samples": c.samples[:: max(1, len(c.samples) // 25)][:40] if c is not None else [],
            "notes": sorted(set(c.notes)) if c is not None else [],
            "functions": sorted(c.functions)[:400] if c is not None else [],
            "violations": [{"key": k, "message": m} for k, m in new],
            "known_findings": [{"key": k, "message": m} for k, m in knownhit],
        },
        "wall_s": round(time.time() - t0, 3),
    }
    if err:
        ev["coverage"]["error"] = err
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, m in knownhit:
        print(f"KNOWN-FINDING: property={pid} {m}")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violations.txt")
        with open(rp, "w") as f:
            for k, m in new:
                f.write(f"{k}\n    {m}\n")
        for k, m in new:
            print(f"  {k}: {m}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if err:
        print(f"{pid}: {err}", file=sys.stderr)
        return 2
    print(f"{pid}: held; {ev['coverage']['obligations_total']} obligations over {len(c.functions)} functions, {len(knownhit)} known findings, {ev['wall_s']} s")
    return 0
