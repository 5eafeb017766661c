"""Runner: obligations, floors, evidence, known findings, verdict.

    python3 -m sa C01 [--tier quick|thorough]

A rule enumerates *instances* in /repo's current source and discharges an obligation for
each of them.  exit 0: every obligation discharged; exit 1 and a VIOLATION line: some
obligation failed; exit 2: an anchor vanished and nothing else failed (no verdict).
"""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

from .flow import StateCap
from .project import AnalysisBroken, Project

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / "KNOWN_FINDINGS.txt"


class Check:
    def __init__(self, pid: str, project: Project, tier: str):
        self.pid, self.p, self.tier = pid, project, tier
        self.rules: dict[str, dict] = {}
        self.violations: list[dict] = []
        self.units: dict[str, int] = {}
        self.graphs = 0
        self.instrs = 0
        self.states = 0
        self.broken: list[str] = []
        self.modules: set[str] = set()
        self.current = self.running = None
        self.covered: set[str] = set()  # rules which decided all they have to
        self.open: list[str] = []  # interpretations which gave no answer; the other rules decide alone

    def rule(self, name: str, text: str, floor: int = 1):
        self.current = name
        self.rules.setdefault(name, {"text": text, "instances": [], "failed": 0, "floor": floor, "fn": self.running})
        return self

    def ob(self, ok, construct: str, loc: str, msg: str = "", path: str = "", rule=None):
        """One obligation. `construct` identifies the instance without line numbers."""
        r = rule or self.current
        inst = {"construct": construct, "at": loc, "ok": bool(ok)}
        self.rules[r]["instances"].append(inst)
        if not ok:
            self.rules[r]["failed"] += 1
            v = {"rule": r, "construct": construct, "at": loc, "message": msg or self.rules[r]["text"], "path": path}
            key = (r, construct)
            if key not in {(x["rule"], x["construct"]) for x in self.violations}:
                self.violations.append(v)
        return bool(ok)

    def saw(self, g):
        """Record an analysed flow graph."""
        self.graphs += 1
        self.instrs += len(g.reachable)
        f = g.entry_func
        self.units[f.qual] = len(g.reachable)
        self.modules.add(f.module.rel)
        for q, _ in g.inlined:
            fn = self.p.funcs.get(q)
            if fn is not None:
                self.modules.add(fn.module.rel)

    def uses(self, *mods):
        for m in mods:
            self.modules.add(m)

    def need(self, cond, what: str):
        if not cond:
            raise AnalysisBroken(what)
        return cond


def known_findings():
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # finding: property=<id> rule=<rule> construct=<construct> -- <what>
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition(" -- ")
                d = {}
                for tok in head.strip().split("|"):
                    k, _, v = tok.strip().partition("=")
                    d[k.strip()] = v.strip()
                d["what"] = what.strip()
                out.append(d)
    return out


def load(pid: str):
    return importlib.import_module(f"sa.rules.{pid.lower()}")


def run(pid: str, tier: str = "quick", quiet=False, project=None, evidence=True):
    t0 = time.time()
    try:
        mod = load(pid)
        P = project or Project()
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={pid} source does not parse: {e}")
        return 2
    ck = Check(pid, P, tier)
    # what is also decided by a rule which does not depend on how the code is laid out
    spare, gaps = getattr(mod, "SPARE", {}), []
    for fn in sorted(mod.RULES, key=lambda fn: fn.__name__ in spare):
        before, ck.running = set(ck.rules), fn.__name__
        try:
            fn(ck)
        except Exception as e:
            what = str(e) if isinstance(e, AnalysisBroken) else "state cap reached" if isinstance(e, StateCap) else f"internal error {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}"
            if spare.get(fn.__name__, "") in ck.covered:
                gaps.append(f"{fn.__name__}: {what}")
                for n in [n for n in ck.rules if n not in before]:
                    ck.rules[n]["floor"] = 0
            else:
                ck.broken.append(f"{fn.__name__}: {what}")
    for name, r in ck.rules.items():
        n = len(r["instances"])
        if n < r["floor"]:
            (gaps if spare.get(r["fn"], "") in ck.covered else ck.broken).append(f"{name}: {n} instances found, at least {r['floor']} confirmed by hand")
    (ck.broken if ck.broken else gaps).extend(ck.open)
    known = known_findings()
    new, listed = [], []
    for v in ck.violations:
        k = next((k for k in known if k.get("property") == pid and k.get("rule") == v["rule"] and k.get("construct") == v["construct"]), None)
        (listed if k else new).append((v, k))
    total = sum(len(r["instances"]) for r in ck.rules.values())
    failed = sum(r["failed"] for r in ck.rules.values())
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", "").strip()
            or "Static rules over the parsed and name-resolved source; every listed instance is one obligation.",
            "obligations": total,
            "discharged": total - failed,
            "rules": {
                n: {"rule": r["text"], "instances": len(r["instances"]), "failed": r["failed"], "floor": r["floor"],
                    "sites": [f"{i['construct']} @ {i['at']}{'' if i['ok'] else '  FAILED'}" for i in r["instances"]][:60]}
                for n, r in ck.rules.items()
            },
            "flow_graphs": ck.graphs,
            "instructions": ck.instrs,
            "automaton_states": ck.states,
            "entries": dict(list(ck.units.items())[:80]),
            "modules": sorted(ck.modules),
            "source_digest": P.digest(),
            "no_verdict": ck.broken,
            "not_found": gaps,
            "known_findings": [v for v, _ in listed],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    if evidence:
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        vp = d / f"{pid}.violation.json"
        if new:
            vp.write_text(json.dumps([v for v, _ in new], indent=1, default=str) + "\n")
        elif vp.exists():
            vp.unlink()
    for v, k in listed:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if new:
        for v, _ in new[:12]:
            print(f"  rule {v['rule']} [{v['construct']}] at {v['at']}: {v['message']}" + (f"\n    path: {v['path']}" if v["path"] else ""))
        print(f"VIOLATION property={pid} replay=/verif/evidence/{pid}.violation.json")
        return 1
    if ck.broken:
        for b in ck.broken:
            print(f"ANALYSIS-BROKEN property={pid} {b}")
        return 2
    for n in ck.open:
        print(f"NOTE property={pid} undecided: {n}")
    if not quiet:
        print(f"OK property={pid} obligations={total} rules={len(ck.rules)} graphs={ck.graphs} wall={ev['wall_s']}s")
    return 0


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    rc = 0
    for pid in argv:
        rc = max(rc, run(pid, "thorough" if tier == "thorough" else "quick"))
    return rc
