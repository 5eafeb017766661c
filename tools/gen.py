"""Write properties.jsonl and MANIFEST.json from tools/catalog.py.

A property is claimed if a rule module sa/rules/<id>.py exists; the others are listed under
not_applicable with their reason."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from catalog import NA, PROPS  # noqa: E402

NOTE = (
    "Static decision on the current source: every instance of the rules listed in the evidence is enumerated and discharged on all "
    "paths of the flow graphs (exceptions and cancellation included). It is a decision about the stated structural obligations, "
    "each a necessary condition of the property, not a proof of the whole behaviour; it trusts the interpreter, asyncio, and third-party libraries."
)
props, checks, na = [], [], []
for pid, e in sorted(PROPS.items()):
    files, mech = e["files"], [{"name": n, "where": w} for n, w in e["mechanism"]]
    props.append({
        "id": pid, "title": e["title"], "statement": e["statement"],
        "quantifier": {"over": e["over"], "text": e["quant"]},
        "why_tests_cant": e["why"],
        "anchors": {"files": files, "mechanism": mech, "observe_at": e.get("observe", [])},
    })
    if (V / "sa" / "rules" / f"{pid.lower()}.py").exists():
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 -m sa {pid}",
            "thorough_cmd": f"python3 -m sa {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "static analysis: " + e["technique"],
            "level": "other",
            "level_note": e.get("note", "") + (" " if e.get("note") else "") + NOTE,
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props))
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "python3 -c 'import sa.check, sa.lib'",
    "checks": checks,
    "not_applicable": na,
}, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not applicable")


# ---------------------------------------------------------------- DESIGN.md
import importlib  # noqa: E402

sys.path.insert(0, str(V))


def section(pid, e):
    out = [f"### {pid} {e['title']}", "", f"*{e['statement']}*", ""]
    if not (V / "sa" / "rules" / f"{pid.lower()}.py").exists():
        return "\n".join([*out, "Not applicable, see section 3.", ""])
    mod = importlib.import_module(f"sa.rules.{pid.lower()}")
    out.append(f"- **Quantifier** {e['quant']}. **Why tests cannot settle it** {e['why']}")
    out.append(f"- **Technique** {e['technique']}.")
    out.append(f"- **What is analysed** {' '.join(mod.EXPLANATION.split())}")
    out.append("- **Anchors** " + "; ".join(f"{n} (`{w}`)" for n, w in e["mechanism"]) + ".")
    src = (V / "sa" / "rules" / f"{pid.lower()}.py").read_text()
    import re
    rules = re.findall(r'ck\.rule\(\s*"([^"]+)",\s*"([^"]+)"(?:,\s*(\d+))?', src)
    if rules:
        out.append("- **Rules** " + "; ".join(f"`{n}`: {t} (floor {fl or 1})" for n, t, fl in rules) + ".")
    if getattr(mod, "ASSUMPTIONS", None):
        out.append("- **Trusted** " + " ".join(mod.ASSUMPTIONS))
    if e.get("note"):
        out.append(f"- **Not covered** {e['note']}")
    cases = V / "selftest" / f"{pid}.py"
    if cases.exists():
        import runpy
        cs = runpy.run_path(str(cases))["CASES"]
        out.append(f"- **Self-test** {sum(1 for c in cs if c[1] == 'bug')} breaking edits reported, {sum(1 for c in cs if c[1] == 'same')} behaviour-preserving edits quiet.")
    return "\n".join([*out, ""])


fixed = [x for x in (V / "KNOWN_FINDINGS.txt").read_text().splitlines() if x.startswith("fixed: ")]
frows = ["| property | commit | what failed |", "|---|---|---|"]
for x in fixed:
    _, p_, h, *t = x.split(" ")
    frows.append(f"| {p_.split('=')[1]} | `{h}` | {' '.join(t)} |")
rec = V / "tools" / "detection.json"
det = json.loads(rec.read_text()) if rec.exists() else {}
srows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    if (d / "meta.json").exists():
        m = json.loads((d / "meta.json").read_text())
        srows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {det.get(d.name, 'not run')} |")
narows = [f"- **{x['property']} {PROPS[x['property']]['title']}**: {x['reason']}" for x in na] or ["(none)"]
text = (V / "tools" / "design.md").read_text()
for k, v in (("PROPERTIES", "\n".join(section(p_, e) for p_, e in sorted(PROPS.items()))), ("NA", "\n".join(narows)), ("FIXED", "\n".join(frows)), ("SEEDS", "\n".join(srows))):
    text = text.replace(f"@@{k}@@", v)
(V / "DESIGN.md").write_text(text)
