"""Run the checks against planted bugs, each in a private copy of /repo: try.py [NAME...] [--all]"""
import json, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path("/verif")
ALL = "--all" in sys.argv
names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(p.name for p in (V / "seeded").iterdir() if (p / "patch.diff").exists())
ids = [c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]]


def one(n):
    d = V / "seeded" / n
    pid = json.load(open(d / "meta.json"))["property"]
    tmp = Path(tempfile.mkdtemp(prefix="try-", dir="/tmp"))
    try:
        subprocess.run(["cp", "-a", "/repo", str(tmp / "repo")], check=True)
        subprocess.run(["cp", "-a", str(V), str(tmp / "verif")], check=True)
        subprocess.run(["git", "-C", str(tmp / "repo"), "apply", str(d / "patch.diff")], check=True)
        out = []
        for i in ids if ALL else [pid]:
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {tmp}/repo /repo && cd {tmp}/verif && python3 -m sa {i}"], capture_output=True, text=True)
            if r.returncode or i == pid:
                out.append((i, r.returncode, [x.strip()[:230] for x in r.stdout.splitlines() if x.startswith("  rule") or "BROKEN" in x][:3]))
        return n, pid, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


rec = V / "tools" / "detection.json"
det = json.loads(rec.read_text()) if rec.exists() else {}
with ThreadPoolExecutor(6) as ex:
    for n, pid, out in ex.map(one, names):
        hit = any(i == pid and rc == 1 for i, rc, _ in out)
        print("CAUGHT" if hit else "MISSED", n, pid)
        det[n] = ", ".join(f"{i} ({ls[0].split('[')[0].replace('rule ', '').strip()})" for i, rc, ls in out if rc == 1 and ls) or "missed"
        for i, rc, ls in out:
            print("   ", i, rc, *ls, sep="\n      " if ls else " ")
rec.write_text(json.dumps(dict(sorted(det.items())), indent=1) + "\n")
