"""Make planted bugs: seed.py FILE [NAME...]

FILE defines SEEDS = {name: dict(property, needs, breaks, edits=[(file, old, new)], demo=<python text>)}.
Each is tried in a private bind mount of a scratch copy of /repo: the demo passes on the unchanged
tree and fails with the change, and the stable tests pass with it. Kept as /verif/seeded/<name>/."""
import json
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path("/verif")
BASE = "2ded593"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def in_copy(copy, cmd, timeout=400):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"], capture_output=True, text=True, timeout=timeout)


def stable_names():
    for k in ("stable", "passed", "tests", "pass"):
        if k in STABLE:
            return set(STABLE[k])
    raise SystemExit(f"baseline keys {list(STABLE)}")


def make(name, s):
    d = V / "seeded" / name
    tmp = Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    try:
        copy = tmp / "repo"
        subprocess.run(["cp", "-a", "/repo", str(copy)], check=True)
        d.mkdir(parents=True, exist_ok=True)
        ext = s.get("ext", "py")
        (d / f"demo.{ext}").write_text(s["demo"])
        run = '"$PY" "$HERE/demo.py"' if ext == "py" else f'node "$HERE/demo.{ext}"'
        (d / "demo.sh").write_text('#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python\nexport PYTHONDONTWRITEBYTECODE=1\n' + f"exec timeout 120 {run}\n")
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        r = in_copy(copy, f"bash {d}/demo.sh")
        if r.returncode:
            return name, f"demo fails on the unchanged tree: {r.returncode}\n{r.stdout[-1500:]}{r.stderr[-1500:]}"
        for rel, old, new in s["edits"]:
            p = copy / rel
            t = p.read_text()
            if t.count(old) != 1:
                return name, f"{rel}: text occurs {t.count(old)} times: {old[:60]!r}"
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(copy), "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        # only original lines
        mine = []
        for rel in {e[0] for e in s["edits"]}:
            orig = subprocess.run(["git", "-C", str(copy), "show", f"{BASE}:{rel}"], capture_output=True, text=True).stdout.splitlines()
            mine += [x for x in diff.splitlines() if x.startswith("-") and not x.startswith("---") and x[1:].strip() and x[1:] not in orig and sum(1 for e in s["edits"] if e[0] == rel)]
        if mine:
            return name, f"changes lines of a fix commit: {mine[:3]}"
        r = in_copy(copy, f"bash {d}/demo.sh")
        if r.returncode == 0:
            return name, "demo passes with the change\n" + r.stdout[-800:]
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = in_copy(copy, f"bash /opt/vp/build.sh >/tmp/build.log 2>&1 && bash /opt/vp/test.sh {tmp}/out.json")
        try:
            out = json.load(open(tmp / "out.json"))
        except OSError:
            return name, "tests did not run " + r.stdout[-800:] + r.stderr[-500:]
        passed = set(out.get("passed") or out.get("pass") or [])
        missing = stable_names() - passed
        if missing:
            return name, f"{len(missing)} stable tests fail: {sorted(missing)[:4]}"
        return name, f"ok  ({why})"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def attempt(n, s):
    try:
        return make(n, s)
    except subprocess.TimeoutExpired:
        return n, "the tests do not end"


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    names = sys.argv[2:] or list(seeds)
    with ThreadPoolExecutor(3) as ex:
        for n, res in ex.map(lambda n: attempt(n, seeds[n]), names):
            print(n, ":", res, flush=True)
            if not res.startswith("ok"):
                shutil.rmtree(V / "seeded" / n, ignore_errors=True)


main()
