"""Self-test of the rules: each case edits one or two sources in memory and says whether the
property's check has to report a violation ('bug') or stay quiet ('same').

    python3 -m sa.selftest [C01 ...]

Cases live in /verif/selftest/<ID>.py as a list CASES of (name, kind, [(file, old, new), ...]).
"""
from __future__ import annotations

import contextlib
import importlib.util
import io
import sys
from concurrent.futures import ProcessPoolExecutor
from pathlib import Path

from .check import VERIF, run
from .project import REPO, Project


def cases(pid):
    p = VERIF / "selftest" / f"{pid}.py"
    if not p.exists():
        return []
    spec = importlib.util.spec_from_file_location(f"st_{pid}", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CASES


def one(args):
    pid, name, kind, edits = args
    ov = {}
    for rel, old, new in edits:
        src = ov.get(rel) or (REPO / rel).read_text(encoding="utf-8")
        if src.count(old) < 1:
            return pid, name, kind, "STALE", f"text not found in {rel}: {old[:60]!r}"
        ov[rel] = src.replace(old, new, 1)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            rc = run(pid, quiet=True, project=Project(overlay=ov), evidence=False)
        except SyntaxError as e:
            return pid, name, kind, "SYNTAX", str(e)
    want = 1 if kind == "bug" else 0
    return pid, name, kind, "ok" if rc == want else f"rc={rc}", buf.getvalue()


def _crossed(args):
    # every check has to stay quiet on what keeps behaviour
    check, pid, name, edits = args
    r = one((check, name, "same", edits))
    return (f"{check} on {pid}", *r[1:])


def cross():
    checks = sorted(p.stem.upper() for p in (VERIF / "sa" / "rules").glob("c*.py"))
    only = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [(c, pid.stem, n, e) for pid in sorted((VERIF / "selftest").glob("C*.py")) for n, kind, e in cases(pid.stem) if kind == "same" for c in checks if c != pid.stem and (not only or c in only)]
    bad = 0
    with ProcessPoolExecutor() as ex:
        for who, name, _kind, res, out in ex.map(_crossed, todo, chunksize=4):
            if res != "ok":
                bad += 1
                print(f"FAIL {who} {name}: {res}\n{out[:400]}", flush=True)
    print(f"{len(todo)} crossed cases, {bad} wrong")
    return 1 if bad else 0


def main():
    if "--cross" in sys.argv:
        return cross()
    verbose = "-v" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(p.stem for p in (VERIF / "selftest").glob("C*.py"))
    todo = [(pid, *c) for pid in ids for c in cases(pid)]
    bad = 0
    with ProcessPoolExecutor() as ex:
        for pid, name, kind, res, out in ex.map(one, todo):
            if res != "ok":
                bad += 1
                print(f"FAIL {pid} {kind} {name}: {res}\n{out[:500]}")
            elif verbose:
                print(f"ok   {pid} {kind} {name}: {out.splitlines()[0][:200] if out else ''}")
    print(f"{len(todo)} cases, {bad} wrong")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
