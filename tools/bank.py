#!/usr/bin/env python3
"""Mutation bank: apply each edit of bankspecs.py to a scratch copy, run the property's check, report caught / missed / crash.
usage: bank.py [filter] [--tests]   (filter matches property or text)"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bankspecs import BANK
filt = sys.argv[1] if len(sys.argv) > 1 and not sys.argv[1].startswith("-") else ""
tests = "--tests" in sys.argv


def run(t):
    i, (pid, want, edits, note) = t
    d = tempfile.mkdtemp(prefix=f"bank{i}_", dir="/tmp")
    try:
        shutil.copytree("/repo/lie_nn", d + "/lie_nn", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = f"{d}/lie_nn/{f}"
            s = open(p).read()
            if old not in s:
                return f"{pid:4s} NOMATCH {note} ({f}: {old[:60]!r})"
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        tt = ""
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "lie_nn"], cwd=d, capture_output=True, text=True,
                               env={**os.environ, "PYTHONPATH": d})
            tt = " tests:" + ("pass" if r.returncode == 0 else "FAIL")
        out = []
        for q in pid.split(","):
            r = subprocess.run([HERE + "/../check", q, "quick"], capture_output=True, text=True, env={**os.environ, "LNSA_REPO": d, "LNSA_JOBS": "2", "LNSA_OUT": d})
            got = {0: "quiet", 1: "caught"}.get(r.returncode, f"exit{r.returncode}")
            ok = (got == "caught") == (want == "catch")
            line = next((l for l in r.stdout.splitlines() if l.startswith("  ") or "VIOLATION" in l), "")
            det = [l for l in r.stdout.splitlines() if "VIOLATION" not in l][:1]
            out.append(f"{q:4s} {'ok  ' if ok else 'BAD '} {got}{tt} {note}" + (f"\n        {' '.join(det)[:260]}" if (not ok or '-v' in sys.argv) else ""))
        return "\n".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


items = [(i, b) for i, b in enumerate(BANK) if filt in b[0] or (len(filt) > 3 and filt in b[3])]
with ThreadPoolExecutor(4) as ex:
    rs = list(ex.map(run, items))
for r in rs:
    print(r)
print(sum("BAD " in r or "NOMATCH" in r for r in rs), "of", len(rs), "not as expected")
