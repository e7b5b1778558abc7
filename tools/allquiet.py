#!/usr/bin/env python3
"""run every check on each behaviour-preserving edit set: allquiet.py [filter] [pids]"""
import os, shutil, subprocess, sys, tempfile, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bankspecs import BANK
filt = sys.argv[1] if len(sys.argv) > 1 else ""
args = [a for a in sys.argv[1:] if not a.startswith("-")]
filt = args[0] if args else ""
pids = args[1].split(",") if len(args) > 1 else [c["property"] for c in json.load(open(HERE + "/../MANIFEST.json"))["checks"]]
for pid, want, edits, note in BANK:
    if want != "quiet" or filt not in note:
        continue
    d = tempfile.mkdtemp(prefix="quiet_", dir="/tmp")
    try:
        shutil.copytree("/repo/lie_nn", d + "/lie_nn", ignore=shutil.ignore_patterns("__pycache__"))
        bad = False
        for f, old, new in edits:
            s = open(f"{d}/lie_nn/{f}").read()
            if s.count(old) != 1:
                print("NOMATCH", s.count(old), f, old[:80])
                bad = True
            open(f"{d}/lie_nn/{f}", "w").write(s.replace(old, new, 1))
        if bad:
            continue
        if "--notests" not in sys.argv:
            r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "-n", "6", "lie_nn"], cwd=d, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": d})
            if r.returncode == 4:
                r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "lie_nn"], cwd=d, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": d})
            print("==", note, "tests:", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:], flush=True)
        for q in pids:
            r = subprocess.run([HERE + "/../check", q, "quick"], capture_output=True, text=True, env={**os.environ, "LNSA_REPO": d, "LNSA_OUT": d})
            lines = r.stdout.splitlines()
            print(("ok   " if r.returncode == 0 else f"BAD{r.returncode} "), q, next((l for l in lines if l.startswith(q + ":")), r.stderr[-300:])[:160], flush=True)
            if r.returncode:
                for l in [l for l in lines if l.startswith("  ")][:4]:
                    print("      ", l[:110], "...", l[-330:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
