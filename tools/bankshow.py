"""bankshow.py pid note: run the check on one bank entry and print its output"""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from bankspecs import BANK
pid, note = sys.argv[1], sys.argv[2]
for p, want, edits, n in BANK:
    if n == note and (pid in p.split(",") or p == "ALL"):
        d = tempfile.mkdtemp(prefix="bs_", dir="/tmp")
        shutil.copytree("/repo/lie_nn", d + "/lie_nn", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            q = f"{d}/lie_nn/{f}"; s = open(q).read(); assert old in s; open(q, "w").write(s.replace(old, new, 1))
        if "-k" in sys.argv:
            print(d)
        else:
            r = subprocess.run([HERE + "/../check", pid, "quick"], capture_output=True, text=True, env={**os.environ, "LNSA_REPO": d, "LNSA_OUT": d})
            print(r.stdout[:6000], r.stderr[-2000:])
            shutil.rmtree(d)
