"""plant bugs: mkseed.py [ids...]  builds /verif/seeded/<id> from tools/seedspecs.py, validates each in a scratch copy and runs the check"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seedspecs import SPECS
BASE = "627582a"
SEED = "/verif/seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" JAX_PLATFORMS=cpu OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def apply(d, spec):
    for f, old, new in spec["edits"]:
        p = f"{d}/lie_nn/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (spec["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))


def original_lines(spec):
    """the removed lines must be lines of the original repository"""
    for f, old, new in spec["edits"]:
        base = sh(["git", "show", f"{BASE}:lie_nn/{f}"], "/repo").stdout
        if old not in base:
            head = open(f"/repo/lie_nn/{f}").read()
            i = head.index(old)
            for l in old.splitlines():
                if l.strip() and l not in new.splitlines() and l.strip() not in base:
                    return f"{f}: {l!r} is not an original line"
    return None


def main(ids):
    for spec in SPECS:
        sid = spec["id"]
        if ids and sid not in ids:
            continue
        bad = original_lines(spec)
        d = tempfile.mkdtemp(prefix="seed")
        try:
            sh(f"cp -a /repo/. {d}/", "/")
            apply(d, spec)
            diff = sh("git diff", d).stdout
            out = f"{SEED}/{sid}"
            os.makedirs(out, exist_ok=True)
            open(f"{out}/patch.diff", "w").write(diff)
            open(f"{out}/demo.sh", "w").write(DEMO)
            os.chmod(f"{out}/demo.sh", 0o755)
            open(f"{out}/demo.py", "w").write(spec["demo"].lstrip("\n"))
            json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
            env = dict(ENV, PYTHONPATH=d + ":/opt/vp")
            r0 = sh(["bash", f"{out}/demo.sh"], "/repo", env=ENV, timeout=300)
            r1 = sh(["bash", f"{out}/demo.sh"], d, env=ENV, timeout=300)
            t = sh(f"{PY} -m pytest -q -n 8 -p seed_rng -p no:cacheprovider --doctest-modules --ignore=noxfile.py --ignore=setup.py "
                   "--ignore=lie_nn/_src/reduce_test.py .", d, env=env)
            last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
            tests_ok = "2754 passed" in last and "failed" not in last
            c = sh(["/verif/check", spec["property"], "quick"], "/verif", env=dict(os.environ, LNSA_REPO=d))
            caught = c.returncode == 1 and f"VIOLATION property={spec['property']}" in c.stdout
            print(f"{sid:28s} {spec['property']} valid={r0.returncode == 0 and r1.returncode != 0 and tests_ok and not bad} demo={r0.returncode},{r1.returncode} "
                  f"tests={'ok' if tests_ok else last} {'CAUGHT' if caught else 'missed'} {bad or ''}", flush=True)
            if r0.returncode:
                print(r0.stderr[-600:])
            if caught:
                print("     ", [l for l in c.stdout.splitlines() if l.startswith("  ")][0][:260])
            elif c.returncode not in (0, 1):
                print(c.stdout[-500:], c.stderr[-500:])
        finally:
            shutil.rmtree(d)


main(sys.argv[1:])
