"""check <property> [quick|thorough]: analyses /repo's current source and decides one property."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import decide
from .seeds import Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LNSA_REPO", "/repo")
_G = {}


def tasks_for(pid, tier):
    from . import registry
    return registry.tasks(pid, tier)


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def work(i):
    pid, tier, deadline = _G["args"]
    t = _G["tasks"][i]
    rep = decide.Report(pid)
    name = getattr(t, "name", getattr(t, "__name__", str(i)))
    if time.time() > deadline:
        rep.undecided.append(f"{name}: not analysed, time budget used up")
        rep.skipped = 1
    else:
        try:
            if isinstance(t, decide.Scenario):
                decide.run_scenario(_G["prog"], rep, t)
            else:
                t(_G["prog"], rep, tier)
        except (Exception, RecursionError, decide.TimeUp) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided.append(f"{name}: analyser error {type(e).__name__}: {str(e)[:200]} ({os.path.basename(tb.filename)}:{tb.lineno})")
            if os.environ.get("LNSA_DEBUG"):
                traceback.print_exc()
    return (name, rep.violations, rep.undecided, rep.functions, rep.sites, rep.paths, rep.obls, rep.scen, rep.extra)


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = line[7:].split(" | ")
                pid = d[0].split("=", 1)[1].strip()
                out.append((pid, d[1].strip(), d[2].strip() if len(d) > 2 else ""))
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    decide.SEED = seed
    t0 = time.time()
    tasks = tasks_for(pid, tier)
    budget = 420 if tier == "quick" else 800
    prog = Program(REPO)
    _G.update(args=(pid, tier, t0 + budget), tasks=tasks, prog=prog)
    n = max(1, min(int(os.environ.get("LNSA_JOBS", "8")), len(tasks)))
    if n == 1:
        res = [work(i) for i in range(len(tasks))]
    else:
        with mp.get_context("fork").Pool(n, initializer=limit) as pool:
            res = list(pool.imap(work, range(len(tasks)), chunksize=1))
    violations, undecided, functions, sites, paths, obls, scen, extra = [], [], set(), set(), 0, 0, [], {}
    for name, v, u, f, s, p, o, sc, ex in res:
        for x in v:
            if x not in violations:
                violations.append(x)
        undecided += u
        functions |= f
        sites |= s
        paths += p
        obls += o
        scen += sc
        for k, val in ex.items():
            if isinstance(val, (int, float)):
                extra[k] = extra.get(k, 0) + val
            elif isinstance(val, (list, set)):
                extra[k] = sorted(set(map(str, extra.get(k, []))) | set(map(str, val)))
            else:
                extra[k] = val
    known = [k for k in known_findings() if k[0] == pid]
    shown, real = [], []
    for v in violations:
        hit = next((k for k in known if k[1] in v["where"] and k[2] in v["detail"]), None)
        if hit:
            if hit not in shown:
                shown.append(hit)
                print(f"KNOWN-FINDING: property={pid} {v['where']}: {hit[2]}")
        else:
            real.append(v)
    from . import registry
    meta = registry.META[pid]
    wall = round(time.time() - t0, 2)
    proved = sum(s.get("proved", 0) for s in scen)
    cov = {
        "explanation": meta["explanation"],
        "rule": meta["rule"],
        "functions_analysed": len(functions),
        "functions": sorted(functions),
        "call_sites_analysed": len(sites),
        "abstract_paths": paths,
        "obligations": obls,
        "obligations_discharged": proved + extra.get("rule_obligations_discharged", 0),
        "undecided": len(undecided),
        "undecided_samples": undecided[:25],
        "scenarios": len(scen),
        "scenario_samples": scen[:40],
        **{k: v for k, v in extra.items()},
    }
    if "rule_obligations" in extra:
        cov["obligations"] += extra["rule_obligations"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall,
          "assumptions": meta.get("assumptions", []), "violations": len(real)}
    out = os.environ.get("LNSA_OUT", HERE)
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    with open(os.path.join(out, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if os.environ.get("LNSA_VERBOSE"):
        for u in undecided[:400]:
            print("undecided:", u[:300])
    print(f"{pid}: {cov['obligations']} obligations, {cov['obligations_discharged']} discharged, {len(undecided)} undecided, {paths} abstract paths, "
          f"{len(functions)} functions, {wall}s")
    if real:
        d = os.path.join(out, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "violations": real}, fh, indent=1, default=str)
        for v in real[:12]:
            print(f"  {v['where']}: {v['rule']}: {v['detail'][:500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
