import sys, time; sys.path.insert(0,'/verif')
from lnsa.seeds import *
from lnsa import decide, v_values
import importlib
mod, fn = sys.argv[1].split('.')
m = importlib.import_module('lnsa.'+mod)
filt = sys.argv[2] if len(sys.argv)>2 else ''
root = sys.argv[3] if len(sys.argv)>3 else '/repo'
prog = Program(root)
rep = decide.Report(fn)
for sc in getattr(m, fn)('thorough' if '-t' in sys.argv else 'quick'):
    if filt and filt not in sc.name: continue
    t=time.time()
    n=len(rep.scen); v=len(rep.violations); u=len(rep.undecided)
    try:
        decide.run_scenario(prog, rep, sc)
    except Exception as e:
        import traceback; traceback.print_exc(); print("CRASH", sc.name); break
    print(f"{sc.name:50s} {time.time()-t:6.2f}s", [(i['paths'],i['proved'],i['undecided']) for i in rep.scen[n:]], [x['detail'][:150]+' @ '+x['where'] for x in rep.violations[v:]][:2], [x[:160] for x in rep.undecided[u:]][:2])
