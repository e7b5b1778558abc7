"""run the scenarios of a function in parallel and print one line each"""
import sys, time, importlib; sys.path.insert(0,'/verif')
import multiprocessing as mp
from lnsa.seeds import Program
from lnsa import decide, main
mod, fn = sys.argv[1].split('.')
filt = sys.argv[2] if len(sys.argv)>2 else ''
root = sys.argv[3] if len(sys.argv)>3 else '/repo'
prog = Program(root)
scs=[s for s in getattr(importlib.import_module('lnsa.'+mod), fn)('thorough' if '-t' in sys.argv else 'quick') if filt in getattr(s,'name',getattr(s,'__name__',''))]
def go(i):
    sc=scs[i]; rep=decide.Report(fn); t=time.time()
    try:
        if isinstance(sc, decide.Scenario): decide.run_scenario(prog, rep, sc)
        else: sc(prog, rep, 'quick')
    except BaseException as e:
        import traceback
        return f"{getattr(sc,'name','?'):45s} CRASH {type(e).__name__} {str(e)[:200]} {traceback.extract_tb(e.__traceback__)[-1]}"
    return f"{getattr(sc,'name',getattr(sc,'__name__','?')):45s} {time.time()-t:6.2f}s {[(i['paths'],i.get('proved'),i.get('undecided')) for i in rep.scen]} V={[x['detail'][:300]+' @ '+x['where'] for x in rep.violations][:3]} U={[x[:200] for x in rep.undecided][:2]} {rep.extra or ''}"
with mp.get_context('fork').Pool(8, initializer=main.limit) as pool:
    for r in pool.imap(go, range(len(scs)), chunksize=1): print(r, flush=True)
