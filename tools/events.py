"""events of the workload, grouped"""
import sys; sys.path.insert(0,'/verif')
import multiprocessing as mp, collections
from lnsa.seeds import Program
from lnsa import decide, main, v_work
kinds=sys.argv[1].split(',')
filt=sys.argv[2] if len(sys.argv)>2 else ''
root = sys.argv[3] if len(sys.argv)>3 else '/repo'
prog=Program(root)
ws=[w for w in v_work.work() if filt in w.name]
def go(i):
    out=collections.Counter(); ex={}
    def op(rep,sc,p,part):
        for e in p.events:
            if e[0] in kinds or kinds==['all']:
                d=dict(e[2]) if isinstance(e[2],dict) else e[2]
                k=(e[0],decide.wtext(e[1]),str({a:(getattr(b,'owner',None) if a=='set' else str(b)[:110]) for a,b in d.items() if a not in('node',)})[:220] if isinstance(d,dict) else str(d)[:200])
                out[k]+=1; ex[k]=sc.name
    try:
        decide.run_scenario(prog, decide.Report('x'), v_work.scenario(ws[i],None,raise_ok=lambda p:True,on_path=op))
    except BaseException as e: out[('CRASH',ws[i].name,repr(e)[:100])]+=1
    return out,ex
tot=collections.Counter(); E={}
with mp.get_context('fork').Pool(8, initializer=main.limit) as pool:
    for o,ex in pool.imap_unordered(go, range(len(ws)), chunksize=1):
        tot+=o; E.update(ex)
for k,n in sorted(tot.items(), key=str): print(n,*k,'|',E.get(k))
