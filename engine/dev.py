"""dev driver: python engine/dev.py module [name filter ...]"""
import sys,time,os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib, os
from engine import harness
m=importlib.import_module('contracts.'+sys.argv[1])
sel=sys.argv[2:]; W=int(os.environ.get('W','220')); NF=int(os.environ.get('NF','4'))
for c in m.CONTRACTS:
    if sel and not any(s in c.name for s in sel): continue
    t=time.time(); cnt=[0]
    def log(n,r):
        if not r['ok']:
            cnt[0]+=1
            if cnt[0]<=NF: print(('    FAIL %s %s %.2f'%(r['ob'],r['how'],r['t']))[:W],flush=True)
        elif r['t']>4: print('    slow',r['ob'],r['how'],'%.2f'%r['t'])
    try:
        r=c.prove(log=log)
        bad=[x for x in r['results'] if not x['ok']]
        print(c.name,len(r['results']),'obl',len(bad),'bad','%.1fs'%(time.time()-t), sorted({b['ens'] for b in bad}))
    except Exception as e:
        import traceback; print(c.name,'EXC',str(e)[:300], traceback.format_exc()[-600:])
    v,st=c.search(1); print('   search',st['tried'],st['admissible'],'%.1f'%st['wall'], str(v and v['fails'][:3])[:600],flush=True)
