import sys; sys.path.insert(0,'/verif')
from vf.build import *
import subprocess,json,time
t=Tree()
try:
    bc=t.bitcode(sys.argv[1], sys.argv[2].split(',') if sys.argv[2] else [], target=sys.argv[3] if len(sys.argv)>3 and sys.argv[3] else 'host', tool=(sys.argv[4],len(sys.argv)>5 and sys.argv[5]=='main') if len(sys.argv)>4 and sys.argv[4] else None)
    t0=time.time()
    o=t.dir+'/out.jsonl'
    r=subprocess.run([SYMEX,bc,'--entry','sym_main','--out',o,'--workers','8','--time',os.environ.get('T','60'),'--repo',t.src]+os.environ.get('X','').split())
    print('rc',r.returncode,'t',round(time.time()-t0,1))
    tot={}
    ne=0
    for l in open(o):
        j=json.loads(l)
        if j['type']=='stats':
            for k,v in j.items():
                if isinstance(v,(int,float)) and not isinstance(v,bool): tot[k]=max(tot.get(k,0),v) if k in('wall_s','max_query_ms') else tot.get(k,0)+v
                if k=='timeout' and v: tot['TIMEOUT']=1
                if k=='labels':
                    for a,b in v.items(): tot.setdefault('labels',{}); tot['labels'][a]=tot['labels'].get(a,0)+b
        elif j['type'] in('error','incomplete'):
            ne+=1
            if ne<5: print(str(j)[:500])
    print({k:(round(v,2) if isinstance(v,float) else v) for k,v in tot.items()})
except BuildError as e: print(str(e)[-1500:])
finally: t.close()
