import sys,json,subprocess,time,os
sys.path.insert(0,'/verif')
from vlib.gen import Gen
from vlib import lits
if 'LITS' in os.environ: lits._cache=tuple(json.loads(os.environ['LITS']))
prop,n,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
d='/tmp/try_'+prop; os.makedirs(d,exist_ok=True)
t=time.time()
g=Gen("%s-%d"%(prop,seed)); ss=getattr(g,prop)(n)
if prop in ("C06","C14","C15","C16","C17","C18"): ss=g.relatives(ss,0.3)
open(d+'/s','w').write(''.join(json.dumps(s)+'\n' for s in ss))
t1=time.time()
for f in ('o','p'):
    if os.path.exists(d+'/'+f): os.remove(d+'/'+f)
r=subprocess.run(['/verif/.build/target/debug/vharness',d+'/s',d+'/o',d+'/p'])
t2=time.time()
ev=[json.loads(l) for l in open(d+'/o')]
env=dict(os.environ,TRACE=d+'/o',SPEC_DIR='/verif/spec')
q=subprocess.run(['bash','/tmp/tlc.sh','-workers','auto','-config','/verif/spec/Trace.cfg','/verif/spec/Trace.tla'],env=env,capture_output=True,text=True)
bad=[int(l.split(',')[1].split('>')[0]) for l in q.stdout.splitlines() if l.startswith('<<"BAD"')]
print(prop,'rc',r.returncode,'cmds',sum(map(len,ss)),'events',len(ev),'gen %.1f exec %.1f tlc %.1f'%(t1-t,t2-t1,time.time()-t2),'bad',len(bad))
for l in q.stdout.splitlines():
    if 'Error' in l or 'rror:' in l or 'distinct' in l: print('  ',l[:300])
if '-v' in sys.argv: print(q.stdout[-3000:])
for b in bad[:3]: print(b, json.dumps(ev[b-1])[:1500])
