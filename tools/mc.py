import sys,os,time,json
sys.path.insert(0,'/verif')
from vlib import run,models
import importlib
prop,tier=sys.argv[1],(sys.argv[2] if len(sys.argv)>2 else 'quick')
os.makedirs('/tmp/mcw',exist_ok=True)
st=run.Stats()
try:
    ss=run.run_models(prop,tier,'/tmp/mcw',st)
except run.CheckError as e:
    print(e); sys.exit(1)
for m in st.mc: print(m)
t=time.time(); tr=run.execute(ss,'/tmp/mcw','x'); t1=time.time()
bad=run.validate(tr,'/tmp/mcw',st)
L=open(tr).read().splitlines()
print(prop,tier,'sessions',len(ss),'events',st.events,'exec %.1f validate %.1f'%(t1-t,time.time()-t1),'bad',len(bad),st.ops)
for b in bad[:3]: print(L[b][:1500])
