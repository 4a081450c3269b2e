# tryit COMP N [PROFILE]: random schedules on current tree, all rules
import sys,random,collections,json,importlib
sys.path.insert(0,'/verif')
from vlib import tlc
from vlib.core import Run
comp,n=sys.argv[1],int(sys.argv[2])
GEN = dict(sched="gen_sched", worker="gen_worker", client="gen_client", system="gen_system")
MOD = dict(sched="TraceScheduler", worker="TraceWorker", client="TraceClient", system="TraceSystem")
gen=importlib.import_module("sim."+GEN[comp])
profs=[x for x in sys.argv[3:4] if x] or list(gen.PROFILES)
run=Run("M00","x","quick",1)
rng=random.Random(int(sys.argv[4]) if len(sys.argv)>4 else 11)
sch=[gen.schedule(rng,profs[i%len(profs)]) for i in range(n)]
tr=run.execute(comp,sch,jobs=4,timeout=900)
p=run.work+"/t.ndjson"
open(p,"w").write("".join(json.dumps(t)+"\n" for t in tr))
acc,rej,_=tlc.validate(MOD[comp],p,n,workers=4)
print(len(rej),collections.Counter(x for _,c in rej.values() for x in c))
for i,(l,c) in list(rej.items())[:3]:
    print(sch[i]["profile"],l,c,json.dumps(tr[i]["ev"][max(0,l-4):l+1])[:1500])
    json.dump(sch[i],open(f"/tmp/rej{i}.json","w"))
