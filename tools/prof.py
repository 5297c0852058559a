import sys; sys.path.insert(0,'/verif')
from dst import boot, harness
import cProfile,pstats,shutil,time
s=boot.scratch_root(); boot.load(s)
p=harness.load_prop(sys.argv[1])
for i in list(p.WARM): harness.run_case(p, harness.gen_case(p,'warm',i,'quick'), s)
pr=cProfile.Profile(); 
ts=[]
pr.enable()
for i in range(20,20+int(sys.argv[2])):
    t=time.time(); harness.run_case(p, harness.gen_case(p,1,i,'quick'), s); ts.append((round(time.time()-t,2),i))
pr.disable()
print(sorted(ts)[-10:], sum(x[0] for x in ts)/len(ts))
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
shutil.rmtree(s)
