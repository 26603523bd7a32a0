import sys,time
sys.path.insert(0,'/verif')
from bounded import core
from bounded.cases import ALL
tier='quick'
for pid in sys.argv[1:]:
    t=time.time()
    r=core.run_all(ALL[pid](tier))
    bad=[x for x in r if x[1]!='ok']
    print(pid,len(r),'cases',len(bad),'not ok',f'{time.time()-t:.1f}s','max',max((round(x[3],1),x[0]) for x in r))
    for x in bad[:4]: print('   ',x[0],x[1],str(x[2])[:600])
