import sys,time,traceback,collections
import engine, run1, front, z3
db=front.load(); S=run1.mkspecs(__import__('allspecs').MODS)
D=collections.defaultdict(lambda:[0,0,collections.Counter()])
o=engine.Solver.check
def chk(self,pc,extra=None,timeout=None):
    t=time.time(); r=o(self,pc,extra,timeout); d=time.time()-t
    fr=[f for f in traceback.extract_stack()[:-1]][-4:]
    k=' < '.join('%s:%d'%(f.name,f.lineno) for f in reversed(fr))
    x=D[k]; x[0]+=1;x[1]+=d; x[2][str(r)]+=1
    return r
engine.Solver.check=chk
e=engine.Verifier(db,S,bounded=int(sys.argv[2]) if len(sys.argv)>2 else 0,verbose=1,budget=int(sys.argv[3]) if len(sys.argv)>3 else 200)
r=e.verify(sys.argv[1])
print(r['obligations'],r['discharged'],r['error'],r['wall'],r['paths'])
for k,x in sorted(D.items(),key=lambda z:-z[1][1])[:14]: print('%6d %7.1fs %s %s'%(x[0],x[1],dict(x[2]),k))
