"""dev: run all contracts bounded (K) and unbounded; table"""
import sys,time,multiprocessing as mp
import check, front
def main():
    sys.setrecursionlimit(20000)
    K=int(sys.argv[1]); db=front.load(); S=check.load_specs(); ck=check.Checker(db,S)
    fns=sys.argv[2:] or sorted(f for f in S.contracts if f in db.funcs and not S.contracts[f].assumed)
    fns=[f for a in fns for f in (S.contracts if a.startswith('@') else [a]) if not a.startswith('@') or (f in db.funcs and not S.contracts[f].assumed and a[1:] in S.contracts[f].props)]
    avail=tuple(sorted(f for f in S.contracts if f in db.funcs)) if K else ()
    for r in ck.run([(f,K,avail,(),300,8000) for f in fns]):
        print('%-45s %-8s %6.1fs obl %d/%d paths %d %s'%(r['fn'],check.status(r),r['wall'],r['discharged'],r['obligations'],r['paths'],'' if check.status(r) in('proved','bounded') else check.first_fail(r)),flush=True)
main()
