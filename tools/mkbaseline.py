"""cdv/baseline.json: the locals and loop counts of the functions the specs name, in the tree the specs were written for.
Run once when specs are (re)written; checks never write it."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'cdv'))
import front
import engine
from interp import local_decls, count_loops
import run1, allspecs
db = front.load()
S = run1.mkspecs(allspecs.MODS)
need = {f for f, i in S.loops} | {f for f in S.contracts if not S.contracts[f].assumed}
out = {'': sorted(db.funcs)}
for f in sorted(need):
    if f in db.funcs:
        out[f] = {'loops': count_loops(db.funcs[f]), 'locals': local_decls(db.funcs[f])}
with open(os.path.join(H, 'cdv', 'baseline.json'), 'w') as o:
    o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(out[k])) for k in sorted(out)) + '\n}\n')
