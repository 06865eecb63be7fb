import sys, time
sys.path.insert(0, '/verif/cdv')
import front, engine, ctx, models
import importlib
def mkspecs(mods):
    S = ctx.Specs()
    models.mpz_models(S); models.libc_models(S)
    for m in mods: importlib.import_module(m).install(S)
    return S
if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--mods', default='all')
    ap.add_argument('-b', type=int, default=0)
    ap.add_argument('-v', type=int, default=1)
    ap.add_argument('fns', nargs='*')
    a = ap.parse_args()
    db = front.load()
    S = mkspecs(a.mods.split(',') if a.mods!='all' else __import__('allspecs').MODS)
    for f in a.fns or [k for k in S.contracts if not S.contracts[k].assumed]:
        e = engine.Verifier(db, S, bounded=a.b, verbose=a.v)
        r = e.verify(f)
        if a.v:
            for o in sorted(e.obls,key=lambda o:-o.time)[:8]:
                if o.time>1: print('   slow %.1fs %s line %s' % (o.time,o.name,o.line))
        print('%-40s obl %d/%d paths %d err=%s %.1fs vac=%s bh=%s used=%s inl=%s' % (f, r['discharged'], r['obligations'], r['paths'], r['error'], r['wall'], r['vacuous'], r['bounded_hit'], r['used'], r['inlined']))
