"""Property check: decide a property by discharging the contracts it rests on.

usage: check.py <property-id>       (environment: VERIF_TIER, VERIF_SEED, CDV_REPO)

1. every contract tagged with the property, and every contract those proofs use, is verified
   deductively (unbounded) from the current source of the repository;
2. a function whose proof does not go through is triaged: a bounded symbolic run of the same
   contract (loops unrolled, structures up to a depth, unproved callees inlined) decides whether
   the contract is really broken (counter-model) or only the proof script no longer applies;
3. a broken contract of an internal helper is dropped and its callers are re-verified with the
   helper inlined; a broken contract that reaches the API surface is the violation."""
import os, sys, time, json, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

_G = {}


def _init_worker():
    pass


def _task(job):
    import engine
    db, S = _G['db'], _G['S']
    fn, bounded, proved, inline_only, budget, timeout = job
    S.proved = set(proved)
    if _G.get('deadline'):
        budget = max(5, min(budget, _G['deadline'] - time.time()))
    try:
        e = engine.Verifier(db, S, bounded=bounded, inline_only=inline_only, budget=budget, timeout=timeout,
                            unroll=(bounded + 1 if bounded else 4))
        r = e.verify(fn)
    except RecursionError:
        r = dict(fn=fn, error='recursion limit', fails=[], obligations=0, discharged=0, used=[], inlined=[], models=[],
                 vacuous=[], bounded_hit=False, solver_s=0, solver_calls=0, wall=0, names=[], loops_cut=0, unrolled=[], paths=0, posts=0)
    except Exception as ex:
        r = dict(fn=fn, error='verifier error: %s' % ''.join(traceback.format_exception_only(type(ex), ex)).strip(), tb=traceback.format_exc(), fails=[],
                 obligations=0, discharged=0, used=[], inlined=[], models=[], vacuous=[], bounded_hit=False, solver_s=0,
                 solver_calls=0, wall=0, names=[], loops_cut=0, unrolled=[], paths=0, posts=0)
    r['bounded'] = bounded
    r['fails'] = [dict(fn=o.fn, name=o.name, line=o.line, why=o.why, model=o.model, path=o.path) for o in r['fails']]
    return r


def status(r):
    if r['error'] is None and not r['fails'] and not r['vacuous']:
        if r['bounded']:
            return 'bounded'
        return 'bounded_hit' if r['bounded_hit'] else 'proved'
    if any(f['why'] != 'unknown' and 'unknown' not in f['why'] for f in r['fails']):
        return 'failed'
    return 'undet'


class Checker:
    def __init__(self, db, S, jobs=8, quick=True):
        self.db, self.S, self.jobs = db, S, jobs
        self.res = {}
        self.budget = 240 if quick else 600
        self.timeout = 8000 if quick else 30000
        self.log = []
        _G['db'], _G['S'] = db, S
        self.callers = {}
        for f in db.funcs:
            for g in calls_of(db, f):
                self.callers.setdefault(g, set()).add(f)

    def run(self, jobs):
        if not jobs:
            return []
        # most expensive first
        cost = self.S.cost if hasattr(self.S, 'cost') else {}
        jobs = sorted(jobs, key=lambda j: -cost.get(j[0], 1))
        if len(jobs) == 1:
            pass
        with mp.get_context('fork').Pool(min(self.jobs, len(jobs)), maxtasksperchild=4) as p:
            return list(p.imap_unordered(_task, jobs, chunksize=1))

    def deductive(self, targets):
        todo = [t for t in targets]
        seen = set()
        while todo:
            jobs = [(f, 0, (), (), self.budget, self.timeout) for f in todo if f not in seen]
            seen |= set(todo)
            nxt = set()
            for r in self.run(jobs):
                self.res[r['fn']] = r
                for u in r['used']:
                    sp = self.S.contract(u)
                    if u not in seen and not sp.assumed and u in self.db.funcs:
                        nxt.add(u)
            todo = sorted(nxt)
        return self.res

    def triage(self, targets):
        """returns (violations, notes)"""
        S, db = self.S, self.db
        bad = {f for f, r in self.res.items() if status(r) != 'proved'}
        final, dropped, notes, viol = {}, set(), [], []
        everything = {f for f in S.contracts if f in db.funcs}
        K = 2
        work = sorted(bad)
        rounds = 0
        while work and rounds < 8:
            rounds += 1
            if _G.get('deadline') and time.time() > _G['deadline']:
                notes.append('time budget used up; not decided: ' + ', '.join(work))
                break
            avail = tuple(sorted(everything - dropped))
            failing = []
            for r in self.run([(f, K, avail, (), self.budget, self.timeout) for f in work]):
                f = r['fn']
                final[f] = r
                if status(r) == 'bounded' and not _G.get('late'):
                    # larger structures before the alarm is put aside
                    r3 = self.run([(f, K + 1, avail, (), min(self.budget, 90), self.timeout)])[0]
                    if status(r3) == 'failed':
                        final[f] = r = r3
                if status(r) == 'bounded':
                    notes.append('%s: the unbounded proof does not go through (%s); bounded check of the same contract (structures and loops up to %d) passes' % (f, first_fail(self.res[f]) if f in self.res else 'not run', K))
                else:
                    failing.append(f)
            newdrop = {f for f in failing if self.is_helper(f)}
            dropped |= newdrop
            again = set()
            for f in sorted(newdrop):
                cs = sorted(c for c in self.callers.get(f, ()) if S.contract(c) is not None and not S.contract(c).assumed and c not in dropped)
                notes.append('%s: internal contract not met (%s); callers re-verified with its body inlined: %s' % (f, first_fail(final[f]), ', '.join(cs)))
                again |= set(cs)
            rest = []
            for f in failing:
                if f in newdrop:
                    continue
                if newdrop & self.reach(f):
                    again.add(f)
                else:
                    rest.append(f)
            # second opinion: every callee inlined
            for r in self.run([(f, final[f]['bounded'], (), (), self.budget, self.timeout) for f in rest]):
                if status(r) == 'bounded':
                    final[r['fn']] = r
                    notes.append('%s: bounded check with all callees inlined passes' % r['fn'])
                else:
                    viol.append((r['fn'], final[r['fn']], status(final[r['fn']])))
            work = sorted(again - {v[0] for v in viol})
        return viol, notes, final

    def reach(self, f):
        out, todo = set(), [f]
        while todo:
            x = todo.pop()
            for g in (calls_of(self.db, x) if x in self.db.funcs else ()):
                if g not in out:
                    out.add(g)
                    todo.append(g)
        return out

    def is_helper(self, f):
        """static function all of whose callers carry contracts (so dropping its contract loses nothing)"""
        sp = self.S.contract(f)
        if getattr(sp, 'key', False):
            return False
        d = self.db.funcs.get(f)
        if d is None or d.get('storageClass') != 'static':
            return False
        cs = self.callers.get(f, set()) - {f}
        return bool(cs) and all(self.S.contract(c) is not None and not self.S.contract(c).assumed for c in cs)


def first_fail(r):
    if r['fails']:
        x = r['fails'][0]
        return '%s (line %s): %s' % (x['name'], x['line'], x['why'])
    return r['error'] or ','.join(r['vacuous']) or 'bound reached'


def calls_of(db, f):
    out = set()

    def walk(n):
        if n.get('kind') == 'DeclRefExpr':
            d = n.get('referencedDecl', {})
            if d.get('kind') == 'FunctionDecl':
                out.add(d['name'])
        for i in n.get('inner', ()):
            if i:
                walk(i)
    walk(db.funcs[f])
    return out


def load_specs():
    import engine, ctx, models, allspecs
    S = ctx.Specs()
    models.mpz_models(S)
    models.libc_models(S)
    allspecs.install(S)
    return S


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    import front, props
    P = props.PROPS[prop]
    try:
        db = front.load()
    except front.ToolLimit as e:
        print('cannot load the sources: %s' % e)
        sys.exit(2)
    S = load_specs()
    ck = Checker(db, S, quick=(tier == 'quick'))
    targets = sorted(f for f, sp in S.contracts.items() if prop in sp.props and not sp.assumed and f in db.funcs)
    missing = sorted(f for f, sp in S.contracts.items() if prop in sp.props and not sp.assumed and f not in db.funcs)
    lem = props.run_lemmas(prop, ck.timeout)
    quick = tier == 'quick'
    _G['deadline'] = t0 + (450 if quick else 3000)
    ck.deductive(targets)
    bad = sorted(f for f, r in ck.res.items() if status(r) != 'proved')
    viol, notes, final, found = [], [], {}, None
    known = load_known()
    for f in bad:
        r = ck.res[f]
        print('  not discharged: %s: %s' % (f, first_fail(r)))
        notes.append('%s: the deductive proof fails: %s' % (f, first_fail(r)))
    # the real code, on generated inputs: bounded stand-in for what is outside the verifier's reach, and the search
    # for a concrete failing input when an obligation failed
    import harness
    hs = P.get('harness', [])
    t1 = time.time()
    secs = (P.get('hsecs', 8) * (2 if bad else 1)) if quick else 120
    found, hlog = harness.run(hs, secs=secs, seeds=[seed * 1000 + i for i in range(1, 9)]) if hs else (None, ['no replay harness for this property'])
    standin = dict(label='bounded stand-in (not counted as proved)', harnesses=hs, covers=P.get('standin', 'the same functions as the contracts, on the compiled code'), log=hlog, seconds=round(time.time() - t1, 1))
    notes += hlog
    if found and not bad:
        viol = [('bounded stand-in ' + found['harness'], dict(fails=[dict(fn=found['harness'], name='bounded stand-in: ' + found['wrong'][:200], line=0, why='concrete failing input', model=None, path=None)], error=None, vacuous=[], names=[]), 'failed')]
    for pb, what in sorted(harness.PROBES.items()):
        if any(x.get('property') == prop and x.get('probe') == pb for x in known):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        elif not found:
            found = dict(harness=hs[0], seed=0, input=pb, wrong=what, stderr='')
            if not bad:
                viol = [('bounded stand-in ' + pb, dict(fails=[dict(fn=pb, name='fixed input: ' + what[:200], line=0, why='concrete failing input', model=None, path=None)], error=None, vacuous=[], names=[]), 'failed')]
    if bad:
        if found:
            viol = [(f, ck.res[f], 'failed') for f in bad]
        else:
            # a contract whose function disappeared: its remaining callers are checked with whatever replaced it
            _G['deadline'] = time.time() + (280 if quick else 3000)
            viol, n2, final = ck.triage(targets)
            notes += n2
            for f, r, st in [v for v in viol if v[2] != 'failed']:
                notes.append('%s: not decided within the bounds (%s) and no failing input found' % (f, first_fail(r)))
            viol = [v for v in viol if v[2] == 'failed']
    for m in missing:
        notes.append('%s: no such function any more; its contract is void, callers are checked against the code that replaced it' % m)
    if len(missing) and len(targets) == 0:
        print('no function under contract is left for %s' % prop)
        sys.exit(2)
    for l in lem:
        if not l[1]:
            viol.append(('lemma ' + l[0], dict(fails=[dict(fn='lemma', name=l[0], line=0, why='lemma not discharged', model=None, path=None)], error=None, vacuous=[], names=[]), 'failed'))
    rc = 0
    nv = 0
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for f, r, st in viol:
        key = '%s|%s' % (f, r['fails'][0]['name'] if r['fails'] else r['error'])
        k = [x for x in known if x.get('property') == prop and x.get('function') == f and (r['fails'] and all(any(n in y['name'] for n in x['obligations']) for y in r['fails']))]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
            continue
        nv += 1
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, f.replace(' ', '_')))
        doc = dict(property=prop, function=f, status=st, failed_obligations=r['fails'], error=r['error'], vacuous=r['vacuous'],
                   how='deductive obligation failed; concrete failing input found on the real code' if found else 'deductive obligation failed; bounded counter-model', notes=notes, concrete=found)
        json.dump(doc, open(path, 'w'), indent=1, default=str)
        for x in r['fails'][:3]:
            print('  failed obligation: %s: %s (line %s): %s' % (x['fn'], x['name'], x['line'], x['why']))
        if r['error']:
            print('  %s: %s' % (f, r['error']))
        if found:
            print('  concrete failing input: %s' % str(found)[:400])
        if rc == 0:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
        rc = 1
    for n in notes:
        print('note: ' + n)
    write_evidence(prop, tier, seed, ck, targets, missing, final, notes, nv, time.time() - t0, S, lem, P, standin)
    tot = sum(r['obligations'] for r in ck.res.values())
    dis = sum(r['discharged'] for r in ck.res.values())
    print('%s: %d functions under contract, %d/%d obligations discharged, %d lemmas, %.1fs' % (prop, len(ck.res), dis, tot, len(lem), time.time() - t0))
    sys.exit(rc)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x.get('status') == 'known']


def write_evidence(prop, tier, seed, ck, targets, missing, final, notes, nv, wall, S, lem, P, standin):
    import props
    obl = sum(r['obligations'] for r in ck.res.values()) + len(lem)
    dis = sum(r['discharged'] for r in ck.res.values()) + sum(1 for l in lem if l[1])
    fns = []
    for f, r in sorted(ck.res.items()):
        st = status(r)
        if f in final:
            st = 'bounded' if status(final[f]) == 'bounded' else 'not proved: ' + first_fail(final[f])
        fns.append(dict(function=f, status=st, obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'],
                        loops_cut_by_invariant=r['loops_cut'], solver_s=round(r['solver_s'], 3), solver_calls=r['solver_calls'],
                        callee_contracts=r['used'], inlined=r['inlined']))
    models = sorted({m for r in ck.res.values() for m in r['models']})
    assumed = sorted({u for r in ck.res.values() for u in r['used'] if S.contract(u) is not None and S.contract(u).assumed})
    inlined = sorted({m for r in ck.res.values() for m in r['inlined']})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=dis,
                            checker_cmd='python3-vt cdv/check.py ' + prop,
                            trusted_base=['CDV verifier (cdv/*.py): clang AST semantics, separation-logic ownership', 'clang 18 AST', 'z3 (python API)'] +
                            ['model of external function ' + m for m in models if not m.startswith('trusted')] + [m for m in models if m.startswith('trusted')] +
                            ['assumed contract: %s (%s)' % (a, S.contract(a).assumed) for a in assumed],
                            backend='z3', solver_s=round(sum(r['solver_s'] for r in ck.res.values()), 2),
                            functions=fns, functions_inlined=inlined, contracts_without_function=missing,
                            lemmas=[dict(name=l[0], discharged=l[1], seconds=round(l[2], 3)) for l in lem],
                            vacuity='every precondition satisfiable and every postcondition reached by at least one feasible path (checked this run)'
                            if not any(r['vacuous'] for r in ck.res.values()) else [r['vacuous'] for r in ck.res.values() if r['vacuous']],
                            samples=[n for r in list(ck.res.values())[:3] for n in r['names'][:3]],
                            bounded_standin=standin, notes=notes),
              assumptions=props.ASSUMPTIONS + P.get('assumptions', []), wall_s=round(wall, 2), violations=nv)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('check could not be completed')
        sys.exit(2)
