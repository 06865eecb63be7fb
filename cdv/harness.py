"""Native replay harnesses: search for a concrete failing input of a contract on the real code.

The repository's current sources are compiled (unchanged, with ASan/UBSan) into a scratch directory; the unit whose
static functions are needed is included by the harness.  Used only after an obligation has failed, to turn the
verifier's alarm into a concrete input; it never makes an obligation pass."""
import os, re, time, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import front

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HD = os.path.join(VERIF, 'harness')
UNITS = ['block', 'clast', 'int', 'loop', 'matrix', 'names', 'options', 'pprint', 'program', 'state', 'statement', 'stride',
         'union_domain', 'util', 'input', 'isl/constraints', 'isl/domain', 'isl/backend', 'version']
SAN = ['-fsanitize=address']
PROBES = {}      # fixed inputs on which the code is known, or found, to misbehave: name -> what happened


def sources():
    """the library's sources, as the repository has them now (new files included)"""
    base = os.path.join(front.REPO, 'source')
    out = []
    for d in ('', 'isl'):
        for f in sorted(os.listdir(os.path.join(base, d))):
            if f.endswith('.c') and f not in ('cloog.c', 'mp_get_memory_functions.c'):
                out.append(os.path.join(d, f))
    return out


def build(name, d, san=True):
    inc = os.path.join(d, 'inc')
    if not os.path.isdir(inc):
        front.gen_includes(inc)
    src = open(os.path.join(HD, name + '.c')).read()
    excl = set(re.findall(r'#include "\.\./source/([^"]+)"', src))
    R = front.REPO
    flags = ['-g', '-O1', '-w', '-DCLOOG_INT_GMP=1', '-DCLOOG_RUSAGE', '-I', inc, '-I', os.path.join(R, 'include'), '-I', os.path.join(R, 'source'), '-I', HD] + (SAN if san else [])
    objs = []

    def cc(args):
        p = subprocess.run(['gcc'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    jobs = []
    for f in sources():
        if f in excl:
            continue
        o = os.path.join(d, f.replace('/', '_') + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(flags + ['-include', os.path.join(HD, 'alloc.h'), '-c', os.path.join(R, 'source', f), '-o', o])
    h = os.path.join(d, 'h_' + name + '.c')
    open(h, 'w').write(src.replace('#include "../source/', '#include "%s/source/' % R))
    jobs.append(flags + ['-c', h, '-o', h + '.o'])
    t = os.path.join(d, 'track.o')
    if not os.path.exists(t):
        jobs.append(flags + ['-c', os.path.join(HD, 'track.c'), '-o', t])
    with ThreadPoolExecutor(8) as ex:
        for rc, out in ex.map(cc, jobs):
            if rc:
                return None, out[-3000:]
    exe = os.path.join(d, 'h_' + name)
    rc, out = cc([h + '.o', t] + objs + (SAN if san else []) + ['-lisl', '-lgmp', '-o', exe])
    return (exe, '') if rc == 0 else (None, out[-3000:])


def run(names, secs=15, seeds=(1, 2, 3, 4, 5, 6, 7, 8)):
    """returns (found, log): found is the first concrete failure or None"""
    d = tempfile.mkdtemp(prefix='cdvh')
    log = []
    try:
        for name in names:
            exe, err = build(name, d)
            if exe is None:
                log.append('harness %s does not build against this tree: %s' % (name, err[-400:]))
                continue

            ps = []
            for sd in seeds:
                fo, fe = open(os.path.join(d, 'o%d' % sd), 'w+', errors='replace'), open(os.path.join(d, 'e%d' % sd), 'w+', errors='replace')
                ps.append((sd, subprocess.Popen([exe, str(secs), str(sd)], stdout=fo, stderr=fe, cwd=d), fo, fe))
            t0, res, hit = time.time(), [], None
            while time.time() - t0 < secs + 90 and hit is None and any(p.poll() is None for _, p, _, _ in ps):
                time.sleep(0.1)
                hit = next((x for x in ps if x[1].poll() not in (None, 0)), None)
            for _, p, fo, fe in ps:
                if p.poll() is not None:
                    fo.seek(0)
                    PROBES.update(re.findall(r'^PROBE (\S+): (.*)', fo.read(4000), re.M))
            hit = hit or next((x for x in ps if x[1].poll() not in (None, 0)), None)
            for _, p, fo, fe in ps:
                if p.poll() is None:
                    p.kill()
                    p.wait()
                fo.seek(0)
                res.append(fo.read()[-6000:])
            if hit:
                sd, p, fo, fe = hit
                fo.seek(0), fe.seek(0)
                out, err = fo.read()[-12000:], fe.read()[:2000]
                m = re.search(r'FAILING-INPUT (.*?)\nWRONG: (.*)', out, re.S)
                if m:
                    return dict(harness=name, seed=sd, input=m.group(1)[:4000], wrong=m.group(2).strip()[:500], stderr=err), log
                return dict(harness=name, seed=sd, input='(see stderr)', wrong='exit %s' % p.returncode, stderr=err, stdout=out[-1000:]), log
            log.append('harness %s: no failing input in %d runs of %d s (%s)' % (name, len(seeds), secs, ', '.join(re.findall(r'trials=\d+', ' '.join(res))[:8])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None, log


if __name__ == '__main__':
    import sys, time
    t = time.time()
    print(run(sys.argv[1].split(','), secs=int(sys.argv[2]) if len(sys.argv) > 2 else 5), time.time() - t)
