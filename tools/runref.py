#!/usr/bin/env python3
"""runref.py FILE [id…]: run the checks against behaviour-preserving edits (scratch copies)"""
import sys, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}; exec(open(sys.argv[1]).read(), g)
for id, props, edits in g['R']:
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    W = tempfile.mkdtemp(prefix='rf.', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/r'])
    for f, o, n in edits:
        p = os.path.join(W, 'r', f); t = open(p).read()
        assert t.count(o) == 1, (id, f, t.count(o), o[:60])
        open(p, 'w').write(t.replace(o, n))
    for x in ('cdv', 'harness'): shutil.copytree(os.path.join(V, x), os.path.join(W, x))
    for x in ('check', 'known_findings.json'): shutil.copy(os.path.join(V, x), W)
    for p in props:
        out = subprocess.run(['timeout', '900', './check', p], cwd=W, env=dict(os.environ, CDV_REPO=W + '/r'), capture_output=True, text=True)
        l = (out.stdout + out.stderr).strip().split('\n')
        print('==', id, p, 'rc=%d' % out.returncode, l[-1][:100])
        for y in l:
            if 'not discharged' in y or 'failed obl' in y or 'not decided' in y or 'concrete' in y or 'rror:' in y: print('     ', y[:240])
        sys.stdout.flush()
    shutil.rmtree(W)
