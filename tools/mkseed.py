#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW -- create seeded/ID/patch.diff + meta.json (demo.* written separately).
Reads a python dict spec from stdin: {id, prop, edits:[(file, old, new)], needs, breaks, demo_c|demo_sh}"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -g -w -DCLOOG_INT_GMP -I$R/_build/include -I$R/_build -I$R/include -I$R/source -I$R "$D/demo.c" $R/_build/.libs/libcloog-isl.a -lisl -lgmp -o $T/demo || exit 3
timeout 60 $T/demo
'''
def mk(s):
    W = '/tmp/mkseed_repo'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    for f, old, new in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', W, 'diff']).decode()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write(s.get('demo_sh') or SH)
    if s.get('demo_c'):
        open(os.path.join(d, 'demo.c'), 'w').write(s['demo_c'])
    for k, v in s.get('files', {}).items():
        open(os.path.join(d, k), 'w').write(v)
    shutil.rmtree(W)
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for s in g['SEEDS']:
        mk(s)
