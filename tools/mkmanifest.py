#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'cdv'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           technique='contract-based deductive verification (CDV: separation-logic symbolic execution of the clang AST, z3)',
                           level='proof', level_note=p.get('note', 'All contracts discharged by z3 for all inputs; trusts the CDV verifier, the clang AST, z3, and the listed models of GMP/libc/isl; machine ints are mathematical.')))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'not yet under contract')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks in /repo are needed: the sources are read as they are.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
