#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the rule modules present"""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'engine'))
NA = {
 'C26': 'Collision resistance is a property of BLAKE2b itself; no static argument over this source can bound it.',
 'C27': 'Correctness and timing of Ed25519 live in ed25519-dalek/curve25519-dalek and in the hardware; the source of this crate only calls it (what it passes is decided by C22).',
 'C28': 'Equality of SIMD / thread-pool execution with the scalar result is a property of blake2b_simd and rayon, compiled outside this crate (the data flow into and out of them is decided by C18).',
 'C29': 'The round trip through the 2048-word list is arithmetic inside the bip39 crate; this crate only forwards to it.',
}
checks = []; na = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    f = os.path.join(HERE, 'rules', p.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('rules.' + p.lower())
        checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p,
                           technique=getattr(m, 'technique', 'abstract interpretation of the typed program (THIR): value-numbered summaries compared with protocol tables'),
                           level='other', level_note=m.explanation + ' Assumes: ' + '; '.join(m.assumptions or ['nothing further']) + '. Trusts the rustc front end, the models of library calls in engine/models.py and the tables in engine/spec.py and rules/. A summary the analysis cannot complete is reported as undecided in the evidence, not as a violation.'))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'No check registered yet.')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='All checks are static: they type-check /repo with a rustc driver and analyse the typed program; nothing of the crate is executed.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
