"""Generate MANIFEST.json from properties.jsonl and the contracts."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'engine'))
import run                                                      # noqa
import verify                                                   # noqa
NOTES = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    cs = verify.load(i)
    proof = [c.name for c in cs if c.mode == 'proof'
             and not c.opts.get('limit')]
    limit = [c.name for c in cs if c.opts.get('limit')]
    bounded = [c.name for c in cs if c.mode == 'bounded']
    runtime = [c.name for c in cs if c.mode == 'runtime']
    note = '%d contracts are discharged for all inputs, without bound.' % \
        len(proof)
    if not proof:
        note = 'No contract of this property is proved without bound.'
    if limit or bounded:
        note += ' Bounded stand-ins, all cases up to the stated size, not ' \
            'counted as proved: %s.' % ', '.join(bounded + limit)
    if runtime:
        note += ' Only executed on random inputs: %s.' % ', '.join(runtime)
    note += ' Trusted: the interpreter semantics and library contracts in ' \
        'engine/ (listed in the evidence), z3. '
    note += NOTES.get(i, '')
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt run.py %s --tier quick' % i,
        'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification: contracts on '
                     'the functions of /repo, obligations generated by '
                     'symbolic interpretation of their current source and '
                     'discharged by z3',
        'level': run.level(cs),
        'level_note': note.strip(),
    })
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"',
           'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
