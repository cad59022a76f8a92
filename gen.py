#!/opt/veriftools/pyvenv/bin/python3
"""write properties.jsonl and MANIFEST.json from spec.py"""
import json, os, sys
sys.dont_write_bytecode = True
from spec import PROPS, NOT_APPLICABLE, COMMON
R = os.path.dirname(os.path.abspath(__file__))
with open(R + '/properties.jsonl', 'w') as f:
    for pid, p in list(PROPS.items()) + [(x['id'], x) for x in NOT_APPLICABLE]:
        f.write(json.dumps({
            'id': pid, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
        assert len(p['title']) <= 80, pid
checks = []
for pid, p in PROPS.items():
    if not p['harness']: continue
    checks.append({'property': pid, 'quick_cmd': 'python3-vt check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': 'deductive verification of contracts on the LLVM IR of the real functions (symbolic execution with loop invariants, z3/cvc5)',
                   'level': p['level'], 'level_note': (p['note'] + ' ' if p['note'] else '') + COMMON})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m py_compile check.py spec.py vx/ir.py vx/arith.py vx/engine.py vx/handlers.py vx/vxc.py', 'checks': checks,
           'not_applicable': [{'property': x['id'], 'reason': x['reason']} for x in NOT_APPLICABLE],
           'notes': 'No hooks: contracts live in /verif/harness and are compiled together with the unmodified files of /repo.'}, open(R + '/MANIFEST.json', 'w'), indent=1)
