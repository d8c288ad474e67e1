"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
NA = {
 'C30': 'pure conversion functions of their argument: no schedule, clock, I/O, fault or interleaving takes part, so there is nothing to simulate; the one place a clock meets them (generated record dates) is decided under C22',
 'C31': 'pure in-memory functions of their argument (header encoding and lookup): no schedule, clock, I/O, fault or interleaving takes part; their use while writing is covered by C07 and C08',
}
TECH = {}
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
        continue
    if not os.path.exists(os.path.join(root, 'vsim', 'props', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    src = open(os.path.join(root, 'vsim', 'props', pid.lower() + '.py')).read()
    ns = {}
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ('TECHNIQUE', 'NOTE', 'ASSUMPTIONS'):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    note = ns.get('NOTE', 'Seeded search: a clean batch is evidence, not proof.')
    if ns.get('ASSUMPTIONS'):
        note += ' Assumes: ' + '; '.join(ns['ASSUMPTIONS']) + '.'
    checks.append({'property': pid,
        'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'technique': ns.get('TECHNIQUE', 'deterministic simulation: seeded search over delivery schedules and faults, model oracle'),
        'level': 'exploration',
        'level_note': note})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is installed from /verif/vsim/seams.py before warcio is imported. '
              'Replay a violation with ./check --replay <path>; ./check --selftest proves determinism.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
