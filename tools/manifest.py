'''Writes MANIFEST.json from properties.jsonl and the list of claimed checks (run by hand after adding a check).'''
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
import importlib
checks = []
na = []
for p in props:
    pid = p['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
        continue
    try:
        m = importlib.import_module('ccsim.props.' + pid.lower())
    except ImportError:
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': './check %s --tier quick' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': getattr(m, 'TECHNIQUE', 'deterministic simulation with fault injection: seeded search over I/O fault plans against the real program behind an LD_PRELOAD seam'),
        'level': m.LEVEL,
        'level_note': getattr(m, 'LEVEL_NOTE', m.RULE),
    })
json.dump({'version': 1, 'setup_cmd': './check --setup',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks were needed in /repo: the seams are the dynamic linker (libc file operations), the pty and the shells\' own extension points. See DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
