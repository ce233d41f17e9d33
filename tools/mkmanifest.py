"""Regenerates MANIFEST.json from properties.jsonl and the monitor modules that exist."""
import json, os, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    f = os.path.join(HERE, 'mon', 'props', pid.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': pid, 'reason': NA.get(pid, 'no monitor registered yet')})
        continue
    tree = ast.parse(open(f).read())
    const = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                const[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        'property': pid,
        'quick_cmd': 'bash run.sh ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': const.get('TECH', 'runtime monitoring: reference-model oracle over recorded executions of generated workloads'),
        'level': const.get('LEVEL', 'exploration'),
        'level_note': const.get('NOTE') or ' '.join((ast.get_docstring(tree) or '').split()),
    })
m = {'version': 1, 'setup_cmd': 'bash -n run.sh && test -x /opt/venv/bin/python', 'checks': checks}
if na:
    m['not_applicable'] = na
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'without')
