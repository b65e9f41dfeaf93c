"""Rewrites MANIFEST.json from properties.jsonl and the check modules that exist (run by hand)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

checks, missing = [], []
with open(os.path.join(HERE, 'properties.jsonl')) as file:
    properties = [json.loads(line) for line in file]
for item in properties:
    name = item['id']
    if not os.path.exists(os.path.join(HERE, 'checks', name.lower() + '.py')):
        missing.append({'property': name, 'reason': 'the check is not built yet'})
        continue
    module = importlib.import_module('checks.' + name.lower())
    checks.append({
        'property': name,
        'quick_cmd': f'python3-vt -B run.py {name}',
        'thorough_cmd': f'python3-vt -B run.py {name} --tier thorough',
        'evidence_file': f'evidence/{name}.json',
        'technique': getattr(module, 'TECHNIQUE', 'property-based testing (Hypothesis): generated cases against a reference model'),
        'level': getattr(module, 'LEVEL', 'exploration'),
        'level_note': getattr(module, 'LEVEL_NOTE', 'randomly generated cases, seeded by VERIF_SEED; holds for what was generated, no proof beyond it'),
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3-vt -B -c "import hypothesis, vlib.core"',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: the checks re-import polog from /repo\'s working tree for every case and substitute the modules it imports (threading, queue, time, datetime) where schedules or clocks matter.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent=1)
    file.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
