"""Rewrites the generated part of DESIGN.md (properties and planted bugs) from properties.jsonl, the check modules and design_notes.json (run by hand)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
MARK = '<!-- generated by tools/make_design.py from here on -->'

with open(os.path.join(HERE, 'properties.jsonl')) as file:
    properties = [json.loads(line) for line in file]
with open(os.path.join(HERE, 'tools', 'design_notes.json')) as file:
    notes = json.load(file)

lines = [MARK, '', '## The properties, one by one', '',
         'Cost: quick runs take 10 - 60 s on 8 cores; a thorough run generates 20 times as many cases (5 - 30 minutes).', '']
for item in properties:
    module = importlib.import_module('checks.' + item['id'].lower())
    lines.append(f'### {item["id"]}. {item["title"]}')
    lines.append('')
    lines.append(f'* Method: {getattr(module, "TECHNIQUE", "property-based testing: the same generated program bare and decorated, compared")}.')
    lines.append(f'* Generated: {module.RULE}')
    lines.append(f'* Oracle and reach: {notes["properties"][item["id"]]}')
    if getattr(module, 'ASSUMPTIONS', None):
        lines.append(f'* Bounds and assumptions: {"; ".join(module.ASSUMPTIONS)}.')
    lines.append('* Cases (quick): ' + ', '.join(f'{x.name} {x.quick}' for x in module.FACETS) + '.')
    lines.append('')
lines += ['## Planted bugs (`seeded/`) and the checks that catch them', '',
          'Each one passes the stable tests, and its demonstration fails with it and passes without it. "Caught" is the quick check of its property, seed 1.', '',
          '| bug | property | needs | caught by |', '|---|---|---|---|']
seeded = os.path.join(HERE, 'seeded')
for name in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else ():
    with open(os.path.join(seeded, name, 'meta.json')) as file:
        meta = json.load(file)
    lines.append(f'| {name} | {meta["property"]} | {meta["needs"]} | {notes["caught"].get(name, "not run yet")} |')
lines.append('')
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as file:
    text = file.read()
text = text.split(MARK)[0].rstrip() + '\n\n' + '\n'.join(lines)
with open(path, 'w') as file:
    file.write(text)
