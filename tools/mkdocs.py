"""Writes properties.jsonl and MANIFEST.json from tools/props.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
data = json.loads((ROOT / 'tools' / 'props.json').read_text())
with open(ROOT / 'properties.jsonl', 'w') as f:
    for p in data['properties']:
        f.write(json.dumps({k: v for k, v in p.items() if k not in
                            ('check', 'not_applicable')}) + '\n')
checks, na = [], []
for p in data['properties']:
    if 'not_applicable' in p:
        na.append(dict(property=p['id'], reason=p['not_applicable']))
        continue
    c = p['check']
    cmd = f'python3-vt sim/run.py check {p["id"]} --tier '
    checks.append(dict(property=p['id'], quick_cmd=cmd + 'quick',
                       thorough_cmd=cmd + 'thorough',
                       evidence_file=f'evidence/{p["id"]}.json',
                       technique=c['technique'], level='exploration',
                       level_note=c['note']))
manifest = dict(version=1, setup_cmd='python3-vt sim/run.py build',
                hooks=data['hooks'], checks=checks, not_applicable=na,
                notes=data['notes'])
(ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
