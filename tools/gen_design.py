#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, then tables from the manifest, the fixes, the planted bugs and
the families of the last runs (kept in tools/coverage.json; `gen_design.py collect` refreshes it from evidence/)."""
import json, glob, os, sys
V = '/verif'
cov_file = f'{V}/tools/coverage.json'
cov = json.load(open(cov_file)) if os.path.exists(cov_file) else {}
if 'collect' in sys.argv:
    for f in sorted(glob.glob(f'{V}/evidence/C*.json')):
        d = json.load(open(f))
        if d.get('violations'):
            continue
        c = d['coverage']
        fams = {}
        for x in c['families']:
            fams[x['family']] = [x['executed'], x['complete']]
        cov.setdefault(d['property'], {})[d['tier']] = {'families': fams, 'states': c.get('states', 0), 'transitions': c.get('transitions', 0),
            'traces': c.get('traces_validated', c.get('traces', 0)), 'wall_s': round(d['wall_s'])}
    json.dump(cov, open(cov_file, 'w'), indent=0, sort_keys=True, ensure_ascii=False)
out = open(f'{V}/tools/design_head.md').read().rstrip() + '\n\n'
out += '## Repairs\n\n'
for l in open(f'{V}/known_findings.jsonl'):
    d = json.loads(l)
    out += f"* {d['what'].removeprefix('fixed: ')}\n"
out += '\n## Planted bugs\n\nEach was written from the property and the code, confirmed with its demonstration, and is caught by the quick check of its property.\n\n| seed | property | needs |\n|--|--|--|\n'
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d = json.load(open(f))
    note = f" ({d['note']})" if d.get('note') else ''
    out += f"| {f.split('/')[-2]} | {d['property']} | {d['needs']}{note} |\n"
notes = f'{V}/tools/design_notes.md'
if os.path.exists(notes):
    out += '\n' + open(notes).read().rstrip() + '\n'
m = {c['property']: c for c in json.load(open(f'{V}/MANIFEST.json'))['checks']}
out += '\n## What the checks cover\n\nCases per family, quick / thorough ("…" = not completed within the time limit of the check).\n'
for p in sorted(cov):
    if p not in m: continue
    q, t = cov[p].get('quick'), cov[p].get('thorough')
    out += f"\n### {p} ({m[p]['level']})\n\n{m[p]['level_note']}.\n\n"
    out += 'Time (s): ' + ' / '.join(str(x['wall_s']) if x else '–' for x in (q, t)) + '\n\n'
    names = list((q or t)['families']) + [n for n in (t or {'families': {}})['families'] if n not in (q or t)['families']]
    if len(names) > 30:
        tot = [sum(v[0] for v in x['families'].values()) if x else None for x in (q, t)]
        out += f"* {len(names)} families, one per source and file (" + ' / '.join(f'{x:,}' if x is not None else '–' for x in tot) + ' cases)\n'
        continue
    for n in names:
        def s(x):
            if not x or n not in x['families']: return '–'
            k, c = x['families'][n]
            return f'{k:,}' + ('' if c else '…')
        out += f'* {n}: {s(q)} / {s(t)}\n'
open(f'{V}/DESIGN.md', 'w').write(out)
