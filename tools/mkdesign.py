#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, manifest_notes.py, the specs and seeded/*/meta.json (run by hand; the result is committed)."""
import json, os, glob, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from manifest_notes import D
t = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
r = subprocess.run(['python3-vt', '-c', f'''import sys,json
sys.path.insert(0,{V + "/mirvc"!r}); sys.setrecursionlimit(20000); import main
d={{}}
for s in main.load_specs():
    if s.post or s.overflow:
        for p in s.props: d.setdefault(p,[]).append(s.fn)
print("J "+json.dumps(d))'''], stdout=subprocess.PIPE, text=True).stdout
fns = json.loads([l for l in r.split('\n') if l.startswith('J ')][0][2:])
rows = []
for k in sorted(D):
    l, p, b = D[k]
    f = sorted(set(fns.get(k, [])))
    rows.append(f'### {k} {t[k]} — level `{l}`\n\n* Proved: {p}\n* Bounded only: {b}.\n* Functions under contract ({len(f)}): ' + (', '.join(f'`{x}`' for x in f) or 'none') + '\n')
seeds = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d.get('caught_by', '?')} |")
s = open(V + '/tools/DESIGN.in.md').read().replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(s)
