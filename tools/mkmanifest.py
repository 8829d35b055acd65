#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the file itself is committed)."""
import json, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
base="executable contracts run on the real code with an independent oracle; bounded, not a proof"
N={}
try:
    from manifest_notes import N
except ImportError: pass
checks=[]
for p in props:
    i=p['id']
    d=dict(property=i,quick_cmd=f'python3 run.py --prop {i} --tier quick',thorough_cmd=f'python3 run.py --prop {i} --tier thorough',evidence_file=f'evidence/{i}.json',
      technique='bounded executable contracts (stand-in for deductive contracts)',level='exploration',level_note=base)
    d.update(N.get(i,{}))
    checks.append(d)
m=dict(version=1,setup_cmd='python3 setup.py',hooks=dict(guard='none',enable='no hooks are added to /repo; the checks use its public API and its MIR',source_commits=[]),checks=checks,not_applicable=[],
  notes='see DESIGN.md; replay files: python3 run.py --replay FILE')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
