#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/sim')
from props import PROPS, NA
T = 'deterministic simulation with fault injection'
checks = []
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 sim/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 sim/check.py ' + i, technique=T + ': ' + p['tech'], level=p.get('level', 'exploration'), level_note=p['note']))
na = [dict(property=i, reason=NA.get(i, 'The check is not built yet.')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='python3 -m py_compile sim/build.py sim/check.py sim/props.py && mkdir -p .build evidence replays', checks=checks, not_applicable=na,
  notes='No hooks in /repo: every seam is taken at link and load time (libc entry points, allocator, OpenMP and pthread entry points, dynamic loader) and by compiling the unmodified sources with instrumentation callbacks. Exit code 2 of a check means that the check itself failed (build error, lost determinism), never a verdict.')
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
