#!/usr/bin/env python3
"""Writes ../baseline.json: per property the obligations discharged on the unchanged tree (run by hand after contracts change)."""
import json, os, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bp = os.path.join(H, 'baseline.json')
base = json.load(open(bp)) if os.path.exists(bp) else {}
props = sys.argv[1:] or [c['property'] for c in json.load(open(os.path.join(H, 'MANIFEST.json')))['checks']]
for p in props:
    t = tempfile.mktemp()
    r = subprocess.run(['python3', 'check.py', p], cwd=H, env=dict(os.environ, PV_BASELINE=t), capture_output=True, text=True)
    b = json.load(open(t)) if os.path.exists(t) else {}
    if os.path.exists(t): os.unlink(t)
    base[p] = {k: v for k, v in b.items() if v == 'proved'}
    if not base[p]: del base[p]
    print(r.stdout.strip().split('\n')[0], 'rc', r.returncode, flush=True)
    if r.returncode: print(r.stdout[-1500:])
json.dump(base, open(bp, 'w'), indent=0, sort_keys=True)
