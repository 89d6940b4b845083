#!/usr/bin/env python3
"""writes MANIFEST.json from config.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import CONFIG, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=[], not_applicable=[],
         notes='No hooks in /repo: every seam is put in place at compile or link time from /verif (ld --wrap, -fsanitize=thread with our own run-time, fopencookie, breakpoints). SIM_COUNT / SIM_WALL override the number of runs and the wall-clock cap of a check. python3 tools/check.py --replay FILE re-executes a recorded violation.')
for p in props:
    if p in CONFIG:
        c = CONFIG[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + p,
            technique=c.get('technique', 'deterministic simulation with fault injection (seeded search over schedules and faults)'), level='exploration',
            level_note=c.get('note') or ('Seeded search: ' + c['rule'] + '. Real: ' + '; '.join(c['real']) + '. Simulated: ' + '; '.join(c['stub']) + '. Assumes: ' + '; '.join(c['assume']) + '.')))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check under construction')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
