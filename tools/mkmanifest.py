#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry for every property that has a module mc/cNN_*.py; the
properties in NA are listed as not applicable with their reason."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
NA = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = set(re.match(r'c(\d\d)_', os.path.basename(f)).group(1) for f in glob.glob(os.path.join(HERE, 'mc', 'c[0-9][0-9]_*.py')))
checks, na = [], []
for p in props:
    i = p['id']
    if i[1:] in have:
        lev, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique='bounded exhaustive model checking: ' + lev, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na,
         notes='Entry point ./check <ID> [quick|thorough] [--replay FILE]; see DESIGN.md')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
