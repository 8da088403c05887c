"""Writes MANIFEST.json from the table of checks."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(ROOT, 'tools', 'check.py')).read()
tab = eval(re.search(r'^TABLE = (\{.*?^\})', src, re.S | re.M).group(1))
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'levelnotes.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in tab:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification; TLC trace validation of recorded library executions' + ('; exhaustive TLC design model' if tab[i][1] else ''),
                       'level': 'model_checking', 'level_note': NOTES.get(i, NOTES['*'])})
    else:
        na.append({'property': i, 'reason': NOTES.get('na:' + i, 'no check yet: its specification module is not built')})
json.dump({'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'CRG_VERIF_HOOKS', 'enable': 'no hook is needed: the device interface is observed through vkGetDeviceProcAddr', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ (TLC). See DESIGN.md.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
