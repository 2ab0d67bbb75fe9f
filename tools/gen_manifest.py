"""Writes MANIFEST.json: every property with a check is claimed, the others are listed with a reason."""
import json, re, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(f'{HERE}/vf/check.py').read()
have = set(re.findall(r"@check\('(C\d+)'\)", src))
NOTES = json.load(open(f'{HERE}/tools/levels.json'))
props = [json.loads(l) for l in open(f'{HERE}/properties.jsonl')]
checks, na = [], []
for p in props:
  pid = p['id']
  if pid in have:
    n = NOTES[pid]
    checks.append(dict(property=pid, quick_cmd=f'python3 vf/check.py {pid}', thorough_cmd=f'VERIF_TIER=thorough python3 vf/check.py {pid}',
                       evidence_file=f'evidence/{pid}.json', technique=n['technique'], level='model_checking', level_note=n['note']))
  else:
    na.append(dict(property=pid, reason=NOTES.get(pid, {}).get('reason', 'no check yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='All verdicts are computed by TLC from the modules in spec/; see DESIGN.md.')
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
