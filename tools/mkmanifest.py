import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
LEVEL = {}
CLAIMED = ['C01', 'C02', 'C03', 'C10', 'C11']
exec(open(V + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique=TECH.get(i, TECH['*']), level='proof', level_note=NOTE.get(i, NOTE['*'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not claimed yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
