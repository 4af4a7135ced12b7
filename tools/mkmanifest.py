"""writes MANIFEST.json from properties.jsonl and the specifications present"""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
have = set()
for f in glob.glob(V + '/spec/*.py'):
    have |= set(re.findall(r'^def (C\d\d)\(', open(f).read(), re.M))
NA = {}
NOTE = {}
exec(open(V + '/tools/levels.py').read())
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in have and i not in NA:
        m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                            'technique': 'contract-based deductive verification: contracts on the real entry points, verification conditions from MIR, discharged by SMT',
                            'level': 'proof', 'level_note': NOTE.get(i, 'all obligations for all inputs; trusted base listed in evidence')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
