import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from table import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V+'/properties.jsonl','w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], state=list(p['state']), mechanism=p['mechanism'], observe_at=list(p['observe']), hook_needed=None))
        assert len(p['title'])<=80, p['id']
        f.write(json.dumps(d, ensure_ascii=False)+'\n')
checks, na = [], []
have = {f[:-3].upper() for f in os.listdir(V+'/checks') if f.startswith('c') and f.endswith('.py')}
for p in P:
    if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
    if p['id'] not in have or not p['technique']:
        na.append(dict(property=p['id'], reason='not claimed (yet): no check built for it')); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py '+p['id'], thorough_cmd='python3 check.py '+p['id']+' --thorough',
        evidence_file='evidence/%s.json'%p['id'], technique=p['technique'], level=p['level'], level_note=p['note']))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='All checks are static: they parse /repo (never import or run it). See DESIGN.md.')
json.dump(m, open(V+'/MANIFEST.json','w'), indent=1, ensure_ascii=False)
print(len(checks),'checks',len(na),'na')
