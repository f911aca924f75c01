"""Writes DESIGN.md from design_head.md, the property table, the checks and the planted bugs."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
man = json.load(open(ROOT + '/MANIFEST.json'))
na = {x.get('property') or x.get('id'): x['reason'] for x in man['not_applicable']}
seeds = {}
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, d)))
    seeds.setdefault(m['property'], []).append((d, m))
fixed = {}
for l in open(ROOT + '/known_findings.txt'):
    if l.startswith(('fixed:', 'known:')):
        c = l.split('property=')[1][:3]
        fixed.setdefault(c, []).append(l.strip())
out = [open(ROOT + '/tools/design_head.md').read(), '## Properties\n']
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not claimed: %s\n' % na[i])
        continue
    m = importlib.import_module('checks.' + i.lower())
    out.append('Decided by: ' + ' '.join(m.EXPLAIN.split()) + '\n')
    out.append('Assumes: ' + '; '.join(m.ASSUME) + '.\n')
    out.append('Why tests cannot settle it: ' + p['why_tests_cant'] + '\n')
    if i in fixed:
        out.append('Defects: ' + '; '.join(x.replace('property=%s ' % i, '')[:160] for x in fixed[i]) + '.\n')
    for d, s in seeds.get(i, []):
        out.append('* planted `%s`: %s (needs: %s) – caught by %s' % (d, s['what_it_breaks'], s['needs'], s.get('caught_by', i)))
    out.append('')
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
