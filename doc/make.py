"""Write DESIGN.md from design.in.md, the properties and the evidence."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'doc'))
from notes import N
props = {p['id']: p for p in map(json.loads, open(H + '/properties.jsonl'))}
man = json.load(open(H + '/MANIFEST.json'))
na = {n['property']: n for n in man['not_applicable']}
tab, sec = [], []
for i, p in props.items():
    if i in na:
        continue
    e = json.load(open('%s/evidence/%s.json' % (H, i)))
    c = e['coverage']
    assert e['violations'] == 0 and e['tier'] == 'quick', i
    o, b, w = N[i]
    tab.append('| %s | %d (%d undecided) | %d | %d | %s |' % (
        i, c['obligations'], c['undecided'], c['functions_analysed'], max(1, round(e['wall_s'])), b.replace('|', '/')))
    sec.append('### %s %s\n\n%s\n\nOracle: %s. Bounds: %s. Beyond tests: %s.\n' % (
        i, p['title'], '\n'.join('* *%s*: %s' % kv for kv in c['rules'].items()), o, b, w))
fix = ['* %s %s: %s' % tuple(x.split(None, 3)[1:]) for x in
       (l.strip().replace('property=', '') for l in open(H + '/known_findings.txt')) if x.startswith('fixed:')]
seeds = []
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.append('| %s | %s | %s | %s |' % (d.split('/')[-2], m['property'], m['needs'], m['property']))
nas = ['* **%s** %s: %s.' % (i, props[i]['title'], n['reason']) for i, n in na.items()]
t = open(H + '/doc/design.in.md').read()
for k, v in (('TABLE', tab), ('PROPS', sec), ('FIXES', fix + ['']), ('SEEDS', seeds), ('NA', nas)):
    t = t.replace('@@%s@@' % k, '\n'.join(v))
open(H + '/DESIGN.md', 'w').write(t)
