"""Rewrites the generated parts of DESIGN.md (per-property table, planted bugs) from the registry, the evidence of the
last runs and the planted bugs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/analyzer')
from registry import MODULES, META, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    if i in NOT_APPLICABLE:
        out.append('Not applicable: %s.\n' % NOT_APPLICABLE[i])
        continue
    m = META[i]
    out.append('*Rules in* `analyzer/rules/%s.py`. *Technique:* %s.\n' % (MODULES[i], m['technique']))
    out.append(m['method'])
    out.append('*Bounds:* ' + m['note'])
    f = V + '/evidence/%s.json' % i
    old = re.search(r'### %s .*?\n(\*Obligations and cost.*?\n)' % i, open(V + '/DESIGN.md').read(), re.S)
    if os.path.exists(f):
        e = json.load(open(f))
        c = e['coverage']
        if e['tier'] == 'quick':
            out.append('*Obligations and cost (quick, one run on the final tree, machine shared):* %s obligations on %s abstract paths, about %d s. Rules: %s.' % (
                c['obligations'], c.get('abstract_paths', '-'), max(1, round(e['wall_s'], -1) or round(e['wall_s'])), ', '.join('`%s`' % r for r in c.get('rules', {}))))
        elif old:
            out.append(old.group(1).strip())
    out.append('')
seeds = []
S = V + '/seeded'
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for d in sorted(os.listdir(S)):
    j = json.load(open('%s/%s/meta.json' % (S, d)))
    seeds.append('| %s | %s | %s | %s |' % (d, j['property'], j['what_it_breaks'].replace('|', '/').replace('\n', ' '), caught.get(d, '?')))
s = open(V + '/DESIGN.md').read()
def fill(s, tag, text):
    a, b = '<!-- begin %s -->' % tag, '<!-- end %s -->' % tag
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + text + '\n' + s[j:]
s = fill(s, 'properties', '\n'.join(out))
s = fill(s, 'seeds', '\n'.join(['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|'] + seeds))
open(V + '/DESIGN.md', 'w').write(s)
