#!/usr/bin/env python3
"""Rewrites the table in DESIGN.md: per property what is under contract, what is
replayed, and which planted bugs belong to it. Run after changes of the specs."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cons = collections.defaultdict(set)
for f in sorted(glob.glob(V + '/spec/*.go')):
    for m in re.finditer(r'((?:^//.*\n)+)func (\w+)', open(f).read(), re.M):
        k = re.findall(r'@ contract (\S+)', m.group(1))
        if '@ lemma' in m.group(1):
            k.append('lemma ' + m.group(2).removesuffix('Lemma'))
        for x in re.findall(r'@ prop (.*)', m.group(1)):
            for p in x.split():
                cons[p].update(k)
tests = collections.defaultdict(set)
for f in glob.glob(V + '/harness/*/*.go'):
    for m in re.finditer(r'^func TestVerif_(C\d+)_(\w+)', open(f).read(), re.M):
        tests[m.group(1)].add(os.path.basename(os.path.dirname(f)) + '/' + m.group(2))
bugs = collections.defaultdict(list)
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    bugs[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
claims = json.load(open(V + '/tools/claims.json'))
na = {x['property']: x['reason'] for x in claims['not_applicable']}
out = []
def short(xs):
    by = collections.defaultdict(list)
    for x in sorted(xs):
        a, _, b = x.partition('.') if not x.startswith('lemma') else ('lemmas', '', x[6:])
        by[a].append(b)
    return '; '.join('%s: %s' % (a, ', '.join(b)) for a, b in by.items())
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    if i in na:
        out += ['Not applicable: ' + na[i], '']
        continue
    level, text = claims['checks'][i]
    out.append('*Level:* %s. %s' % (level, text))
    if cons[i]:
        out.append('*Under contract* (%d): %s.' % (len(cons[i]), short(cons[i])))
    if tests[i]:
        out.append('*Bounded replay:* %s.' % ', '.join(sorted(tests[i])))
    if bugs[i]:
        out.append('*Planted bugs caught:* %s.' % ', '.join(bugs[i]))
    out.append('')
s = open(V + '/DESIGN.md').read()
a, b = '<!-- table -->\n', '<!-- end of table -->'
i, j = s.index(a) + len(a), s.index(b)
body = '\n\n'.join(x for x in out if x) + '\n\n'
open(V + '/DESIGN.md', 'w').write(s[:i] + '\n' + body + s[j:])
