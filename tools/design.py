#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md: cases per property, and planted bugs (between the markers)."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
cases = {}
for f in sorted(glob.glob(root + '/harness/c*.go')):
    doc = []
    for l in open(f):
        if l.startswith('//'):
            doc.append(l[2:].strip())
        else:
            m = re.match(r'func ((C\d\d)_\w+)\(\)', l)
            if m:
                text = ' '.join(d for d in doc if d and not d.startswith('sym:'))
                text = re.sub('^' + m.group(1) + ' ', '', text)
                b = {'quick': [], 'thorough': []}
                for d in doc:
                    k = re.match(r'sym:(quick|thorough|both) ?(.*)', d)
                    if k:
                        p = ' '.join(x for x in k.group(2).split() if not x.startswith('time='))
                        for t in (['quick', 'thorough'] if k.group(1) == 'both' else [k.group(1)]):
                            b[t].append(p or 'as stated')
                cases.setdefault(m.group(2), []).append((m.group(1), text, b))
            doc = []
out = []
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    for n, t, b in cases.get(i, []):
        q, th = b['quick'], [x for x in b['thorough'] if x not in b['quick']]
        out.append(f"* `{n}` {t} Quick: {'; '.join(q) or 'no'}." + (f" Thorough also: {'; '.join(th)}." if th else ''))
    out.append('')
seeds = []
res = {}
rf = root + '/tools/seed_results.txt'
if os.path.exists(rf):
    for l in open(rf):
        w = l.split()
        if len(w) > 2:
            res[w[0]] = w[2]
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    seeds.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {res.get(d, 'not run').lower()} |")
def between(s, name, body):
    a, b = f'<!-- {name} -->\n', f'<!-- end {name} -->\n'
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + body + s[j:]
s = open(root + '/DESIGN.md').read()
s = between(s, 'cases', '\n'.join(out) + '\n')
s = between(s, 'seeds', '| planted bug | needs | breaks | its property\'s quick check |\n|---|---|---|---|\n' + '\n'.join(seeds) + '\n')
open(root + '/DESIGN.md', 'w').write(s)
