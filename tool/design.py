#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md (between the markers): units, functions and callee contracts per property, seeded changes"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
U = {}
for f in sorted(glob.glob(V + '/units/c*.[cv]')):
    t = open(f).read(); m = re.search(r'[/(]\*@vc\n(.*?)@\*[/)]', t, re.S)
    if not m: continue
    d = {}
    for l in re.sub(r'\\\n\s*', ' ', m[1]).splitlines():
        p = l.split(None, 1)
        if p: d.setdefault(p[0], []).append(p[1].strip() if len(p) > 1 else '')
    U[os.path.basename(f)[:-2]] = d
w = lambda d, k: [x for l in d.get(k, []) for x in l.split()]
out = []
for p in props:
    out.append('#### %s %s\n' % (p['id'], p['title']))
    out.append('| unit | functions under contract | callees by contract | loops by invariant | back end |'); out.append('|---|---|---|---|---|')
    for n, d in U.items():
        if p['id'] not in w(d, 'prop'): continue
        loops = [l.split()[0] + '#' + l.split()[1] for l in d.get('loop', [])]
        sol = 'Coq/Flocq' if os.path.exists(V + '/units/' + n + '.v') else ', '.join(w(d, 'solver')) or 'cadical'
        note = (' (bounded: %s)' % d['bounded'][0]) if 'bounded' in d else ''
        out.append('| %s%s | %s | %s | %s | %s |' % (n, note, ', '.join(w(d, 'func')) or '(lemma)', ', '.join(w(d, 'stub')) or '-', ', '.join(loops) or '-', sol))
    a = []
    for n, d in U.items():
        if p['id'] in w(d, 'prop'):
            for x in d.get('assume', []):
                if x not in a: a.append(x)
    if a: out.append('\nAssumed: ' + '; '.join(a) + '.')
    s = [os.path.basename(os.path.dirname(x)) for x in sorted(glob.glob(V + '/seeded/*/meta.json')) if json.load(open(x))['property'] == p['id']]
    out.append('\nPlanted changes caught by this check: ' + (', '.join(s) or 'none planted') + '.\n')
D = open(V + '/DESIGN.md').read()
b, e = '<!-- generated: tool/design.py -->\n', '<!-- end generated -->'
i, j = D.index(b) + len(b), D.index(e)
open(V + '/DESIGN.md', 'w').write(D[:i] + '\n'.join(out) + '\n' + D[j:])
