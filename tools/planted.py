"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (a mark per change that its check does not catch)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(HERE, 'tools', 'missed.txt')).read().split()) if os.path.exists(os.path.join(HERE, 'tools', 'missed.txt')) else set()
rows = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.setdefault(m['property'], []).append(d.split('-', 1)[1] + (' (missed)' if d in MISSED else ''))
out = ['| Check | Changes it catches, unless marked |', '|---|---|'] + [f'| {k} | {", ".join(v)} |' for k, v in sorted(rows.items())]
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded -->', '<!-- end of seeded -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])
