"""Rewrites tools/catches.txt from seeded/*/meta.json, keeping the remarks already there (id|property|caught by|remark)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/tools/catches.txt'
old = {}
if os.path.exists(p):
    for l in open(p):
        if l.strip() and l[0] != '#':
            c = [x.strip() for x in l.rstrip('\n').split('|')]
            old[c[0]] = c
with open(p, 'w') as f:
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        i = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        c = old.get(i)
        by = c[2] if c else 'check of ' + m['property']
        rem = c[3] if c and len(c) > 3 else ''
        f.write('%s | %s | %s | %s\n' % (i, m['property'], by, rem))
