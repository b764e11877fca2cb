"""Writes DESIGN.md from tools/design_head.md, design_tail.md, properties.jsonl, the checks' own TECHNIQUE/NOTE and
tools/oracles.py; the catch table comes from tools/catches.txt (kept by hand: bug id, caught/missed, by which check, remark)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/tools')
from oracles import O

out = [open(V + '/tools/design_head.md').read()]
catches = [l.rstrip('\n').split('|') for l in open(V + '/tools/catches.txt') if l.strip() and l[0] != '#']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    m = importlib.import_module('checks.' + p['id'].lower())
    oracle, bounds, secs = O[p['id']]
    mine = [c[0].strip() for c in catches if c[1].strip() == p['id']]
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append('*Specified:* %s\n' % p['statement'])
    out.append('*Decided by:* %s.\n' % m.TECHNIQUE.rstrip('.'))
    out.append('*Monitors and oracle:* %s\n' % oracle)
    note = m.NOTE if isinstance(m.NOTE, str) else ''.join(m.NOTE)
    out.append('*Bounds and assumptions:* %s %s\n' % (bounds, note))
    out.append('*Cost:* about %s s (quick) on 8 idle cores; thorough runs the same phases with ten times the cases.\n' % secs)
    out.append('*Why tests cannot:* %s\n' % p['why_tests_cant'])
    out.append('*Planted bugs:* %s.\n' % (', '.join(mine) or 'none kept'))
tail = open(V + '/tools/design_tail.md').read()
tab = ['| planted bug | property | caught by | remark |', '|---|---|---|---|']
for c in catches:
    tab.append('| ' + ' | '.join(x.strip() for x in c) + ' |')
out.append(tail.replace('@TABLE@', '\n'.join(tab)))
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
