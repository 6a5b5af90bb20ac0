#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: the scenarios of each property
(from the evidence files of the last quick runs) and the seeded bugs."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
esc = lambda s: re.sub(r'\s+', ' ', str(s)).replace('|', '\\|')

def scenarios():
    out = []
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        f = f"{V}/evidence/{p['id']}.json"
        if not os.path.exists(f):
            sys.exit('no evidence for ' + p['id'])
        e = json.load(open(f))
        if e['tier'] != 'quick':
            sys.exit(f + ' is not of a quick run')
        c = e['coverage']
        out.append(f"\n**{p['id']} {p['title']}** - {c['executions']:,} executions, {c['transitions']:,} operations, {c['states']:,} states\n")
        for s in c['scenarios']:
            out.append(f"* `{s['scenario']}` ({s['executions']:,}): {esc(s['bound'])}")
    return '\n'.join(out) + '\n'

def seeds():
    out = ['| seed | check | needs | breaks |', '|------|-------|-------|--------|']
    for d in sorted(glob.glob(V + '/seeded/*/')):
        m = json.load(open(d + 'meta.json'))
        out.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} |")
    return '\n'.join(out) + '\n'

t = open(V + '/DESIGN.md').read()
for name, f in [('scenarios', scenarios), ('seeds', seeds)]:
    b, e = f'<!-- begin {name} -->\n', f'<!-- end {name} -->\n'
    i, j = t.index(b) + len(b), t.index(e)
    t = t[:i] + f() + t[j:]
open(V + '/DESIGN.md', 'w').write(t)
