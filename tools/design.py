"""Writes DESIGN.md (called by tools/props.py)."""
import glob
import importlib
import json
import os
import sys


def write(root, P):
    sys.path.insert(0, root)
    out = open(os.path.join(root, 'tools', 'design_head.md')).read()
    for p in P:
        src = os.path.join(root, 'sim', 'props', p['id'] + '.py')
        env = {}
        import ast
        for n in ast.parse(open(src).read()).body:
            if isinstance(n, ast.Assign) and n.targets[0].__class__ is ast.Name and n.targets[0].id in ('RUNS', 'RULE', 'ASSUMPTIONS'):
                env[n.targets[0].id] = ast.literal_eval(n.value)
        out += '### %s — %s\n\n' % (p['id'], p['title'])
        out += p['statement'] + '\n\n'
        out += '* Quantified over: %s.\n' % p['quantifier']['text']
        out += '* Decided by: %s. %s\n' % (p['technique'], p['note'])
        out += '* Cases: %s.\n' % env['RULE']
        out += '* Bounds: %d cases in the quick tier, up to %d in the thorough tier (sampled, not exhaustive). Cost: about half a minute / up to hours on 8 cores.\n' % env['RUNS']
        out += '* Assumes: %s.\n' % '; '.join(env['ASSUMPTIONS'])
        out += '* Beyond the tests: %s\n\n' % p['why_tests_cant']
    tail = open(os.path.join(root, 'tools', 'design_tail.md')).read()
    k = json.load(open(os.path.join(root, 'known_findings.json')))
    tail = tail.replace('@@FIXES@@', '\n'.join('* %s %s' % (f.split()[1].split('=')[1], ' '.join(f.split()[2:])) for f in k['fixed']))
    rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    caught = json.load(open(os.path.join(root, 'tools', 'caught.json')))
    for m in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
        b = os.path.basename(os.path.dirname(m))
        d = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (b, d['property'], d['needs'].replace('|', '/'), ', '.join(caught.get(b, ['?']))))
    out += tail.replace('@@BUGS@@', '\n'.join(rows))
    open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
