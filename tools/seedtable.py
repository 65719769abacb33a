#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json and a file of results ("bug Cxx rc=N ...")."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
res = {}
for ln in open(sys.argv[1]):
    f = ln.split()
    if len(f) > 2 and f[2].startswith('rc='):
        res.setdefault(f[0], {})[f[1]] = f[2] == 'rc=1'
print('| bug | property | needs | quick check |')
print('|-----|----------|-------|-------------|')
for b in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', b, 'meta.json')))
    r = res.get(b, {})
    own = r.get(m['property'])
    also = [p for p, v in sorted(r.items()) if v and p != m['property']]
    print(f"| {b} | {m['property']} | {m['needs']} | {'caught' if own else 'missed' if own is not None else 'not run'}{' (also ' + ', '.join(also) + ')' if also else ''} |")
