#!/usr/bin/env python3
"""Rewrites the catch matrix in DESIGN.md from a file of lines 'ID PROPERTY rc=N SECONDSs ...'."""
import sys, collections
d = collections.defaultdict(list)
n = c = 0
for l in open(sys.argv[1]):
    f = l.split()
    if len(f) < 4 or not f[2].startswith('rc='):
        continue
    n += 1
    ok = f[2] == 'rc=1'
    c += ok
    d[f[1]].append(f"{f[0][4:] if f[0][:3].upper() == f[1] else f[0]} {f[3] if ok else '**missed**'}")
t = f"{c} of {n} caught by the quick check of their property, VERIF_SEED=1; with the seconds that took, building included.\n\n| property | planted bugs |\n|---|---|\n"
for p in sorted(d):
    t += f"| {p} | {', '.join(sorted(d[p]))} |\n"
s = open('DESIGN.md').read()
a, b = '<!-- matrix -->\n', '<!-- /matrix -->\n'
if a not in s:
    s = s.rstrip('\n') + f"\n\n## Planted bugs and the checks that catch them\n\n{a}{b}"
i, j = s.index(a) + len(a), s.index(b)
open('DESIGN.md', 'w').write(s[:i] + t + s[j:])
