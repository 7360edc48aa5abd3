#!/usr/bin/env python3
"""Puts the table of catch_table.py into DESIGN.md."""
import re, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = [l for l in subprocess.run(['python3', V + '/tools/catch_table.py'], capture_output=True, text=True, check=True).stdout.splitlines() if l.startswith('| C')]
p = V + '/DESIGN.md'
L = open(p).read().splitlines()
i = L.index('## Planted bugs')
a = next(k for k in range(i, len(L)) if L[k].startswith('| C'))
b = next(k for k in range(a, len(L)) if not L[k].startswith('| C'))
L[a:b] = t
open(p, 'w').write('\n'.join(L) + '\n')
