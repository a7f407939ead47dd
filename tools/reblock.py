#!/usr/bin/env python3
"""reblock.py ROOT OUT REL NAME=VALUE...: write OUT/REL, a copy of ROOT/src/REL in which '#define NAME ...' defines VALUE.
Used for a source whose block sizes are macros and that may not be changed (its name is that of a test file)."""
import os, re, sys
root, out, rel, *defs = sys.argv[1:]
s = open(f'{root}/src/{rel}').read(); miss = []
for d in defs:
    n, v = d.split('=')
    s, k = re.subn(rf'(?m)^([ \t]*#[ \t]*define[ \t]+{n})[ \t]+[^\n]*$', rf'\1 {v}', s)
    if k != 1: miss.append(n)
if miss: print('no single definition of ' + ', '.join(miss)); sys.exit(3)
os.makedirs(os.path.dirname(f'{out}/{rel}'), exist_ok=True); open(f'{out}/{rel}', 'w').write(s)
