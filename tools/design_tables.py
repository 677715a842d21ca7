#!/usr/bin/env python3-vt
"""design_tables.py: the contracts of each property, as the list in DESIGN.md (run it with python3-vt from /verif)"""
import glob
import importlib
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyver.prove import REGISTRY

for f in sorted(glob.glob(os.path.join(HERE, 'pyver', 'contracts', '*.py'))):
    n = os.path.basename(f)[:-3]
    if n not in ('__init__', 'common'):
        importlib.import_module('pyver.contracts.' + n)
by = {}
for c in REGISTRY:
    for p in c.props:
        by.setdefault(p, []).append(c.name)
for p in sorted(by):
    groups = {}
    for n in by[p]:
        m, _, rest = n.partition('.')
        groups.setdefault(m, []).append(rest)
    print('- **%s** (%d): %s' % (p, len(by[p]), '; '.join('%s: %s' % (m, ', '.join(ns)) for m, ns in groups.items())))
