#!/usr/bin/env python3
"""Builds the engine and every harness once (the checks rebuild whatever changed)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/engine')
import build
from checks import CHECKS
for c in CHECKS.values():
    for h in c['harnesses']:
        build.build(h['src'], h['libs'], h.get('kind', 'sym'), h.get('flags', ''))
        build.build(h['src'], h['libs'], 'plain' + ('ub' if h.get('kind', 'sym').endswith('ub') else ''), h.get('flags', ''))
print('built')
