#!/usr/bin/env python3
"""ask.py <shim> <op> <file>: one request to a shim built from the current tree."""
import sys
from runner import build, Shim
s = Shim(build(sys.argv[1]), timeout=120)
r = s.ask(sys.argv[2], open(sys.argv[3], encoding='utf-8').read())
print(r[0]); print('\n'.join(r[1:])); print('\n'.join(s.printed))
