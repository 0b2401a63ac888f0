#!/usr/bin/env python3-vt
"""Pre-builds every harness flavour (a check rebuilds whatever is missing or stale)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import build as B, run as R
rs = R.fork_map(list(B.FLAVOURS), R.safe_build, 4, lambda f: 600)
bad = [(f, (r or {}).get('err', 'timeout')) for f, r in zip(B.FLAVOURS, rs) if not r or not r.get('ok')]
for f, e in bad:
    print('BUILD-ERROR', f, e[-1500:])
print('built', len(rs) - len(bad), 'of', len(rs), 'harness flavours')
sys.exit(1 if bad else 0)
