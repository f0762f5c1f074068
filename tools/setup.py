#!/usr/bin/env python3
"""setup_cmd: the checks build themselves; this only reports a missing tool early."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ('g++', 'clang++', 'ar') if not shutil.which(t)]
sys.path.insert(0, V)
import checks
for p, c in checks.CHECKS.items():
    for u in c['units']:
        if not os.path.exists(os.path.join(V, 'harness', u['harness'])):
            missing.append(u['harness'])
if missing:
    print('missing: ' + ', '.join(missing))
    sys.exit(1)
print('%d checks ready' % len(checks.CHECKS))
