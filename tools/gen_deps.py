#!/usr/bin/env python3
"""Regenerates deps.json: the project's library sources (from its own build files), and for each harness the subset the linker pulls in.
Only an accelerator: when the subset no longer links, run.py builds every source."""
import json, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = '/repo'
p = os.path.join(VERIF, 'deps.json')
ninja = open(os.path.join(REPO, '_build/build.ninja')).read()
built = sorted(set(re.findall(r'stingraykit/[^ :]*\.cpp\b', ninja)))
built = [b for b in built if os.path.exists(os.path.join(REPO, b))]
allcpp = []
for root, _, files in os.walk(os.path.join(REPO, 'stingraykit')):
    for n in files:
        if n.endswith('.cpp'):
            allcpp.append(os.path.relpath(os.path.join(root, n), REPO))
deps = dict(sources=built, excluded=sorted(set(allcpp) - set(built)), harness={})
old = json.load(open(p)) if os.path.exists(p) else {}
deps['harness'] = old.get('harness', {})
json.dump(deps, open(p, 'w'), indent=1)
import run, checks
want = [os.path.basename(a) for a in sys.argv[1:]] or sorted(set(u['harness'] for c in checks.CHECKS.values() for u in c['units']))
for h in want:
    variant = next(u['variant'] for c in checks.CHECKS.values() for u in c['units'] if u['harness'] == h)
    deps['harness'].pop(h, None)
    json.dump(deps, open(p, 'w'), indent=1)
    run.build([dict(harness=h, variant=variant)], [])
    v = run.VARIANTS[variant]
    b = os.path.join(VERIF, '.build', variant)
    lib = os.path.join(b, 'all.a')
    if os.path.exists(lib): os.unlink(lib)
    objs = [os.path.join(b, 'lib', s.replace('/', '_') + '.o') for s in built]
    subprocess.check_call(['ar', 'qc', lib] + objs)
    wraps = ['-Wl,--wrap=' + w for w in run.WRAPS + (run.TSAN_WRAPS if variant == 'tsan' else [])]
    r = run.sh([v['cxx'], '-pthread'] + v['link'] + [os.path.join(b, 'h', x) for x in (h + '.o', 'vhmain.o', 'vhcore.o')] + [lib] + wraps +
               ['-licui18n', '-licuuc', '-licudata', '-lrt', '-ldl', '-Wl,-M', '-o', os.path.join(b, 'bin', 'probe')])
    used = set(re.findall(r'all\.a\(([^)]+)\.o\)', r.stdout))
    deps['harness'][h] = [s for s in built if s.replace('/', '_') in used]
    print(h, variant, len(deps['harness'][h]), 'of', len(built))
    os.unlink(lib)
    if os.path.exists(os.path.join(b, 'bin', 'probe')): os.unlink(os.path.join(b, 'bin', 'probe'))
    json.dump(deps, open(p, 'w'), indent=1)
