#!/usr/bin/env python3-vt
"""nat.py UNIT [SECS] : run the native search of every harness on the current tree (finds wrong native harnesses)"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lsvc'))
import check
work = os.environ.get('VP_NATW') or tempfile.mkdtemp(prefix='lsvc.nat.')
os.makedirs(work, exist_ok=True)
for n in (work,):
    u = check.parse_unit(sys.argv[1]); log = []
    exe = check.build_native(u, work, log)
    print(log)
    if exe:
        for h, o in u['harness']:
            if o.get('kind') == 'inductive' or o.get('native') == 'no': print('%-30s not run' % h); continue
            rc, txt = check.native(exe, [h, 'search', '12345', sys.argv[2] if len(sys.argv) > 2 else '3'], 60)
            print('%-30s rc=%s %s' % (h, rc, txt.strip()[-400:]))
if not os.environ.get('VP_NATW'): shutil.rmtree(work)
